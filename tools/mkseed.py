#!/usr/bin/env python3
"""mkseed.py SPEC.py...: turns seed specifications into /verif/seeded/<id>/ after confirming them.
A specification sets ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (python source)."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/seedwork"
BASE = "550dfb1"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case, nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
export PYTHONPATH=$repo
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cd "$d" && "$PY" -W ignore "$here/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(path):
    s = {}
    exec(compile(open(path).read(), path, "exec"), s)
    sid = s["ID"]
    w = "%s/%s" % (ROOT, sid)
    shutil.rmtree(w, ignore_errors=True)
    sh(["cp", "-a", "/repo", w])
    sh("git -C %s checkout -q -- . " % w)
    out = []
    for f, old, new in s["EDITS"]:
        t = open("%s/%s" % (w, f)).read()
        if t.count(old) != 1:
            return sid, "FAIL edit: %d matches in %s of %r" % (t.count(old), f, old[:80]), 0
        open("%s/%s" % (w, f), "w").write(t.replace(old, new))
    diff = sh("git -C %s diff" % w).stdout
    # removed lines must be of the base commit
    for f in sorted({e[0] for e in s["EDITS"]}):
        d = sh("git -C %s diff -U0 -- %s" % (w, f)).stdout
        bl = sh("git -C %s blame -s --abbrev=10 HEAD -- %s" % (w, f)).stdout.splitlines()
        base = sh("git -C %s rev-parse %s" % (w, BASE)).stdout.strip()[:10]
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            if n == 0:
                out.append("note: pure insertion at %s:%d" % (f, a))
            for k in range(a, a + n):
                if not bl[k - 1].lstrip("^").startswith(base[:9]):
                    out.append("NOT ORIGINAL %s:%d %s" % (f, k, bl[k - 1][:120]))
    dst = "%s/seeded/%s" % (V, sid)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    open(dst + "/patch.diff", "w").write(diff)
    open(dst + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(dst + "/demo.sh", 0o755)
    open(dst + "/demo.py", "w").write(s["DEMO"].lstrip())
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]},
              open(dst + "/meta.json", "w"), indent=1)
    ok = 1
    r0 = sh(["bash", dst + "/demo.sh"], cwd="/repo", timeout=300)
    r1 = sh(["bash", dst + "/demo.sh"], cwd=w, timeout=300)
    out.append("demo base %d patched %d (%s)" % (r0.returncode, r1.returncode, r1.stdout.strip().splitlines()[-1:]))
    if r0.returncode:
        out.append(r0.stdout[-600:])
    if any(o.startswith("NOT ORIG") for o in out) or r0.returncode or not r1.returncode:
        ok = 0
    if ok and "--notest" not in sys.argv:
        t = sh("sed 's#/repo#%s#g' /opt/vp/test.sh > %s.test.sh; sed -i 's#\\. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH=%s#' %s.test.sh; bash %s.test.sh %s.json" % (w, w, w, w, w, w))
        line = t.stdout.strip().splitlines()[-1:]
        out.append("tests %s" % line)
        if line != ["48 passed, 1 failed"]:
            ok = 0
            out.append(t.stdout[-800:])
    if ok and "--nocheck" not in sys.argv:
        c = sh("ALIPY_REPO=%s bash %s/run.sh %s quick" % (w, V, s["PROP"]), timeout=900)
        hit = c.returncode == 1 and "VIOLATION property=%s" % s["PROP"] in c.stdout
        out.append("CAUGHT" if hit else "MISSED rc=%d %s" % (c.returncode, c.stdout[-300:]))
        if hit:
            out.append("\n      ".join(c.stdout.strip().splitlines()[:3])[:500])
    shutil.rmtree(w, ignore_errors=True)
    for x in (".test.sh", ".json"):
        if os.path.exists(w + x):
            os.remove(w + x)
    return sid, "; ".join(out[:-1]) + "\n   " + out[-1], ok


os.makedirs(ROOT, exist_ok=True)
for p in [a for a in sys.argv[1:] if not a.startswith("--")]:
    sid, msg, ok = one(p)
    print(("ok   " if ok else "BAD  ") + sid, msg, flush=True)
