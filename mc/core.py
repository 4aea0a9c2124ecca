"""Runner shared by all checks: case execution, exhaustive drivers, violations, evidence.

A *case* is a top-level function of a check module applied to literal arguments (numbers,
strings, tuples, lists, dicts).  Cases build every object they use from scratch, so a case
is a complete, replayable execution of the implementation:  run.sh <ID> replay <file>.
"""
import ast
import collections
import hashlib
import itertools
import json
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("ALIPY_REPO", "/repo"))
CASE_TIMEOUT = 120
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property is broken. key identifies the failing call site / input class."""

    def __init__(self, key, msg=""):
        Exception.__init__(self, "%s: %s" % (key, msg))
        self.key = key
        self.msg = msg


class Hang(BaseException):
    pass


class Skip(Exception):
    """Raised by a case outside the domain; counted separately."""


def require(cond, key, msg=""):
    if not cond:
        raise Violation(key, msg() if callable(msg) else msg)


def _from_repo(tb):
    hit = None
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO + "/alipy"):
            hit = fr
    return hit


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.transitions = 0
        self.states = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = {}      # key -> record
        self.errors = []
        self.extra = collections.Counter()
        self.caps = []

    def merge(self, o):
        self.evaluations += o.evaluations
        self.skipped += o.skipped
        self.transitions += o.transitions
        self.states += o.states
        self.traces += o.traces
        self.outcomes |= o.outcomes
        self.extra.update(o.extra)
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in o.violations.items():
            if k not in self.violations:
                self.violations[k] = v
            else:
                self.violations[k]["count"] += v["count"]
        self.errors.extend(o.errors)
        self.caps.extend(o.caps)


def digest(x):
    return hashlib.md5(repr(x).encode()).digest()[:8]


class Ctx(object):
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.quick = tier == "quick"
        self.seed = seed
        self.stats = Stats()
        self.notes = {}
        self.t0 = time.time()

    # ---- one case -----------------------------------------------------------------
    def case(self, fn, *args, **kw):
        """Run one case; returns its result or None when it failed."""
        count = kw.pop("count", True)
        st = self.stats
        if len(st.violations) >= 40:
            return None

        def on_alarm(sig, frm):
            raise Hang("".join(traceback.format_stack(frm)[-6:]))

        old = signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(CASE_TIMEOUT)
        try:
            res = fn(*args)
            if count:
                st.evaluations += 1
                st.outcomes.add(digest((fn.__name__, res)))
                if len(st.samples) < 4 or (st.evaluations in (50, 500, 5000) and len(st.samples) < 10):
                    st.samples.append({"case": fn.__name__, "args": repr(args)[:400],
                                       "outcome": repr(res)[:300]})
            return res
        except Skip:
            st.skipped += 1
        except Violation as v:
            self._violate(v.key, v.msg, fn, args, traceback.format_exc())
        except Hang as h:
            self._violate("hang:" + fn.__name__, "did not finish in %d s\n%s" % (CASE_TIMEOUT, h), fn, args, "")
        except Exception as e:
            fr = _from_repo(sys.exc_info()[2])
            if fr is not None:
                self._violate("exception:%s:%s:%s" % (fn.__name__, type(e).__name__, fr.name),
                              "unexpected %s: %s" % (type(e).__name__, e), fn, args, traceback.format_exc())
            elif isinstance(e, (MemoryError, OSError)):
                st.errors.append("%s%r\n%s" % (fn.__name__, args, traceback.format_exc()))
            else:
                # the implementation returned something the oracle cannot even read (None for a
                # list, wrong nesting, a missing attribute): the documented result is absent
                self._violate("unreadable:%s:%s" % (fn.__name__, type(e).__name__),
                              "result could not be interpreted: %s: %s" % (type(e).__name__, e),
                              fn, args, traceback.format_exc())
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None

    def _violate(self, key, msg, fn, args, tb):
        st = self.stats
        st.evaluations += 1
        if key in st.violations:
            st.violations[key]["count"] += 1
            return
        st.violations[key] = {"property": self.prop, "key": key, "message": str(msg)[:4000],
                              "case": fn.__name__, "args": repr(args), "traceback": tb[-4000:], "count": 1}

    # ---- drivers ------------------------------------------------------------------
    def each(self, fn, argsiter):
        for a in argsiter:
            self.case(fn, *a)

    def parallel(self, fn, argsiter, nproc=None):
        """Run fn on every argument tuple, strided over forked workers."""
        argsl = list(argsiter)
        n = nproc or NPROC
        if len(argsl) < 4 or n == 1:
            return self.each(fn, argsl)
        self.fork_map(lambda w: self.each(fn, argsl[w::n]), n)

    def fork_map(self, job, n, tasks=None):
        """job(w) in n forked workers, each with fresh stats, merged afterwards."""
        base = self.stats
        pipes = []
        sys.stdout.flush()
        for w in range(n):
            r, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    self.stats = Stats()
                    try:
                        job(w)
                    except BaseException:
                        self.stats.errors.append(traceback.format_exc())
                    data = pickle.dumps(self.stats)
                    with os.fdopen(wfd, "wb") as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            os.close(wfd)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                base.merge(pickle.loads(data))
            except Exception as e:
                base.errors.append("worker died: %s" % e)

    def jobs(self, joblist):
        """Run a list of (callable, args) jobs, dynamically spread over workers; each job
        receives ctx implicitly through closure and uses self.case."""
        n = min(NPROC, len(joblist))
        if n <= 1:
            for f, a in joblist:
                f(*a)
            return
        r, w = os.pipe()
        for i in range(len(joblist)):
            os.write(w, b"%06d" % i)
        os.close(w)

        def job(_):
            while True:
                b = os.read(r, 6)
                if len(b) < 6:
                    return
                f, a = joblist[int(b)]
                f(*a)
        self.fork_map(job, n)
        os.close(r)

    def bfs(self, fn, alphabet, depth, max_states=None, prefix=()):
        """Breadth-first search over operation histories.

        fn(history) executes the whole history on fresh real objects next to the reference
        model, checks every step and returns a canonical form of the final state (None if the
        history cannot be extended).  alphabet: list of operations or function(history)->list.
        Histories reaching an already seen state are not extended.
        """
        st = self.stats
        seen = set()
        res = self.case(fn, list(prefix), count=False)
        if res is not None:
            seen.add(digest(res))
        frontier = [list(prefix)]
        d = 0
        while frontier and d < depth:
            d += 1
            nxt = []
            for h in frontier:
                ops = alphabet(h) if callable(alphabet) else alphabet
                for op in ops:
                    hist = h + [op]
                    r = self.case(fn, hist)
                    st.transitions += 1
                    st.traces += 1
                    if r is None:
                        continue
                    k = digest(r)
                    if k not in seen:
                        seen.add(k)
                        nxt.append(hist)
                        if max_states and len(seen) >= max_states:
                            st.caps.append("state cap %d at depth %d" % (max_states, d))
                            st.states += len(seen)
                            return seen
            frontier = nxt
        st.extra["bfs_max_depth"] = max(st.extra["bfs_max_depth"], d)
        st.states += len(seen)
        return seen

    # ---- finish -------------------------------------------------------------------
    def finish(self, level, rule, assumptions=(), exhaustive=True):
        st = self.stats
        known = load_known(self.prop)
        fresh = []
        for k, v in sorted(st.violations.items()):
            if k in known:
                print("KNOWN-FINDING: property=%s %s [%s] (%d cases)" % (self.prop, known[k], k, v["count"]))
            else:
                fresh.append(v)
        if st.caps:
            exhaustive = False
        cov = {"evaluations": st.evaluations, "distinct_nontrivial": len(st.outcomes), "rule": rule,
               "samples": st.samples[:12] or ["(none)"], "exhaustive": bool(exhaustive)}
        if level == "model_checking":
            cov = {"states": st.states or len(st.outcomes), "transitions": st.transitions or st.evaluations,
                   "traces_validated_against_impl": st.traces or st.evaluations,
                   "executions": st.evaluations, "distinct_outcomes": len(st.outcomes), "rule": rule,
                   "samples": st.samples[:12] or ["(none)"], "exhaustive": bool(exhaustive)}
        if st.skipped:
            cov["outside_domain"] = st.skipped
        for k, v in st.extra.items():
            cov[k] = v
        cov.update(self.notes)
        if st.caps:
            cov["caps_hit"] = st.caps[:20]
        cov["known_findings_seen"] = sorted(k for k in st.violations if k in known)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        if fresh:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(fresh[:20]):
                path = os.path.join(rd, "%s-%02d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                    f.write("\n")
                print("  [%s] %s%s" % (v["key"], v["case"], v["args"][:300]))
                print("    " + v["message"][:600].replace("\n", "\n    "))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if st.errors:
            sys.stdout.flush()
            print("HARNESS ERRORS (%d):\n%s" % (len(st.errors), st.errors[0]), file=sys.stderr)
        print("%s %s: %d executions, %d distinct outcomes, %d violations, %.1f s" % (
            self.prop, self.tier, st.evaluations, len(st.outcomes), len(fresh), time.time() - self.t0))
        if fresh:
            return 1
        if st.errors:
            return 2
        return 0


def load_known(prop):
    out = {}
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    rest = line[len("known: property=%s " % prop):]
                    if rest.startswith("key="):
                        key, _, what = rest[4:].partition(" ")
                        out[key] = what
    except IOError:
        pass
    return out


# ---- nondeterminism: choice trees ------------------------------------------------------

class Chooser(object):
    """Replays a prefix of choices, then takes 0; records the arity of every choice point."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []           # (choice, arity)

    def __call__(self, n, tag=None):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise RuntimeError("divergence while replaying: choice %d of %d at %d" % (c, n, i))
        else:
            c = 0
        self.trace.append((c, n))
        return c


def explore_choices(run, max_runs=None):
    """run(chooser) is executed once for every leaf of its choice tree (depth first)."""
    stack = [[]]
    runs = 0
    while stack:
        pre = stack.pop()
        ch = Chooser(pre)
        run(ch)
        runs += 1
        if max_runs and runs >= max_runs and stack:
            return runs, False
        tr = ch.trace
        for i in range(len(tr) - 1, len(pre) - 1, -1):
            c, n = tr[i]
            base = [x for x, _ in tr[:i]]
            for alt in range(n - 1, 0, -1):
                stack.append(base + [alt])
    return runs, True


def subsets(xs, lo=0, hi=None):
    xs = list(xs)
    for k in range(lo, (len(xs) if hi is None else hi) + 1):
        for c in itertools.combinations(xs, k):
            yield c
