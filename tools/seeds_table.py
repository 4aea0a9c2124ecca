"""Rewrites the section on planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["## Planted bugs", "", "Every one is caught by the quick tier of its property's check (`tools/mkseed.py` builds, validates and runs them).",
        "Missed at first, then caught after strengthening the check: C02-flatten-lower-bound, C08-collections-not-copied, C11-missing-cost-default, C13-close-examples-conflated@@MORE@@.", "",
        "| id | breaks | needs |", "|---|---|---|"]
more = open(os.path.join(root, "tools", "missed_first.txt")).read().split() if os.path.exists(os.path.join(root, "tools", "missed_first.txt")) else []
rows[3] = rows[3].replace("@@MORE@@", "".join(", " + m for m in more))
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["what_it_breaks"], m["needs"]))
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
cut = t.index("@@SEEDS@@") if "@@SEEDS@@" in t else t.index("## Planted bugs")
open(p, "w").write(t[:cut] + "\n".join(rows) + "\n")
