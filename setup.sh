#!/bin/bash
# Nothing to compile: checks the interpreter and that the package and every check module import.
cd "$(dirname "$0")" || exit 1
HERE=$PWD
. /opt/vp/env.sh
export PYTHONPATH=/repo:$HERE PYTHONWARNINGS=ignore
mkdir -p evidence replays
"$PY" - <<'P'
import glob, os
for f in sorted(glob.glob("mc/*.py")):
    compile(open(f).read(), f, "exec")
import alipy
print("alipy from", os.path.dirname(alipy.__file__))
P
