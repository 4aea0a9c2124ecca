#!/bin/bash
# run.sh <ID> [quick|thorough]   or   run.sh <ID> replay <file>
# Runs one check on the current tree of /repo, in a private scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH=${ALIPY_REPO:-/repo}:$HERE
export PYTHONWARNINGS=ignore
export MPLCONFIGDIR=
W=$(mktemp -d "${TMPDIR:-/tmp}/alipy-mc.XXXXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
export MPLCONFIGDIR="$W/mpl" MC_SCRATCH="$W"
mkdir -p "$W/mpl" "$W/cwd"
cd "$W/cwd" || exit 2
"$PY" -m mc.main "$@"
rc=$?
cd /
exit $rc
