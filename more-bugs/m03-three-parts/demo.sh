#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
python3 "$here/split.py" "$data/OneBox/OneBox.obj" || exit 2
printf 'INPUT_MESH_FILE = part0.obj\nINPUT_MESH_FILE = part1.obj\nINPUT_MESH_FILE = part2.obj\nR_MAX = 0.5\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 1\n' > vc.in
timeout 60 "$vc" -vc vc.in > out 2>&1
[ -f model_combined.obj ] || exit 1
python3 "$here/same.py" "$data/OneBox/OneBox.obj" model_combined.obj || exit 1
exit 0
