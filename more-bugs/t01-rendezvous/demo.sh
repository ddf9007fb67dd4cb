#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data/OneBox/OneBox.obj" .
printf 'INPUT_MESH_FILE = OneBox.obj\nR_MAX = 0.5\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 4\n' > vc.in
OMP_THREAD_LIMIT=2 timeout 120 "$vc" -vc vc.in > out 2>&1
s=$?
[ $s = 124 ] && { echo "the run does not end with two threads"; exit 1; }
[ $s = 0 ] || exit 1
exit 0
