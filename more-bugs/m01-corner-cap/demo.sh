#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
python3 "$here/wheel.py" > seeds.csv
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 1 > vc.in
timeout 60 "$vc" -vc vc.in > out || exit 2
python3 "$here/closed.py" || exit 1
exit 0
