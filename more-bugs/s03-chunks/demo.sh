#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
python3 "$here/seeds.py" 300 5 > seeds.csv
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 4 > vc.in
OMP_DYNAMIC=false timeout 60 "$vc" -vc vc.in > out || exit 2
mv mesh.vcg full.vcg
OMP_THREAD_LIMIT=2 timeout 60 "$vc" -vc vc.in > out 2>&1 || { echo "fails with two threads"; exit 1; }
cmp full.vcg mesh.vcg || { echo "another mesh with two threads"; exit 1; }
exit 0
