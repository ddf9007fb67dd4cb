#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
fail=0
for s in 1 2 3 4 5 6; do
python3 "$here/spread.py" $s > seeds.csv
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 1 > vc.in
timeout 60 "$vc" -vc vc.in > out || exit 2
python3 "$here/volumes.py" || fail=1
done
exit $fail
