#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
python3 "$here/seeds.py" 400 7 > seeds.csv
awk -F, 'NR>1{OFS=","; $4=0.02+0.01*(NR%7)}1' seeds.csv > s && mv s seeds.csv
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 1 > vc.in
timeout 60 "$vc" -vc vc.in > out || exit 2
mv mesh.vcg one.vcg
for n in 2 3 4 5; do
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' $n > vc.in
timeout 60 "$vc" -vc vc.in > out || exit 2
cmp one.vcg mesh.vcg || { echo "the mesh depends on the number of threads"; exit 1; }
done
exit 0
