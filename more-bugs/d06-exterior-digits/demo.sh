#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data"/OneBox/* .
timeout 120 "$vc" -vc vc_vcg.in > out 2>&1 || exit 2
cp mesh.vcg first.vcg
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 1 > again.in
timeout 120 "$vc" -vc again.in > out 2>&1 || exit 1
python3 - <<'END' || exit 1
import sys
def numbers(f): return [[float(x) for x in l.split()] for l in open(f) if l.split() and all(c in "0123456789.+-eE \n\t" for c in l)]
a, b = numbers("first.vcg"), numbers("mesh.vcg")
if len(a) != len(b): print("another number of lines", len(a), len(b)); sys.exit(1)
scale = max(abs(x) for r in a for x in r if x != int(x)) if any(x != int(x) for r in a for x in r) else 1.0
worst = max((abs(x - y) / (1e-3 + abs(x)) for r, s in zip(a, b) for x, y in zip(r, s)), default=0)
print("largest difference", worst)
sys.exit(1 if worst > 1e-8 else 0)
END
exit 0
