#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
fail=0
for k in 0 1 2 3; do
python3 "$here/quad.py" $k > quad.obj
printf 'INPUT_MESH_FILE = quad.obj\nR_MAX = 0.6\nLIP_CONST = 0.5\nVC_ANGLE = 60.0\nNUM_THREADS = 2\nGENERATE_VCG_FILE = true\n' > vc.in
timeout 100 "$vc" -vc vc.in > out 2>&1 || { fail=1; break; }
n=$(tail -n +2 seeds.csv | awk -F, '$5>0{print $5+0}' | sort -u | wc -l)
[ "$n" = 4 ] || { echo "order $k: $n regions instead of 4"; fail=1; break; }
python3 "$here/where.py" || { fail=1; break; }
done
exit $fail
