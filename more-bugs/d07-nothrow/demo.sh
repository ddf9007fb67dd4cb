#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
g++ -O1 -shared -fPIC -o fail.so "$here/fail.cpp" -ldl || exit 2
cp "$data/OneBox/OneBox.obj" .
printf 'INPUT_MESH_FILE = OneBox.obj\nR_MAX = 0.45\nLIP_CONST = 0.5\nVC_ANGLE = 60.0\nNUM_THREADS = 1\n' > vc.in
# allocations of 160 bytes: mostly lists of ten entries that grow to twenty
SIZE=160 SITES=$work/sites LD_PRELOAD=$work/fail.so timeout 60 "$vc" -vc vc.in > out 2>&1 || exit 2
[ -s sites ] || exit 2
cp seeds.csv good.csv
while read -r site n; do
  for k in $((n / 2)); do
    SIZE=160 FAIL_SITE=$site FAIL_K=$k LD_PRELOAD=$work/fail.so timeout 60 "$vc" -vc vc.in > out 2>&1
    s=$?
    if [ $s = 124 ]; then echo "hang"; exit 1; fi
    if [ $s = 0 ] && ! cmp -s good.csv seeds.csv; then echo "allocation $k of $n at $site fails: status zero and another result"; exit 1; fi
  done
done < sites
exit 0
