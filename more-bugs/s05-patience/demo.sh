#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
gcc -O1 -shared -fPIC -o clock.so "$here/clock.c" -ldl || exit 2
for d in steady jump; do mkdir $d; cp "$data"/OneBox/* $d; done
(cd steady && LD_PRELOAD=$work/clock.so timeout 120 "$vc" -vc vc.in > out) || exit 2
(cd jump && JUMP=1 LD_PRELOAD=$work/clock.so timeout 120 "$vc" -vc vc.in > out) || exit 1
for f in surface_spheres.csv seeds.csv; do
  cmp steady/$f jump/$f || { echo "$f depends on the clock"; exit 1; }
done
exit 0
