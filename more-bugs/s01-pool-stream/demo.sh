#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
gcc -O1 -shared -fPIC -o serial.so "$here/serial.c" -ldl || exit 2
export OMP_NUM_THREADS=16
for d in forward backward; do
  mkdir $d; cp "$data/OneBox/OneBox.obj" $d
  printf 'INPUT_MESH_FILE = OneBox.obj\nR_MAX = 0.3\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 16\nGENERATE_VCG_FILE = true\n' > $d/vc.in
done
(cd forward && LD_PRELOAD=$work/serial.so timeout 120 "$vc" -vc vc.in > out) || exit 2
(cd backward && REVERSE=1 LD_PRELOAD=$work/serial.so timeout 120 "$vc" -vc vc.in > out) || exit 2
for f in surface_spheres.csv seeds.csv mesh.vcg; do
  cmp forward/$f backward/$f || { echo "$f depends on the order of the threads"; exit 1; }
done
exit 0
