#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
build() { # build FLAGS...: vc_mesh from the sources with those flags
  local s o=0
  mkdir obj
  for s in "$repo"/src/Meshing/*.cpp "$repo"/src/Meshing/*.cxx; do
    [ "$(basename "$s")" = MeshingExodusIO.cpp ] && [ ! -s "$s" ] && continue
    g++ -std=c++14 -O1 -g -w -fopenmp -DUSE_OPEN_MP -DFIXED_RNG_SEED -DNO_EXODUS "$@" -I"$repo/_build/src/Meshing" -I"$repo/src/Meshing" -c "$s" -o obj/$(basename "$s").o &
  done
  wait
}
build -fsanitize=address || exit 2
g++ -fsanitize=address -fopenmp obj/*.o -o vc -llapack -lblas || exit 2
cp "$data"/OneBox/* .
printf 'INPUT_MESH_FILE = OneBox.obj\nR_MAX = 0.15\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 2\n' > vc.in
ASAN_OPTIONS=detect_leaks=0 timeout 250 ./vc -vc vc.in > out 2> err
status=$?
if grep -q AddressSanitizer err; then head -12 err; exit 1; fi
[ $status = 0 ] || exit 2
exit 0
