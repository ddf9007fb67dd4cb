#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
build() { # build FLAGS...: vc_mesh from the sources with those flags
  local s o=0
  mkdir obj
  for s in "$repo"/src/Meshing/*.cpp "$repo"/src/Meshing/*.cxx; do
    [ "$(basename "$s")" = MeshingExodusIO.cpp ] && [ ! -s "$s" ] && continue
    g++ -std=c++14 -O1 -g -w -fopenmp -DUSE_OPEN_MP -DFIXED_RNG_SEED -DNO_EXODUS "$@" -I"$repo/_build/src/Meshing" -I"$repo/src/Meshing" -c "$s" -o obj/$(basename "$s").o &
  done
  wait
}
build -fsanitize=thread || exit 2
gcc -O1 -fsanitize=thread -c "$here/gomp.c" -o obj/gomp.o || exit 2
g++ -fsanitize=thread obj/*.o -o vc -llapack -lblas -lpthread || exit 2
python3 "$here/seeds.py" 600 3 > seeds.csv
printf 'GENERATE_MESH_FROM_SEEDS = true\nSEEDS_FILE = seeds.csv\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n' 4 > vc.in
setarch -R true 2> /dev/null && fixed="setarch -R"
TSAN_OPTIONS=exitcode=0 timeout 250 ${fixed:-} ./vc -vc vc.in > out 2> err
grep -q "Mission Accomplished" out || { tail -5 err; exit 2; }
if grep -q "data race" err; then grep -A12 "data race" err | head -30; exit 1; fi
exit 0
