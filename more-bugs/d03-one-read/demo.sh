#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
gcc -O1 -shared -fPIC -o read.so "$here/read.c" || exit 2
cp "$data/OneBox/OneBox.obj" .
python3 - > sizing.csv <<'END'
lo, hi = [1e30] * 3, [-1e30] * 3
for l in open("OneBox.obj"):
    t = l.split()
    if t[:1] == ["v"]:
        x = [float(c) for c in t[1:4]]; lo = list(map(min, lo, x)); hi = list(map(max, hi, x))
d = max(b - a for a, b in zip(lo, hi))
print("x, y, z, r")
for i in range(3):
    for j in range(3):
        for k in range(3): print(", ".join(repr(a + 0.5 * t * (b - a)) for a, b, t in zip(lo, hi, (i, j, k))) + ", %r" % (d * (0.3 + 0.15 * i)))
END
printf 'INPUT_MESH_FILE = OneBox.obj\nSIZING_FILE = sizing.csv\nR_MAX = 10000.0\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 1\n' > vc.in
timeout 120 "$vc" -vc vc.in > out 2>&1 || exit 2
mkdir undisturbed; mv *_spheres.csv seeds.csv undisturbed
TARGET=sizing.csv SHORT=300 LD_PRELOAD=$work/read.so timeout 120 "$vc" -vc vc.in > out 2>&1 || { echo "a short read makes the run fail"; exit 1; }
for f in undisturbed/*; do cmp $f $(basename $f) || { echo "a short read changes the result"; exit 1; }; done
exit 0
