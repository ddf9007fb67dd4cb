#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data/OneBox/OneBox.obj" .
python3 - > sizing.csv <<'END'
lo, hi = [1e30] * 3, [-1e30] * 3
for l in open("OneBox.obj"):
    t = l.split()
    if t[:1] == ["v"]:
        x = [float(c) for c in t[1:4]]; lo = list(map(min, lo, x)); hi = list(map(max, hi, x))
print("x, y, z, r")
d = max(b - a for a, b in zip(lo, hi))
print(", ".join(repr(0.5 * (a + b)) for a, b in zip(lo, hi)) + ", %r" % (0.12 * d))
END
printf 'INPUT_MESH_FILE = OneBox.obj\nSIZING_FILE = sizing.csv\nR_MAX = 10000.0\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 1\n' > vc.in
timeout 200 "$vc" -vc vc.in > out 2>&1 &
pid=$!
while kill -0 $pid 2> /dev/null && [ ! -f edges_spheres.csv ]; do sleep 0.3; done
sleep 0.5; kill -9 $pid 2> /dev/null; wait $pid 2> /dev/null
[ -f edges_spheres.csv ] || exit 2
python3 - <<'END' || exit 1
import sys
r = float(open("sizing.csv").read().split(",")[-1])
big = [l for l in open("edges_spheres.csv").read().split("\n")[1:] if l and float(l.split(",")[3]) > r * (1 + 1e-9)]
if big: print(len(big), "edge spheres exceed the sizing file"); sys.exit(1)
END
exit 0
