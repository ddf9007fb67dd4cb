#!/bin/bash
# Runs in /repo after the build. Exit 0: the property holds in this scenario.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$work" || exit 2
vc=$repo/_build/vc_mesh
data=$repo/tests/datasets
cp "$data/OneBox/OneBox.obj" .
printf 'INPUT_MESH_FILE = OneBox.obj\nR_MAX = 0.5\nLIP_CONST = 0.25\nVC_ANGLE = 60.0\nNUM_THREADS = 1\nIMPOSE_MONITORING_POINTS = true\n' > vc.in
python3 - > monitoring_points.csv <<'END'
lo, hi = [1e30] * 3, [-1e30] * 3
for l in open("OneBox.obj"):
    t = l.split()
    if t[:1] == ["v"]:
        x = [float(c) for c in t[1:4]]; lo = list(map(min, lo, x)); hi = list(map(max, hi, x))
print("x1coord, x2coord, x3coord, radius")
for i in range(5):
    for j in range(5):
        for k in range(5):
            print(", ".join(repr(a + (0.4 + 0.05 * t) * (b - a)) for a, b, t in zip(lo, hi, (i, j, k))) + ", 0.01")
END
timeout 120 "$vc" -vc vc.in > out 2>&1 || exit 1
python3 - <<'END' || exit 1
import sys
rows = lambda f: [[float(x) for x in l.split(",")] for l in open(f).read().split("\n")[1:] if l]
want, seeds = rows("monitoring_points.csv"), {tuple(round(x, 9) for x in r[:3]) for r in rows("seeds.csv")}
lost = [w for w in want if tuple(round(x, 9) for x in w[:3]) not in seeds]
print(len(want), "imposed,", len(lost), "lost")
sys.exit(1 if lost else 0)
END
exit 0
