#!/usr/bin/env python3
# seeds.py N SEED: N random interior seeds in the unit cube and a shell of exterior ones around it
import random, sys
n, seed = int(sys.argv[1]), int(sys.argv[2])
rng = random.Random(seed)
pts = [[rng.random() for _ in range(3)] for _ in range(n)]
out = []
m = 8
for i in range(m + 1):
    for j in range(m + 1):
        for lo in (-0.15, 1.15):
            a, b = -0.15 + 1.3 * i / m, -0.15 + 1.3 * j / m
            out += [[lo, a, b], [a, lo, b], [a, b, lo]]
seen = set()
print("x1coord, x2coord, x3coord, radius, region")
for p in pts: print(", ".join(repr(c + 0.0) for c in p) + ", 0.05, 1")
for p in out:
    if tuple(p) in seen: continue
    seen.add(tuple(p))
    print(", ".join(repr(c + 1e-3 * rng.random()) for c in p) + ", 0.1, 0")
