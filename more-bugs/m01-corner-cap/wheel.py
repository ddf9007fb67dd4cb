#!/usr/bin/env python3
# Two interior seeds, one above the other, ringed by sixteen others: they share a face with sixteen corners.
from math import cos, pi, sin
import random
rng = random.Random(2)
j = lambda: 1e-3 * rng.random()
print("x1coord, x2coord, x3coord, radius, region")
rows = []
for z in (-0.5, 0.5): rows.append((j(), j(), z + j(), 1))
for k in range(16):
    a = 2 * pi * k / 16
    rows.append((2 * cos(a) + j(), 2 * sin(a) + j(), j(), 1))
for k in range(40):
    a = 2 * pi * k / 40
    for z in (-2.0, -1.0, 0.0, 1.0, 2.0): rows.append((3.5 * cos(a) + j(), 3.5 * sin(a) + j(), z + j(), 0))
for x in range(-4, 5):
    for y in range(-4, 5):
        for z in (-2.0, 2.0):
            if (0.8 * x) ** 2 + (0.8 * y) ** 2 < 11: rows.append((0.8 * x + j(), 0.8 * y + j(), z + j(), 0))
for r in rows: print("%r, %r, %r, 0.5, %d" % r)
