#!/usr/bin/env python3
# cell volumes of mesh.vcg against exact half-space clipping of every cell
import sys
def clip_cell(faces, n, d):
    out, cut = [], []
    for f in faces:
        g = []
        for i, p in enumerate(f):
            q = f[(i + 1) % len(f)]
            a = p[0] * n[0] + p[1] * n[1] + p[2] * n[2] - d; b = q[0] * n[0] + q[1] * n[1] + q[2] * n[2] - d
            if a <= 0: g.append(p)
            if (a < 0 < b) or (b < 0 < a):
                t = a / (a - b); x = tuple(u + (v - u) * t for u, v in zip(p, q)); g.append(x); cut.append(x)
        if len(g) > 2: out.append(g)
    if len(cut) > 2:
        c = [sum(p[k] for p in cut) / len(cut) for k in range(3)]
        ax = max(range(3), key=lambda k: abs(n[k])); i, j = [k for k in range(3) if k != ax]
        from math import atan2
        cut.sort(key=lambda p: atan2(p[i] - c[i], p[j] - c[j]))
        out.append(cut)
    return out
def volume(faces, o):
    v = 0.0
    for f in faces:
        for i in range(1, len(f) - 1):
            a, b, c = [[x - y for x, y in zip(f[k], o)] for k in (0, i, i + 1)]
            v += abs(a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])) / 6
    return v
rows = [[float(x) for x in l.split(",")] for l in open("seeds.csv").read().split("\n")[1:] if l]
seeds = [tuple(r[:3]) for r in rows]
B = 20.0
cube = [[(s * B, -B, -B), (s * B, B, -B), (s * B, B, B), (s * B, -B, B)] for s in (-1, 1)]
cube += [[(-B, s * B, -B), (B, s * B, -B), (B, s * B, B), (-B, s * B, B)] for s in (-1, 1)]
cube += [[(-B, -B, s * B), (B, -B, s * B), (B, B, s * B), (-B, B, s * B)] for s in (-1, 1)]
want = []
for p, r in zip(seeds, rows):
    if r[4] == 0: continue
    faces = cube
    for q in sorted(seeds, key=lambda q: sum((a - b) ** 2 for a, b in zip(p, q)))[1:]:
        reach = max(sum((a - b) ** 2 for a, b in zip(v, p)) for f in faces for v in f)
        if sum((a - b) ** 2 for a, b in zip(p, q)) > 4 * reach: break
        n = [b - a for a, b in zip(p, q)]
        faces = clip_cell(faces, n, sum(c * 0.5 * (a + b) for c, a, b in zip(n, p, q)))
    want.append(volume(faces, p))
have = []
for l in open("mesh.vcg"):
    t = l.replace(",", " ").split()
    try: v = [float(x) for x in t]
    except ValueError: continue
    have += v
have.sort()
from bisect import bisect
bad = 0
for v in want:
    k = bisect(have, v); near = min((abs(have[i] - v) for i in (k - 1, k) if 0 <= i < len(have)), default=1)
    if near > 1e-6 * v + 1e-12: bad += 1
if bad: print(bad, "of", len(want), "cell volumes are not in mesh.vcg"); sys.exit(1)
