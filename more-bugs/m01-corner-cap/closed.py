#!/usr/bin/env python3
# The faces of the two inner cells towards the ring and each other, from a half-space clip, against mesh.vcg
import sys
def clip(poly, n, d):
    out = []
    for i, p in enumerate(poly):
        q = poly[(i + 1) % len(poly)]
        a, b = sum(x * y for x, y in zip(p, n)) - d, sum(x * y for x, y in zip(q, n)) - d
        if a <= 0: out.append(p)
        if a * b < 0: out.append([x + (y - x) * a / (a - b) for x, y in zip(p, q)])
    return out
def area(poly):
    s = [0.0] * 3
    for i in range(1, len(poly) - 1):
        u = [b - a for a, b in zip(poly[0], poly[i])]; v = [b - a for a, b in zip(poly[0], poly[i + 1])]
        s = [s[0] + u[1] * v[2] - u[2] * v[1], s[1] + u[2] * v[0] - u[0] * v[2], s[2] + u[0] * v[1] - u[1] * v[0]]
    return 0.5 * sum(c * c for c in s) ** 0.5
seeds = [tuple(float(x) for x in l.split(",")[:3]) for l in open("seeds.csv").read().split("\n")[1:] if l]
p, q = seeds[0], seeds[1]
n = [b - a for a, b in zip(p, q)]; mid = [0.5 * (a + b) for a, b in zip(p, q)]
big = 50.0
e1 = [n[2], 0.0, -n[0]]; l = sum(c * c for c in e1) ** 0.5; e1 = [c / l for c in e1]
e2 = [n[1] * e1[2] - n[2] * e1[1], n[2] * e1[0] - n[0] * e1[2], n[0] * e1[1] - n[1] * e1[0]]; l = sum(c * c for c in e2) ** 0.5; e2 = [c / l for c in e2]
poly = [[mid[k] + big * (s * e1[k] + t * e2[k]) for k in range(3)] for s, t in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
for r in seeds[2:]:
    m = [b - a for a, b in zip(p, r)]
    poly = clip(poly, m, sum(c * 0.5 * (a + b) for c, a, b in zip(m, p, r)))
want = area(poly)
lines = open("mesh.vcg").read().split("\n")
got = []
for l in lines:
    t = l.replace(",", " ").split()
    try: v = [float(x) for x in t]
    except ValueError: continue
    got.append(v)
# the shared face is the record whose centre is the middle of the two seeds
best = None
for v in got:
    if any(abs(a - want) < 1e-6 * want for a in v): best = v
print("corners", len(poly), "area", want)
if best is None:
    print("no face of that area in mesh.vcg"); sys.exit(1)
