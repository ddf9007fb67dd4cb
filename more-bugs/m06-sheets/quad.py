#!/usr/bin/env python3
# four unit boxes around the z axis, sharing the walls between them; faces in random order
import random, sys
rng = random.Random(int(sys.argv[1]))
p = {(x, y, z): None for x in (-1, 0, 1) for y in (-1, 0, 1) for z in (0, 1)}
pts = sorted(p); rng.shuffle(pts); ix = {q: i + 1 for i, q in enumerate(pts)}
for q in pts: print("v %g %g %g" % q)
quads = []
for x in (-1, 0): # outer faces point outwards
    for y in (-1, 0):
        quads.append([(x, y, 0), (x, y + 1, 0), (x + 1, y + 1, 0), (x + 1, y, 0)])
        quads.append([(x, y, 1), (x + 1, y, 1), (x + 1, y + 1, 1), (x, y + 1, 1)])
for k in (-1, 0):
    quads.append([(-1, k, 0), (-1, k, 1), (-1, k + 1, 1), (-1, k + 1, 0)])
    quads.append([(1, k, 0), (1, k + 1, 0), (1, k + 1, 1), (1, k, 1)])
    quads.append([(k, -1, 0), (k + 1, -1, 0), (k + 1, -1, 1), (k, -1, 1)])
    quads.append([(k, 1, 0), (k, 1, 1), (k + 1, 1, 1), (k + 1, 1, 0)])
    quads.append([(0, k, 0), (0, k + 1, 0), (0, k + 1, 1), (0, k, 1)]) # the walls between the boxes
    quads.append([(k, 0, 0), (k, 0, 1), (k + 1, 0, 1), (k + 1, 0, 0)])
rng.shuffle(quads)
for a, b, c, d in quads:
    print("f %d %d %d" % (ix[a], ix[b], ix[c])); print("f %d %d %d" % (ix[a], ix[c], ix[d]))
