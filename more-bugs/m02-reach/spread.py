#!/usr/bin/env python3
# random interior seeds of very different density, exterior ones around them
import random, sys
rng = random.Random(int(sys.argv[1]))
print("x1coord, x2coord, x3coord, radius, region")
for i in range(150):
    s = rng.choice([1.0, 0.3, 0.1])
    print(", ".join(repr(s * (2 * rng.random() - 1)) for k in range(3)) + ", %r, 1" % (0.1 * s * rng.random() + 1e-4))
for x in range(-2, 3):
    for y in range(-2, 3):
        for z in (-1.6, 1.6):
            for p in ((0.8 * x, 0.8 * y, z), (0.8 * x, z, 0.8 * y), (z, 0.8 * x, 0.8 * y)):
                print(", ".join(repr(c + 0.05 * rng.random()) for c in p) + ", 0.3, 0")
