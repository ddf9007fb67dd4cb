#!/usr/bin/env python3
# one region id per box, none outside
import sys
ids = {}
for l in open("seeds.csv").read().split("\n")[1:]:
    if not l: continue
    x, y, z, r, g = [float(c) for c in l.split(",")]
    box = (x > 0, y > 0) if abs(x) < 1 and abs(y) < 1 and 0 < z < 1 else None
    ids.setdefault(box, set()).add(int(g))
ok = ids.get(None, {0}) == {0} and all(len(v) == 1 for v in ids.values())
if not ok: print("regions", ids); sys.exit(1)
