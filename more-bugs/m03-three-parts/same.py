#!/usr/bin/env python3
# the triangles of two OBJ files, as sets of coordinates
import sys
def tris(name):
    v, f = [], []
    for l in open(name):
        t = l.split()
        if t[:1] == ["v"]: v.append(tuple(round(float(x), 6) + 0.0 for x in t[1:4]))
        if t[:1] == ["f"]: f.append(frozenset(v[int(x.split("/")[0]) - 1] for x in t[1:4]))
    return sorted(map(sorted, f))
if tris(sys.argv[1]) != tris(sys.argv[2]): print("the combined surface is not the input surface"); sys.exit(1)
