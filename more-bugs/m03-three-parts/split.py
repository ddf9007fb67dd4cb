#!/usr/bin/env python3
# splits an OBJ surface in three parts, every one with the vertices it needs
import sys
v, f = [], []
for l in open(sys.argv[1]):
    t = l.split()
    if t[:1] == ["v"]: v.append(l)
    if t[:1] == ["f"]: f.append([int(x.split("/")[0]) - 1 for x in t[1:4]])
cuts = [0, len(f) // 4, len(f) // 2 + 1, len(f)]
for k in range(3):
    part = f[cuts[k]:cuts[k + 1]]
    used = sorted({i for t in part for i in t}); new = {i: n + 1 for n, i in enumerate(used)}
    with open("part%d.obj" % k, "w") as o:
        for i in used: o.write(v[i])
        for t in part: o.write("f %d %d %d\n" % tuple(new[i] for i in t))
