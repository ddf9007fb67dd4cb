"""Input models the simulated runs mesh: small closed surfaces built by formula, with exact geometry
known to the harness (volume, area, enclosed regions), plus the control file that goes with them."""
import math, random

def _tri_quads(quads):
    f = []
    for q in quads:
        if len(q) == 3: f.append(q)
        else: f.append((q[0], q[1], q[2])); f.append((q[0], q[2], q[3]))
    return f

def box(a=1.0, b=1.0, c=1.0):
    p = [(x*a, y*b, z*c) for z in (0, 1) for y in (0, 1) for x in (0, 1)]
    q = [(0,2,3,1), (4,5,7,6), (0,1,5,4), (2,6,7,3), (0,4,6,2), (1,3,7,5)]
    return p, _tri_quads(q)

def tetra():
    p = [(0,0,0), (1,0,0), (0.3,1,0), (0.4,0.4,0.9)]
    return p, [(0,2,1), (0,1,3), (1,2,3), (2,0,3)]

def octa():
    p = [(1,0,0), (-1,0,0), (0,1,0), (0,-1,0), (0,0,1), (0,0,-1)]
    f = []
    for x in (0,1):
        for y in (2,3):
            for z in (4,5):
                s = (x + (y-2) + (z-4)) % 2
                f.append((x,y,z) if s == 0 else (x,z,y))
    return p, f

def prism(poly, h):
    """vertical prism over a polygon given with a fixed triangulation of its ring: (points, triangles)"""
    pts, tris = poly; n = len(pts)
    p = [(x,y,0.0) for x,y in pts] + [(x,y,h) for x,y in pts]
    f = [(a,c,b) for a,b,c in tris] + [(a+n,b+n,c+n) for a,b,c in tris]
    for i in range(n):
        j = (i+1) % n
        f += [(i,j,j+n), (i,j+n,i+n)]
    return p, f

def lshape():
    pts = [(0,0),(2,0),(2,1),(1,1),(1,2),(0,2)]
    tris = [(0,1,2),(0,2,3),(0,3,5),(3,4,5)]
    return prism((pts, tris), 1.0)

def wedge():
    return prism(([(0,0),(1.4,0),(0,1)], [(0,1,2)]), 1.0)

def twobox():
    """two stacked boxes sharing a face: non-manifold edges, two enclosed regions"""
    p, f = box()
    p = list(p); n = len(p)
    top = [4,5,7,6]
    for (x,y,z) in [(0,0,2),(1,0,2),(0,1,2),(1,1,2)]: p.append((x,y,z))
    q = [(8,9,11,10), (4,5,9,8), (6,10,11,7), (4,8,10,6), (5,7,11,9)]
    return p, f + _tri_quads(q)

def hollow():
    """box with a box-shaped cavity"""
    p, f = box(3,3,3)
    p2, f2 = box(1,1,1)
    n = len(p)
    return p + [(x+1,y+1,z+1) for x,y,z in p2], f + [(a+n,c+n,b+n) for a,b,c in f2]

def apart():
    """two boxes that do not touch"""
    p, f = box(); n = len(p)
    return p + [(x*0.8+2.2,y*0.8,z*0.8) for x,y,z in box()[0]], f + [(a+n,b+n,c+n) for a,b,c in box()[1]]

def torus(n=10, m=6, R=2.0, r=0.8):
    p = []; f = []
    for i in range(n):
        for j in range(m):
            u = 2*math.pi*i/n; v = 2*math.pi*j/m
            p.append(((R+r*math.cos(v))*math.cos(u), (R+r*math.cos(v))*math.sin(u), r*math.sin(v)))
    for i in range(n):
        for j in range(m):
            a=i*m+j; b=((i+1)%n)*m+j; c=((i+1)%n)*m+(j+1)%m; d=i*m+(j+1)%m
            f += [(a,b,c),(a,c,d)]
    return p, f

def ico(k=1):
    t = (1+5**0.5)/2
    p = [(-1,t,0),(1,t,0),(-1,-t,0),(1,-t,0),(0,-1,t),(0,1,t),(0,-1,-t),(0,1,-t),(t,0,-1),(t,0,1),(-t,0,-1),(-t,0,1)]
    f = [(0,11,5),(0,5,1),(0,1,7),(0,7,10),(0,10,11),(1,5,9),(5,11,4),(11,10,2),(10,7,6),(7,1,8),(3,9,4),(3,4,2),(3,2,6),(3,6,8),(3,8,9),(4,9,5),(2,4,11),(6,2,10),(8,6,7),(9,8,1)]
    nrm = lambda v: tuple(c/math.sqrt(sum(x*x for x in v)) for c in v)
    p = [nrm(v) for v in p]
    for _ in range(k):
        mid = {}; g = []
        def m(a,b):
            key=(min(a,b),max(a,b))
            if key not in mid: mid[key]=len(p); p.append(nrm(tuple((p[a][i]+p[b][i])/2 for i in range(3))))
            return mid[key]
        for a,b,c in f:
            x,y,z=m(a,b),m(b,c),m(c,a); g += [(a,x,z),(b,y,x),(c,z,y),(x,y,z)]
        f = g
    return p, f

def foam(n=9):
    """a ball with n round cavities: more regions than one digit can name"""
    p, f = ico(1); c = ico(0)[0]; q = [(4.6*x, 4.6*y, 4.6*z) for x, y, z in p]; g = list(f)
    for cx, cy, cz in c[:n]:
        m = len(q); q += [(2.6*cx+0.8*x, 2.6*cy+0.8*y, 2.6*cz+0.8*z) for x, y, z in p]; g += [(a+m, z+m, b+m) for a, b, z in f]
    return q, g

def frustum(n=4, k=0.5, h=0.9):
    """pyramid cut off below its tip (k = 0: full pyramid) over a regular n-gon"""
    bot = [(math.cos(2*math.pi*i/n), math.sin(2*math.pi*i/n), 0.0) for i in range(n)]
    f = [(0, i+1, i) for i in range(1, n-1)]
    if k == 0:
        return bot + [(0.0, 0.0, h)], f + [(i, (i+1)%n, n) for i in range(n)]
    p = bot + [(k*x, k*y, h) for x,y,_ in bot]
    f += [(n, n+i, n+i+1) for i in range(1, n-1)]
    for i in range(n):
        j = (i+1) % n; f += [(i, j, j+n), (i, j+n, i+n)]
    return p, f

def sidebox():
    """two boxes side by side sharing a wall of a different height than width"""
    p, f = box(0.8, 1.0, 1.0)
    p = list(p)
    for (x,y,z) in [(1.7,0,0),(1.7,1,0),(1.7,0,1),(1.7,1,1)]: p.append((x,y,z))
    q = [(1,3,9,8), (5,10,11,7), (1,8,10,5), (3,7,11,9), (8,9,11,10)]
    return p, f + _tri_quads(q)

def stack3():
    """three stacked boxes: two shared faces, three enclosed regions"""
    p, f = twobox(); p = list(p); n = len(p)
    for (x,y,z) in [(0,0,2.8),(1,0,2.8),(0,1,2.8),(1,1,2.8)]: p.append((x,y,z))
    q = [(12,13,15,14), (8,9,13,12), (10,14,15,11), (8,12,14,10), (9,11,15,13)]
    return p, f + _tri_quads(q)

def hollow2():
    """box with two box-shaped cavities"""
    p, f = box(4.4,2.4,2.4); n = len(p); c, cf = box(0.8,0.8,0.8)
    p = list(p) + [(x+0.8,y+0.8,z+0.8) for x,y,z in c] + [(x+2.8,y+0.8,z+0.8) for x,y,z in c]
    return p, f + [(a+n,d+n,b+n) for a,b,d in cf] + [(a+n+8,d+n+8,b+n+8) for a,b,d in cf]

def spike():
    """flat wedge with a dihedral angle of about 20 degrees"""
    return prism(([(0,0),(1.4,0),(1.3,0.5)], [(0,1,2)]), 0.6)

def notch():
    """box with a rectangular notch in one side"""
    pts = [(0,0),(2,0),(2,1),(1.25,1),(1.25,0.5),(0.75,0.5),(0.75,1),(0,1)]
    return prism((pts, [(0,1,4),(1,2,3),(1,3,4),(0,4,5),(0,5,6),(0,6,7)]), 0.8)

def cylinder(n=16, h=1.0):
    """smooth side, two closed sharp rims without corners"""
    p, f = frustum(n, 1.0, h); return p, f

def cone(n=16):
    """smooth side, one sharp rim, a tip"""
    return frustum(n, 0, 0.7)

def fin():
    """box with a wing attached along a slanted inner wall: two regions, acute where they meet"""
    p, f = box(); p = list(p)
    p += [(1.6,0,0.5),(1.6,1,0.5)]
    return p, f + [(1,8,5), (3,7,9), (1,3,9), (1,9,8), (5,8,9), (5,9,7)]

QUAD = [(0, 0), (1, 0), (0, 1), (1, 1)]
def quad():
    """four boxes around a common edge: four sheets of the surface meet there"""
    at = lambda x, y, z: 9*z + 3*y + x
    p = [(float(x), float(y), float(z)) for z in (0, 1) for y in (0, 1, 2) for x in (0, 1, 2)]
    q = []
    for x, y in QUAD: q += [(at(x,y,0), at(x,y+1,0), at(x+1,y+1,0), at(x+1,y,0)), (at(x,y,1), at(x+1,y,1), at(x+1,y+1,1), at(x,y+1,1))] # bottom, top
    for k in (0, 1): q += [(at(0,k,0), at(0,k,1), at(0,k+1,1), at(0,k+1,0)), (at(2,k,0), at(2,k+1,0), at(2,k+1,1), at(2,k,1)), (at(k,0,0), at(k+1,0,0), at(k+1,0,1), at(k,0,1)), (at(k,2,0), at(k,2,1), at(k+1,2,1), at(k+1,2,0))]
    for k in (0, 1): q += [(at(1,k,0), at(1,k+1,0), at(1,k+1,1), at(1,k,1)), (at(k,1,0), at(k,1,1), at(k+1,1,1), at(k+1,1,0))] # inner walls: +x, +y
    return p, _tri_quads(q)
def vol_quad(p, f):
    t = lambda k: f[2*k:2*k+2]; out = []
    for b, (x, y) in enumerate(QUAD):
        w = t(2*b) + t(2*b+1)
        w += t(8 + 4*y + (0 if x == 0 else 1)) + t(8 + 4*x + (2 if y == 0 else 3)) # outer sides
        xw, yw = t(16 + 2*y), t(17 + 2*x)
        w += (xw if x == 0 else flip(xw)) + (yw if y == 0 else flip(yw)); out.append(w)
    return out

def flip(f): return [(a,c,b) for a,b,c in f]

def vol_one(p, f): return [f]
def vol_twobox(p, f): return [f[:12], flip(f[2:4]) + f[12:]]
def vol_sidebox(p, f): return [f[:12], flip(f[10:12]) + f[12:]]
def vol_stack3(p, f): return [f[:12], flip(f[2:4]) + f[12:22], flip(f[12:14]) + f[22:]]
def vol_fin(p, f): return [f[:12], flip(f[10:12]) + f[12:]]
def vol_hollow(p, f): return [f] + [flip(f[12+12*k:24+12*k]) for k in range(len(f)//12-1)] # the cavities are enclosed volumes too
def vol_foam(p, f): return [f] + [flip(f[k:k+80]) for k in range(80, len(f), 80)]
def vol_apart(p, f): return [f[:12], f[12:]]

KINDS = {
    # name: (builder, enclosed volumes, sharp-edge angle, nominal R_MAX)
    "box":    (box, vol_one, 60.0, 0.6),
    "slab":   (lambda: box(2.0, 1.0, 0.5), vol_one, 60.0, 0.5),
    "tetra":  (tetra, vol_one, 60.0, 0.5),
    "octa":   (octa, vol_one, 40.0, 0.7),
    "wedge":  (wedge, vol_one, 60.0, 0.6),
    "pyramid": (lambda: frustum(4, 0), vol_one, 40.0, 0.6),
    "frustum": (lambda: frustum(4, 0.5), vol_one, 40.0, 0.6),
    "prism3": (lambda: frustum(3, 0.8, 1.0), vol_one, 60.0, 0.6),
    "lshape": (lshape, vol_one, 60.0, 0.6),
    "twobox": (twobox, vol_twobox, 60.0, 0.6),
    "sidebox": (sidebox, vol_sidebox, 60.0, 0.6),
    "stack3": (stack3, vol_stack3, 60.0, 0.6),
    "apart":  (apart, vol_apart, 60.0, 0.6),
    "hollow": (hollow, vol_hollow, 60.0, 1.0),
    "hollow2": (hollow2, vol_hollow, 60.0, 1.0),
    "quad":   (quad, vol_quad, 60.0, 0.6),
    "spike":  (spike, vol_one, 60.0, 0.5),
    "notch":  (notch, vol_one, 60.0, 0.5),
    "fin":    (fin, vol_fin, 60.0, 0.6),
    "cylinder": (cylinder, vol_one, 60.0, 0.8),
    "cone":   (cone, vol_one, 60.0, 0.7),
    "ico":    (lambda: ico(1), vol_one, 80.0, 0.6),
    "foam":   (foam, vol_foam, 80.0, 2.5),
    "torus":  (torus, vol_one, 80.0, 1.0),
}

def subdivide(p, f, k, rng):
    """every triangle cut into k*k smaller ones, at random places of its plane; corners keep their index"""
    p = list(p); g = []; onedge = {}
    def edge_point(a, b, i):
        """i-th of k-1 points from a to b"""
        if a > b: a, b, i = b, a, k-i
        if (a, b, i) not in onedge:
            t = (i+rng.uniform(-0.25, 0.25))/k
            onedge[a, b, i] = len(p); p.append(tuple(p[a][c]+t*(p[b][c]-p[a][c]) for c in range(3)))
        return onedge[a, b, i]
    for a, b, c in f:
        ix = {}
        for i in range(k+1):
            for j in range(k+1-i):
                l = k-i-j
                if i == k: q = b
                elif j == k: q = c
                elif l == k: q = a
                elif j == 0: q = edge_point(a, b, i)
                elif i == 0: q = edge_point(a, c, j)
                elif l == 0: q = edge_point(b, c, j)
                else:
                    u, v = (i+rng.uniform(-0.2, 0.2))/k, (j+rng.uniform(-0.2, 0.2))/k
                    q = len(p); p.append(tuple(p[a][x]+u*(p[b][x]-p[a][x])+v*(p[c][x]-p[a][x]) for x in range(3)))
                ix[i, j] = q
        for i in range(k):
            for j in range(k-i):
                g.append((ix[i, j], ix[i+1, j], ix[i, j+1]))
                if i+j < k-1: g.append((ix[i+1, j], ix[i+1, j+1], ix[i, j+1]))
    return p, g

import re as _re
def base_kind(kind): return _re.split(r"[*@~]", kind)[0]
def cuts(kind):
    m = _re.search(r"\*(\d+)", kind); return int(m.group(1)) if m else 1
def unit(kind):
    m = _re.search(r"@([0-9.e+-]+)", kind); return float(m.group(1)) if m else 1.0

def rotation(rng):
    while True:
        q = [rng.gauss(0,1) for _ in range(4)]
        n = math.sqrt(sum(x*x for x in q))
        if n > 1e-3: break
    w,x,y,z = [v/n for v in q]
    return [[1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w)],[2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w)],[2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)]]

class Model:
    def __init__(self, kind, seed=0, transform=True):
        self.kind = kind; self.seed = seed; b, vols, self.angle, self.rmax = KINDS[base_kind(kind)]
        self.p, self.f = b(); self.scale = 1.0
        rng = random.Random("model-%s-%s" % (kind, seed))
        if transform and seed:
            st = [rng.uniform(0.85, 1.2) for _ in range(3)] if rng.random() < 0.5 else [1, 1, 1]
            self.p = [tuple(c*k for c, k in zip(v, st)) for v in self.p]
            R = rotation(rng) if rng.random() < 0.7 else [[1,0,0],[0,1,0],[0,0,1]]
            self.scale = rng.choice([1.0, 1.0, 0.01, 100.0, 3.7]); t = [rng.uniform(-5,5)*self.scale for _ in range(3)]
            self.p = [tuple(float("%.9g" % (self.scale*sum(R[i][j]*v[j] for j in range(3))+t[i])) for i in range(3)) for v in self.p]
        self.p = [tuple(float(c)*unit(kind) for c in v) for v in self.p]; self.scale *= unit(kind)
        self.vols = vols(self.p, self.f); self.regions = len(self.vols)
        self.p0, self.f0 = self.p, self.f # the geometry; p and f are what the input file lists
        if cuts(kind) > 1: self.p, self.f = subdivide(self.p, self.f, cuts(kind), rng)
        if "~" in kind: # some triangles list their corners the other way round
            q = rng.choice([0.1, 0.3, 0.5, 1.0]); self.f = [(a,c,b) if rng.random() < q else (a,b,c) for a,b,c in self.f]
    def obj(self):
        return "".join("v %.17g %.17g %.17g\n" % v for v in self.p) + "".join("f %d %d %d\n" % (a+1,b+1,c+1) for a,b,c in self.f)

def control(m, threads=1, rmax=None, lip=0.25, extra=(), mesh="model.obj", vcg=True):
    r = (rmax if rmax is not None else m.rmax) * m.scale
    L = ["INPUT_MESH_FILE = %s" % mesh, "R_MAX = %.10g" % r, "LIP_CONST = %.10g" % lip, "VC_ANGLE = %.10g" % m.angle, "NUM_THREADS = %d" % threads]
    if vcg: L.append("GENERATE_VCG_FILE = true")
    return "\n".join(L + list(extra)) + "\n"

def _split(self, n):
    """the surface spread over n input files, each with its own copy of the vertices it uses"""
    rng = random.Random("split-%d" % n); n = min(n, len(self.f)); cuts = sorted(rng.sample(range(1, len(self.f)), n-1))
    out = []
    for a, b in zip([0]+cuts, cuts+[len(self.f)]):
        idx = {}; fl = []
        for t in self.f[a:b]: fl.append([idx.setdefault(v, len(idx)) for v in t])
        vs = sorted(idx, key=idx.get)
        out.append("".join("v %.17g %.17g %.17g\n" % self.p[v] for v in vs) + "".join("f %d %d %d\n" % tuple(x+1 for x in t) for t in fl))
    return out
Model.split = _split
