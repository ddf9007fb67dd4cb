"""Reference oracles: decide the mesh properties on the files a simulated run wrote, against geometry
computed independently of the code under test.  Every function returns a list of (class, message)."""
import re
from . import models
import numpy as np
from scipy.spatial import Voronoi, cKDTree

class Bad(Exception): pass

def _csv(b, name, cols=None):
    L = [l for l in b.decode("utf-8", "replace").splitlines()[1:] if l.strip()]
    try: a = np.array([l.split(",") for l in L], float)
    except ValueError: raise Bad("%s is not a table of numbers" % name)
    a = a.reshape(len(L), -1) if len(L) else np.zeros((0, cols or 9))
    if not np.isfinite(a).all(): raise Bad("%s contains values that are not finite" % name)
    if cols and a.shape[1] < cols: raise Bad("%s has %d columns, expected %d" % (name, a.shape[1], cols))
    return a

class Out:
    """the result files of one run, parsed; b is the Result"""
    def __init__(self, m, r, fs=None):
        self.m, self.r, self.s = m, r, m.scale; self.fs = r.fs if fs is None else fs; self._c = {}
        self.P = np.array(m.p0, float)
    def _get(self, k, f):
        if k not in self._c: self._c[k] = f()
        return self._c[k]
    def need(self, n):
        if n not in self.fs: raise Bad("result file %s is missing" % n)
        return self.fs[n]
    @property
    def vcg(self):
        def f():
            L = self.need("mesh.vcg").decode("utf-8", "replace").splitlines()
            try:
                w = L[0].split(); n = int(w[1]); assert w[0] == "CELLS"
                cells = np.array([l.split() for l in L[1:1+n]], float).reshape(n, 6)
                w = L[1+n].split(); k = int(w[1]); assert w[0] == "CONNECTIONS"
                con = np.array([l.split() for l in L[2+n:2+n+k]], float).reshape(k, 9)
                assert len(L) == 2+n+k
            except (ValueError, AssertionError, IndexError): raise Bad("mesh.vcg is malformed")
            if not (np.isfinite(cells).all() and np.isfinite(con).all()): raise Bad("mesh.vcg contains values that are not finite")
            return cells, con
        return self._get("vcg", f)
    @property
    def seeds(self): return self._get("seeds", lambda: _csv(self.need("seeds.csv"), "seeds.csv", 5))
    @property
    def nint(self):
        """rows of seeds.csv written last that are interior seeds"""
        a = re.findall(r"Number of added seeds (\d+)", self.r.console)
        return int(a[-1]) if a else None
    def sph(self, kind):
        n = {"corner": "corner_spheres.csv", "edge": "edges_spheres.csv", "surface": "surface_spheres.csv"}[kind]
        return self._get(n, lambda: _csv(self.fs[n], n, 4) if n in self.fs else np.zeros((0, 9)))
    @property
    def spheres(self): return np.vstack([self.sph(k)[:, :4] for k in ("corner", "edge", "surface")])
    @property
    def surf(self):
        def f():
            v = []; t = []
            try:
                for l in self.need("surface_mesh.obj").decode("utf-8", "replace").splitlines():
                    w = l.split()
                    if w and w[0] == "v": v.append([float(x) for x in w[1:4]])
                    elif w and w[0] == "f": t.append([int(x.split("/")[0]) - 1 for x in w[1:]])
                v = np.array(v).reshape(len(v), 3); t = np.array(t).reshape(len(t), 3)
            except ValueError: raise Bad("surface_mesh.obj is malformed")
            if len(t) and (t.min() < 0 or t.max() >= len(v)): raise Bad("surface_mesh.obj names a vertex that does not exist")
            return v, t
        return self._get("surf", f)
    @property
    def where(self):
        """index of the enclosed volume each seed lies in, -1 outside"""
        return self._get("where", lambda: volume_of(self.m, self.seeds[:, :3]))

# ---------------------------------------------------------------- geometry
def dist_tri(X, a, b, c):
    n = np.cross(b-a, c-a); A = np.linalg.norm(n)
    n = n/A; h = (X-a)@n; Q = X - h[:, None]*n
    def edge(p, q):
        e = q-p; t = np.clip(((X-p)@e)/(e@e), 0, 1); return np.linalg.norm(X-p-t[:, None]*e, axis=1)
    d = np.minimum(np.minimum(edge(a, b), edge(b, c)), edge(c, a))
    ins = (np.cross(b-a, Q-a)@n >= 0) & (np.cross(c-b, Q-b)@n >= 0) & (np.cross(a-c, Q-c)@n >= 0)
    return np.where(ins, np.abs(h), d)
def dist_surf(X, p, f): return np.min([dist_tri(X, p[a], p[b], p[c]) for a, b, c in f], axis=0) if len(X) else np.zeros(0)
def dist_seg(X, p, q):
    e = q-p; t = np.clip(((X-p)@e)/(e@e), 0, 1); return np.linalg.norm(X-p-t[:, None]*e, axis=1)
def winding(X, p, f):
    w = np.zeros(len(X))
    for a, b, c in f:
        A = p[a]-X; B = p[b]-X; C = p[c]-X
        la, lb, lc = [np.linalg.norm(x, axis=1) for x in (A, B, C)]
        num = np.einsum("ij,ij->i", A, np.cross(B, C))
        den = la*lb*lc + np.einsum("ij,ij->i", A, B)*lc + np.einsum("ij,ij->i", B, C)*la + np.einsum("ij,ij->i", C, A)*lb
        w += 2*np.arctan2(num, den)
    return w/(4*np.pi)
def volume_of(m, X):
    P = np.array(m.p0)
    W = np.array([winding(X, P, v) for v in m.vols])
    return np.where((W > 0.5).any(0), W.argmax(0), -1)
def vol_enclosed(m):
    P = np.array(m.p0)
    return np.array([sum(np.dot(P[a]-P[v[0][0]], np.cross(P[b]-P[v[0][0]], P[c]-P[v[0][0]])) for a, b, c in v)/6 for v in m.vols])
def area_of(v, t): return sum(np.linalg.norm(np.cross(v[b]-v[a], v[c]-v[a]))/2 for a, b, c in t)
def edges_of(m):
    """input edges -> faces; sharp or non-manifold edges"""
    E = {}
    for k, x in enumerate(m.f0):
        for i in range(3):
            e = (min(x[i], x[(i+1) % 3]), max(x[i], x[(i+1) % 3])); E.setdefault(e, []).append(k)
    return E
def sharp_edges(m):
    P = np.array(m.p0); N = []
    for a, b, c in m.f0:
        n = np.cross(P[b]-P[a], P[c]-P[a]); N.append(n/np.linalg.norm(n))
    out = []
    for e, fs in edges_of(m).items():
        if len(fs) != 2: out.append(e)
        else:
            # dihedral deviation from flat against the control file's angle
            d = np.degrees(np.arccos(np.clip(N[fs[0]]@N[fs[1]], -1, 1)))
            if 180 - d < 180 - m.angle - 1e-6 and d > 1: out.append(e)
    return out
def flat(m): return models.base_kind(m.kind) not in ("ico", "torus", "cylinder", "cone", "foam")
def samples(m, n, seed=0):
    P = np.array(m.p0); rng = np.random.default_rng(seed); out = []
    for x in m.f0:
        u = rng.random((n, 2)); fl = u.sum(1) > 1; u[fl] = 1-u[fl]
        out.append(P[x[0]] + u[:, :1]*(P[x[1]]-P[x[0]]) + u[:, 1:]*(P[x[2]]-P[x[0]]))
    return np.vstack(out)

# ---------------------------------------------------------------- M01
def partition(o, volume=True):
    v = []; cells, con = o.vcg; s = o.s; n = len(cells)
    if n == 0: return [("no-cells", "the mesh has no cells")]
    if (cells[:, 0] != np.arange(1, n+1)).any(): v.append(("cell-ids", "cell ids are not 1..%d in order" % n))
    vol = cells[:, 4]/s**3
    if not (vol > 0).all(): v.append(("volume-sign", "cell %d has volume %g" % (int(cells[vol.argmin(), 0]), vol.min())))
    i = con[:, 0].astype(int)-1; j = con[:, 1].astype(int)-1
    if len(con) == 0 or min(i.min(), j.min()) < 0 or max(i.max(), j.max()) >= n: return v + [("connection-index", "a connection names a cell that does not exist")]
    A = con[:, 5]/s**2; N = con[:, 6:9]; M = con[:, 2:5]; C = cells[:, 1:4]
    if not (A > 0).all(): v.append(("face-area", "a face has area %g" % A.min()))
    e = np.abs(np.linalg.norm(N, axis=1)-1).max()
    if e > 1e-9: v.append(("normal-unit", "a face normal has length off by %g" % e))
    inn = i != j
    keys = list(zip(np.minimum(i, j)[inn].tolist(), np.maximum(i, j)[inn].tolist()))
    if len(set(keys)) != len(keys): v.append(("face-twice", "an interior face is listed more than once"))
    # a face belongs to the pair of centres it names
    d = C[j]-C[i]; L = np.linalg.norm(d, axis=1); L[~inn] = 1
    if inn.any():
        em = (np.linalg.norm(M - (C[i]+C[j])/2, axis=1)[inn]/s).max(); en = np.linalg.norm(N[inn]-(d[inn]/L[inn, None]), axis=1).max()
        if em > 1e-9: v.append(("midpoint", "an interior face's midpoint is off by %g" % em))
        if en > 1e-7: v.append(("normal", "an interior face's normal is off by %g" % en))
    # closure
    S = np.zeros((n, 3)); T = np.zeros(n); V = np.zeros(n)
    AN = A[:, None]*N; np.add.at(S, i, AN); np.add.at(S, j[inn], -AN[inn]); np.add.at(T, i, A); np.add.at(T, j[inn], A[inn])
    h = np.einsum("ij,ij->i", M-C[i], N)/s
    if (h <= 0).any(): v.append(("normal-outward", "a face normal points into its own cell"))
    np.add.at(V, i, A*h/3); np.add.at(V, j[inn], (A*h/3)[inn])
    slack = 3e-9/s # the code cuts cells to within 1e-10 units, whatever the size of the model
    r = np.linalg.norm(S, axis=1); c = r/np.maximum(T, 1e-300); k = (r - 1e-8*T - slack*np.sqrt(T)).argmax()
    if r[k] > 1e-8*T[k] + slack*np.sqrt(T[k]): v.append(("closure", "cell %d is not closed: its area-weighted normals sum to %g of its area" % (k+1, c[k])))
    c2 = np.abs(V-vol) - 1e-8*T**1.5 - slack*T; k = c2.argmax()
    if c2[k] > 0: v.append(("cell-volume", "cell %d has volume %g but its faces bound %g" % (k+1, vol[k], V[k])))
    if volume:
        tot, want = vol.sum(), vol_enclosed(o.m).sum()/s**3
        tol = 1e-8 if flat(o.m) else 0.45 # a coarse smooth model is only approximated
        if abs(tot-want) > tol*want: v.append(("total-volume", "the cells fill %.12g of the enclosed volume %.12g" % (tot, want)))
    return v

# ---------------------------------------------------------------- M02
def _clip(poly, n, c):
    """keep x.n <= c"""
    out = []; d = [float(np.dot(p, n)-c) for p in poly]
    for a in range(len(poly)):
        b = (a+1) % len(poly)
        if d[a] <= 0: out.append(poly[a])
        if (d[a] < 0 < d[b]) or (d[b] < 0 < d[a]): out.append(poly[a] + (poly[b]-poly[a])*(d[a]/(d[a]-d[b])))
    return out
def face_area(P, tree, i, j):
    """area of the Voronoi face between seeds i and j, by clipping the bisector with every other bisector near it"""
    n = P[j]-P[i]; L = np.linalg.norm(n); n = n/L; mid = (P[i]+P[j])/2
    u = np.cross(n, [1, 0, 0] if abs(n[0]) < 0.7 else [0, 1, 0]); u /= np.linalg.norm(u); w = np.cross(n, u)
    B = 1e4*max(L, 1e-9); poly = [mid+B*(x*u+y*w) for x, y in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    k = 64
    while True:
        D, I = tree.query(P[i], k=min(k, len(P))); done = False
        for d, q in zip(D, I):
            if q == i or q == j: continue
            R = max(np.linalg.norm(p-P[i]) for p in poly)
            if d > 2*R: done = True; break
            m = P[q]-P[i]; poly = _clip(poly, m, np.dot(m, (P[q]+P[i])/2))
            if len(poly) < 3: return 0.0, L
        if done or k >= len(P): break
        k *= 4
    X = np.array(poly); d = X-X.mean(0)
    return 0.5*np.linalg.norm(np.cross(d, np.roll(d, -1, 0)).sum(0)), np.linalg.norm(d-np.roll(d, -1, 0), axis=1).sum()
def voronoi(o, arbit=400, labelled=False):
    v = []; cells, con = o.vcg; S = o.seeds; s = o.s; reg = S[:, 4]; idx = np.where(reg != 0)[0]
    if len(idx) != len(cells): return [("cell-count", "%d cells for %d seeds that are not exterior" % (len(cells), len(idx)))]
    e = np.abs(cells[:, 1:4]-S[idx, :3]).max()/s
    if e > 1e-12: v.append(("cell-order", "cells are not the non-exterior seeds in order (off by %g)" % e)); return v
    if labelled:
        g, h = {}, {}
        for p, q in zip(cells[:, 5].tolist(), reg[idx].tolist()): g.setdefault(p, set()).add(q); h.setdefault(q, set()).add(p)
        k = [x for x in list(g.values())+list(h.values()) if len(x) > 1]
        if k: v.append(("cell-region", "cells of one region are in several among the seeds, or the other way round (%s)" % sorted(k[0])))
    P = S[:, :3]/s; P = P-P.mean(0)
    D0, _ = cKDTree(P).query(P, k=2)
    if D0[:, 1].min() < 1e-12: return v + [("seed-twice", "two seeds coincide")]
    slack = 3e-9/s # the code cuts cells to within 1e-10 units, whatever the size of the model
    V = Voronoi(P); area = {}
    for (i, j), vs in zip(V.ridge_points, V.ridge_vertices):
        if -1 in vs or (reg[i] == 0 and reg[j] == 0): continue
        X = V.vertices[vs]; d = X-X.mean(0)
        area[(int(min(i, j)), int(max(i, j)))] = 0.5*np.linalg.norm(np.cross(d, np.roll(d, -1, 0)).sum(0))
    rank = -np.ones(len(S), int); rank[idx] = np.arange(len(idx))
    A = con[:, 5]/s**2; got = {}; bnd = {}
    for k in range(len(con)):
        i, j = int(con[k, 0])-1, int(con[k, 1])-1
        if not (0 <= i < len(cells) and 0 <= j < len(cells)): return v + [("connection-index", "a connection names a cell that does not exist")]
        if i == j: bnd.setdefault(i, []).append((A[k], con[k, 2:5], con[k, 6:9]))
        else: got[(int(min(idx[i], idx[j])), int(max(idx[i], idx[j])))] = A[k]
    tree = cKDTree(P); used = 0
    def true(i, j):
        nonlocal used; used += 1
        a, rim = face_area(P, tree, i, j); area[(min(i, j), max(i, j))] = a; return a, slack*(rim+slack)
    # interior faces, both ways
    dis = [k for k in set(got) | {k for k in area if reg[k[0]] != 0 and reg[k[1]] != 0}
           if abs(area.get(k, 0)-got.get(k, 0)) > 1e-8*np.dot(P[k[0]]-P[k[1]], P[k[0]]-P[k[1]])]
    dis.sort(key=lambda k: -abs(area.get(k, 0)-got.get(k, 0)))
    for k in dis[:arbit]:
        a, tol = true(*k)
        if abs(a-got.get(k, 0)) > 1e-6*np.dot(P[k[0]]-P[k[1]], P[k[0]]-P[k[1]]) + tol:
            v.append(("face", "the face between seeds %d and %d has area %g, the Voronoi diagram has %g" % (k[0], k[1], got.get(k, 0), a))); break
    # boundary faces: towards exterior seeds, matched through their midpoint
    if v: return v
    ext = {}
    for (i, j) in area:
        if (reg[i] == 0) != (reg[j] == 0):
            c, x = (rank[i], j) if reg[i] != 0 else (rank[j], i); ext.setdefault(c, {})[x] = area[(i, j)]
    mean = S[:, :3].mean(0)/s
    for c in sorted(set(bnd) | set(ext)):
        q = int(idx[c]); E = dict(ext.get(c, {})); L = float(D0[q, 1])
        for a, mid, nrm in bnd.get(c, []):
            x = 2*(np.array(mid)/s-mean)-P[q]; d, k = tree.query(x); k = int(k)
            if d > 1e-8 or reg[k] != 0: v.append(("boundary-pair", "a boundary face of cell %d does not lie half way to an exterior seed" % (c+1))); return v
            n = P[k]-P[q]; L = np.linalg.norm(n)
            if np.linalg.norm(n/L-nrm) > 1e-7: v.append(("boundary-normal", "a boundary face's normal is not that of its pair of seeds")); return v
            if abs(E.get(k, 0)-a) > 1e-8*L*L:
                t, tol = true(q, k)
                if abs(t-a) > 1e-6*L*L + tol: v.append(("boundary-face", "the boundary face of cell %d towards seed %d has area %g, the Voronoi diagram has %g" % (c+1, k, a, t))); return v
            E.pop(k, None)
        for k, a in E.items():
            L2 = np.dot(P[k]-P[q], P[k]-P[q])
            if a <= 1e-8*L2: continue
            a, tol = true(q, k)
            if a > 1e-6*L2 + tol: v.append(("boundary-missing", "cell %d has no boundary face towards exterior seed %d" % (c+1, k))); return v
    vol = np.zeros(len(cells)); T = np.zeros(len(cells))
    for (i, j), a in area.items():
        h = np.linalg.norm(P[i]-P[j])/6*a
        for q in (i, j):
            if reg[q] != 0: vol[rank[q]] += h; T[rank[q]] += a
    d = np.abs(vol-cells[:, 4]/s**3) - 1e-6*T**1.5 - slack*T; k = d.argmax()
    if d[k] > 0: v.append(("cell-volume", "cell %d has volume %g, the Voronoi cell has %g" % (k+1, cells[k, 4]/s**3, vol[k])))
    return v

# ---------------------------------------------------------------- M03
def surface(o):
    v = []; m, s, P = o.m, o.s, o.P; X, T = o.surf
    if len(T) == 0: return [("no-surface", "the surface mesh has no triangles")]
    d = dist_surf(X, P, m.f0)/s
    if d.max() > 1e-9: v.append(("off-surface", "a vertex of the surface mesh lies %g off the input surface" % d.max()))
    nm = [e for e, fs in edges_of(m).items() if len(fs) != 2]; oriented = "~" not in m.kind
    E = {}
    for t in T:
        if len(set(t.tolist())) < 3: v.append(("degenerate", "a triangle of the surface mesh repeats a vertex")); return v
        for i in range(3):
            a, b = int(t[i]), int(t[(i+1) % 3]); E.setdefault((min(a, b), max(a, b)), []).append(1 if a < b else -1)
    if len({tuple(sorted(t.tolist())) for t in T}) != len(T): v.append(("triangle-twice", "a triangle of the surface mesh is listed twice"))
    onnm = np.zeros(len(X), bool)
    if nm: onnm = np.min([dist_seg(X, P[a], P[b]) for a, b in nm], axis=0)/s < 1e-9
    for (a, b), l in E.items():
        if onnm[a] and onnm[b]:
            if len(l) < 2: v.append(("open-edge", "a surface edge on a non-manifold feature has one triangle")); break
        elif len(l) != 2: v.append(("open-edge", "a surface edge has %d triangles" % len(l))); break
        elif sum(l) != 0 and oriented: v.append(("orientation", "two neighbouring surface triangles are oriented against each other")); break
    if flat(m):
        c = cKDTree(X).query(P)[0].max()/s
        if c > 1e-9: v.append(("corner", "a sharp corner of the input is %g away from the surface mesh" % c))
        a0, a1 = area_of(P, m.f0)/s**2, area_of(X, T)/s**2
        if abs(a0-a1) > 1e-8*a0: v.append(("area", "the surface mesh has area %.12g, the input %.12g" % (a1, a0)))
        if not nm and oriented:
            V = sum(np.dot(X[a]-X[0], np.cross(X[b]-X[0], X[c]-X[0])) for a, b, c in T)/6/s**3; W = sum(np.dot(P[a]-P[0], np.cross(P[b]-P[0], P[c]-P[0])) for a, b, c in m.f0)/6/s**3
            if abs(V-W) > 1e-8*abs(W): v.append(("enclosed", "the surface mesh encloses %.12g, the input %.12g" % (V, W)))
    else:
        a0, a1 = area_of(P, m.f0)/s**2, area_of(X, T)/s**2
        if abs(a0-a1) > 0.35*a0: # a coarse smooth model is only approximated
            v.append(("area", "the surface mesh has area %.6g, the input %.6g" % (a1, a0)))
    return v

# ---------------------------------------------------------------- M04
def _slope(X, Y, k):
    if not len(X) or not len(Y): return -9
    D = np.linalg.norm(X[:, None, :3]-Y[None, :, :3], axis=2); s = X[:, 3].max()
    ok = (D < k*X[:, 3:4]) & (D > 1e-12*s)
    with np.errstate(all="ignore"): return float(np.where(ok, (X[:, 3:4]-Y[:, 3])/D, -9).max())
def spheres(o, lip, rmax, sizing=None, dense=1500):
    v = []; m, s, P = o.m, o.s, o.P
    c, e, f = o.sph("corner"), o.sph("edge"), o.sph("surface"); A = o.spheres; R = A[:, 3]/s
    if len(f) + len(e) + len(c) == 0: return [("no-spheres", "no spheres were written")]
    if not (R > 0).all(): v.append(("radius-sign", "a sphere has radius %g" % R.min()))
    if R.max() > rmax*(1+1e-9): v.append(("rmax", "a sphere has radius %g, R_MAX is %g" % (R.max(), rmax)))
    sh = sharp_edges(m)
    if flat(m):
        cn = sorted({x for a in sh for x in a})
        if len(c) != len(cn): v.append(("corner-count", "%d corner spheres for %d sharp corners" % (len(c), len(cn))))
        elif len(cn):
            T = cKDTree(P[cn]); d, k = T.query(c[:, :3])
            if d.max()/s > 1e-9 or len(set(k.tolist())) != len(cn): v.append(("corner-centre", "corner spheres are not centred on the sharp corners one to one (off by %g)" % (d.max()/s)))
        if len(e):
            d = np.min([dist_seg(e[:, :3], P[a], P[b]) for a, b in sh], axis=0).max()/s
            if d > 1e-9: v.append(("edge-centre", "an edge sphere is centred %g off the sharp edges" % d))
        t = np.linspace(0, 1, 400)[:, None]
        X = np.vstack([P[a]+t*(P[b]-P[a]) for a, b in sh]); ce = np.vstack([c[:, :4], e[:, :4]])
        g = np.min([np.linalg.norm(X-q[:3], axis=1)/q[3] for q in ce], axis=0).max() if len(ce) else 9
        if g > 1+1e-9: v.append(("edge-cover", "a point of a sharp edge lies %.4g radii outside every corner and edge sphere" % g))
    if len(f):
        d = dist_surf(f[:, :3], P, m.f0).max()/s
        if d > 1e-9: v.append(("surface-centre", "a surface sphere is centred %g off the surface" % d))
    X = samples(m, dense); g = np.full(len(X), np.inf)
    for q in A: g = np.minimum(g, np.linalg.norm(X-q[:3], axis=1)/q[3])
    if g.max() > 1+1e-9: v.append(("cover", "%d of %d sampled surface points lie outside every sphere (worst %.4g radii)" % ((g > 1+1e-9).sum(), len(g), g.max())))
    tol = 1e-9
    for n, x, y, k in (("surface", f, f, 2.0), ("edge", e, e, 2.0), ("corner", c, c, 1e30)):
        q = _slope(x, y, k)
        if q > lip*(1+1e-6)+tol: v.append(("lipschitz", "neighbouring %s spheres vary with slope %.6g, LIP_CONST is %g" % (n, q, lip)))
    if len(f) > 1:
        D = np.linalg.norm(f[:, None, :3]-f[None, :, :3], axis=2); np.fill_diagonal(D, 1e300)
        q = (D/np.minimum(f[:, 3:4], f[None, :, 3])).min()
        if q < 0.9: v.append(("crowded", "two surface spheres are %.4g of the smaller radius apart" % q))
    if sizing is not None and len(sizing):
        d, k = cKDTree(sizing[:, :3]).query(A[:, :3]); q = (A[:, 3]/sizing[k, 3]).max()
        if q > 1+1e-9: v.append(("sizing", "a sphere is %.6g times the size asked for at the nearest sizing point" % q))
    return v

# ---------------------------------------------------------------- M05
def seeding(o):
    v = []; m, s, P = o.m, o.s, o.P; S = o.seeds; A = o.spheres; n1 = o.nint
    if n1 is None or n1 > len(S): return [("count", "the number of interior seeds was not reported")]
    n = len(S)-n1; W = o.where
    C, R = A[:, :3], A[:, 3]
    D = np.linalg.norm(S[:, None, :3]-C[None], axis=2)/R
    if n < 8: v.append(("no-surface-seeds", "only %d surface seeds" % n)); return v
    q = D[:n].min(1)
    if q.min() < 1-1e-7: v.append(("covered", "surface seed %d lies inside a sphere (%.9g radii from its centre)" % (q.argmin(), q.min())))
    q = np.sort(np.abs(D[:n]-1), 1)[:, 2]
    if q.max() > 1e-7: v.append(("off-sphere", "surface seed %d does not lie on three spheres (third is %.3g radii off)" % (q.argmax(), q.max())))
    # mirrored pairs: some other seed on the same three spheres, in another volume
    on = (np.abs(D[:n]-1) < 1e-7).astype(np.float32); share = on @ on.T >= 3; np.fill_diagonal(share, False)
    lone = (~share.any(1)).sum()
    if lone: v.append(("pair", "%d of %d surface seeds have no mirror image on the other side of their spheres" % (lone, n)))
    elif flat(m):
        w = (share & (W[:n, None] != W[None, :n])).any(1)
        if not w.all(): v.append(("same-side", "surface seed %d has no mirror image in another volume" % int((~w).argmax())))
    # labels
    if flat(m):
        lab = S[:, 4]
        if ((W == -1) != (lab == 0)).any(): v.append(("exterior", "seed %d is labelled %g but lies %s" % (int(np.where((W == -1) != (lab == 0))[0][0]), lab[np.where((W == -1) != (lab == 0))[0][0]], "outside" if W[np.where((W == -1) != (lab == 0))[0][0]] == -1 else "inside the model")))
        vm = {}
        for w, l in zip(W.tolist(), lab.tolist()): vm.setdefault(w, set()).add(l)
        if models.base_kind(m.kind) not in ("hollow", "hollow2") and any(len(x) > 1 for w, x in vm.items()): v.append(("label", "seeds of one enclosed volume carry different labels"))
    if n1:
        I = S[n:]
        if flat(m) and (W[n:] == -1).any(): v.append(("interior-outside", "%d interior seeds lie outside the model" % (W[n:] == -1).sum()))
        q = D[n:].min()
        if q < 1-1e-7: v.append(("interior-sphere", "an interior seed lies inside a surface sphere (%.6g radii from its centre)" % q))
        if len(I) > 1:
            DD = np.linalg.norm(I[:, None, :3]-I[None, :, :3], axis=2); np.fill_diagonal(DD, 1e300)
            q = (DD/np.minimum(I[:, 3:4], I[None, :, 3])).min()
            if q < 1-1e-9: v.append(("spacing", "two interior seeds are %.6g of the smaller radius apart" % q))
        q = (np.linalg.norm(I[:, None, :3]-S[None, :n, :3], axis=2)/np.minimum(I[:, 3:4], S[None, :n, 3])).min()
        if q < 1-1e-9: v.append(("surface-spacing", "an interior seed is %.6g of the smaller radius from a surface seed" % q))
    return v

# ---------------------------------------------------------------- M06
def regions(o):
    v = []; m = o.m; cells, con = o.vcg
    W = volume_of(m, cells[:, 1:4]); r = cells[:, 5].astype(int)
    if (r <= 0).any(): v.append(("region-id", "a meshed cell carries region %d" % r.min()))
    if (W == -1).any() and flat(m): v.append(("exterior-meshed", "%d meshed cells lie outside every enclosed volume" % (W == -1).sum())); return v
    vm, rm = {}, {}
    for w, q in zip(W.tolist(), r.tolist()): vm.setdefault(w, set()).add(q); rm.setdefault(q, set()).add(w)
    if any(len(x) > 1 for x in vm.values()): v.append(("region-split", "one enclosed volume carries regions %s" % sorted(next(x for x in vm.values() if len(x) > 1))))
    if any(len(x) > 1 for x in rm.values()): v.append(("region-joined", "one region id covers several enclosed volumes"))
    if flat(m) and len(vm) != m.regions: v.append(("region-missing", "%d enclosed volumes, %d meshed" % (m.regions, len(vm))))
    if flat(m) and not v:
        want = vol_enclosed(m)
        for w, q in vm.items():
            a = cells[r == list(q)[0], 4].sum()
            if abs(a-want[w]) > 1e-8*want[w]: v.append(("region-volume", "region %d has volume %g, the enclosed volume is %g" % (list(q)[0], a/m.scale**3, want[w]/m.scale**3))); break
    S = o.seeds
    if flat(m):
        w = o.where
        if ((w == -1) != (S[:, 4] == 0)).any(): v.append(("exterior", "a seed is %s although it lies %s" % (("meshed", "outside") if ((w == -1) & (S[:, 4] != 0)).any() else ("exterior", "inside the model"))))
    return v

# ---------------------------------------------------------------- M08
HOLE = 2.5 # the largest seen in thousands of runs is below 1.8
def filling(o, lip, rmax, sizing=None, n=4000):
    """sizes of the interior seeds, and the room they leave; the second value is the largest hole in radii"""
    v = []; m, s, P = o.m, o.s, o.P; S = o.seeds
    if o.nint is None or o.nint > len(S): return [("count", "the number of interior seeds was not reported")], 0
    I = S[len(S)-o.nint:]
    if len(I):
        if not (I[:, 3] > 0).all(): v.append(("size-sign", "an interior seed has radius %g" % I[:, 3].min()))
        if I[:, 3].max()/s > rmax*(1+1e-9): v.append(("rmax", "an interior seed has radius %g, R_MAX is %g" % (I[:, 3].max()/s, rmax)))
        if sizing is not None and len(sizing):
            d, k = cKDTree(sizing[:, :3]).query(I[:, :3], k=min(2, len(sizing))); d, k = d.reshape(len(I), -1), k.reshape(len(I), -1)
            ok = np.ones(len(I), bool) if d.shape[1] < 2 else d[:, 0] < d[:, 1]*(1-1e-9) # equally near points: either may count
            q = (I[ok, 3]/sizing[k[ok, 0], 3]).max() if ok.any() else 0
            if q > 1+1e-9: v.append(("sizing", "an interior seed is %.6g times the size asked for at the nearest sizing point" % q))
        q = _slope(I, S, 2.0)
        if q > lip*(1+1e-6)+1e-9+1e-9/s: v.append(("lipschitz", "an interior seed exceeds a neighbouring seed with slope %.6g, LIP_CONST is %g" % (q, lip)))
    X = np.random.default_rng(0).uniform(P.min(0), P.max(0), (n, 3)); X = X[volume_of(m, X) >= 0]; g = np.full(len(X), np.inf)
    for q in np.vstack([o.spheres[:, :4], S[:, :4]]): g = np.minimum(g, np.linalg.norm(X-q[:3], axis=1)/q[3])
    if len(g) and g.max() > HOLE: v.append(("hole", "%d of %d sampled inner points are farther than %g radii from every seed and sphere (worst %.4g)" % ((g > HOLE).sum(), len(g), HOLE, g.max())))
    return v, float(g.max()) if len(g) else 0.0

def everything(o, lip, rmax):
    """all the guarantees of a finished run"""
    v = []
    for n, f in (("M01", partition), ("M02", voronoi), ("M03", surface), ("M04", lambda o: spheres(o, lip, rmax)), ("M05", seeding), ("M06", regions), ("M08", lambda o: filling(o, lip, rmax)[0])):
        try: v += [("%s-%s" % (n, c), t) for c, t in f(o)]
        except Bad as e: v.append((n + "-file", str(e)))
    return v

# ---------------------------------------------------------------- M03: the cleaned copy of the input
def cleaned(o):
    """clean.obj: the same surface as the input"""
    name = "model_combined.obj" if "part1.obj" in o.fs else "clean.obj"
    if name not in o.fs: return [("no-clean", "%s is missing" % name)]
    v = []; t = []
    try:
        for l in o.fs[name].decode("utf-8", "replace").splitlines():
            w = l.split()
            if w and w[0] == "v": v.append([float(x) for x in w[1:4]])
            elif w and w[0] == "f": t.append([int(x.split("/")[0]) - 1 for x in w[1:]])
    except ValueError: return [("clean", "clean.obj is malformed")]
    X = np.array(v).reshape(len(v), 3); P = np.array(o.m.p, float)
    if len(t) != len(o.m.f): return [("clean", "clean.obj has %d faces, the input %d" % (len(t), len(o.m.f)))]
    d, k = cKDTree(P).query(X)
    if d.max()/o.s > 1e-4 or len(set(k.tolist())) != len(P): return [("clean", "clean.obj does not have the input's vertices (off by %g)" % (d.max()/o.s))]
    def rot(a): i = a.index(min(a)); return tuple(a[i:]+a[:i])
    if sorted(rot([int(k[x]) for x in f]) for f in t) != sorted(rot(list(f)) for f in o.m.f): return [("clean", "clean.obj does not have the input's faces")]
    return []

# ---------------------------------------------------------------- M07
def monitoring(o, M, note):
    """imposed points M (x y z r) against the mesh of the run"""
    v = []; m, s = o.m, o.s; cells, con = o.vcg; A = o.spheres; C = cells[:, 1:4]
    n1 = o.nint
    X = M[:, :3]
    T = cKDTree(C); d, k = T.query(X); hit = d/s < 1e-9
    # a point clear of the surface, of the spheres and of the other points must have become a cell
    W = volume_of(m, X) if flat(m) else np.where(winding(X, o.P, m.f0) > 0.5, 0, -1)
    D = np.linalg.norm(X[:, None]-A[None, :, :3], axis=2)/A[:, 3]
    far = np.ones(len(X), bool)
    if len(X) > 1:
        DD = np.linalg.norm(X[:, None]-X[None], axis=2); np.fill_diagonal(DD, 1e300)
        far = (DD > np.maximum(M[:, 3:4], M[None, :, 3])).all(1)
    must = (W >= 0) & (D.min(1) > 1) & far
    if not flat(m):
        ds = dist_surf(X, o.P, m.f0); must &= ds > 0.5*A[:, 3].max()
    note["imposed"] = int(hit.sum()); note["must_impose"] = int(must.sum())
    for i in np.where(must & ~hit)[0][:1]: v.append(("not-imposed", "imposed point %d lies in the model, outside all spheres and away from other points, but is not a cell centre (nearest is %g)" % (i, d[i]/s)))
    cnt = np.array([len(x) for x in T.query_ball_point(X, 1e-9*s)])
    for i in np.where(cnt > 1)[0][:1]: v.append(("imposed-twice", "imposed point %d is the centre of %d cells" % (i, cnt[i])))
    for i in np.where((W < 0) & hit)[0][:1]:
        if flat(m): v.append(("imposed-outside", "imposed point %d lies outside the model but is a cell centre" % i))
    for i in np.where((D.min(1) < 1-1e-9) & hit)[0][:1]: v.append(("imposed-in-sphere", "imposed point %d lies inside a surface sphere but is a cell centre" % i))
    # no generated seed is left inside the sphere of an imposed point
    hs, ks = cKDTree(o.seeds[:, :3]).query(X)
    ok = hit & (hs/s < 1e-9)
    if ok.any():
        G = o.seeds[ks[ok].max()+1:, :3]; note["generated"] = len(G)
        if len(G):
            dg = cKDTree(G).query(X[ok])[0]; bad = dg < M[ok, 3]*(1-1e-6)-1e-9*s
            for i in np.where(bad)[0][:1]: v.append(("sphere-not-empty", "a generated seed lies %g from imposed point %d of radius %g" % (dg[i], np.where(ok)[0][i], M[ok, 3][i])))
    if "monitoring_points_closest_seeds.csv" not in o.fs: v.append(("no-report", "no closest-seed report was written")); return v
    R = _csv(o.fs["monitoring_points_closest_seeds.csv"], "monitoring_points_closest_seeds.csv", 4)
    if len(R) != len(X): v.append(("report-length", "the report lists %d seeds for %d imposed points" % (len(R), len(X)))); return v
    for i in np.where(hit)[0]:
        if np.abs(R[i, :3]-X[i]).max()/s > 1e-9: v.append(("report", "imposed point %d is a cell centre but the report lists a seed %g away" % (i, np.abs(R[i, :3]-X[i]).max()/s))); break
    if len(R):
        e = T.query(R[:, :3])[0]/s; es = cKDTree(o.seeds[:, :3]).query(R[:, :3])[0]/s; note["report_unmatched"] = int((es > 1e-9).sum())
        for i in np.where(es > 1e-9)[0][:1]: v.append(("report-no-seed", "the report lists for imposed point %d a seed that is not in seeds.csv (nearest is %g away)" % (i, es[i])))
    return v

# ---------------------------------------------------------------- D06
def same_mesh(a, b, regions=True):
    v = []; ca, na = a.vcg; cb, nb = b.vcg; s = a.s
    if len(ca) != len(cb): return [("cells", "%d cells, restarted %d" % (len(ca), len(cb)))]
    if np.abs(ca[:, 1:4]-cb[:, 1:4]).max()/s > 1e-10: v.append(("centres", "cell centres differ by %g" % (np.abs(ca[:, 1:4]-cb[:, 1:4]).max()/s))); return v
    T = np.zeros(len(ca))
    for c in (0, 1): np.add.at(T, na[:, c].astype(int)-1, na[:, 5]/s**2)
    d = np.abs(ca[:, 4]-cb[:, 4])/s**3/np.maximum(T, 1e-12)**1.5
    if d.max() > 1e-5: v.append(("volumes", "cell %d has volume %.12g, restarted %.12g" % (d.argmax()+1, ca[d.argmax(), 4], cb[d.argmax(), 4])))
    if regions:
        ma, mb = {}, {}
        for x, y in zip(ca[:, 5].tolist(), cb[:, 5].tolist()): ma.setdefault(x, set()).add(y); mb.setdefault(y, set()).add(x)
        if any(len(x) > 1 for x in ma.values()) or any(len(x) > 1 for x in mb.values()): v.append(("regions", "the cells are grouped into other regions after the restart"))
    def table(n):
        t = {}
        for r in n:
            i, j = int(r[0]), int(r[1]); t.setdefault((min(i, j), max(i, j)), []).append(r)
        return t
    ta, tb = table(na), table(nb)
    for k in set(ta) | set(tb):
        x = sum(r[5] for r in ta.get(k, []))/s**2; y = sum(r[5] for r in tb.get(k, []))/s**2
        L = (T[k[0]-1]+T[k[1]-1])
        if abs(x-y) > 1e-5*L: v.append(("faces", "the faces between cells %d and %d have area %g, restarted %g" % (k[0], k[1], x, y))); break
    for k in set(ta) & set(tb):
        if k[0] != k[1] and (np.abs(ta[k][0][2:5]-tb[k][0][2:5]).max()/s > 1e-9 or np.abs(ta[k][0][6:9]-tb[k][0][6:9]).max() > 1e-5): v.append(("face-geometry", "the face between cells %d and %d moved" % k)); break
    return v
