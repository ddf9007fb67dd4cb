"""The checks, one per property."""
import re
import numpy as np
from . import core, oracle, models
from .core import *

CHECKS = {}
def check(c): CHECKS[c.id] = c(); return c

def fine_ok(kind): return COST[kind] <= 2.5
def variant(rng, tier, kinds, p_fine=0.25):
    """model kind and build variant: every-access runs on small models, block-level runs on all"""
    if rng.random() < p_fine:
        return pick(rng, [k for k in kinds if fine_ok(k)]), "fine"
    return pick(rng, kinds), rng.choice(["fast", "fast", "clock"])
def opts(rng, kind, split=True):
    """control-file variations"""
    d = {"lip": rng.choice([0.5, 0.5, 0.35, 0.4, 0.6, 0.25 if COST[kind] < 3 else 0.45]), "rmax": rng.choice([1.0, 1.0, 1.0, 0.8, 1.3, 3.0])}
    d.update(rand_batch(rng))
    if split and rng.random() < 0.12 and models.base_kind(kind) != "ico": d["split"] = rng.choice([2, 3])
    if rng.random() < 0.12 and models.base_kind(kind) not in ("ico", "hollow", "hollow2", "cylinder", "cone", "foam") and not d.get("split"): d["extra"] = ["R_MIN = %.3g" % (0.001*models.KINDS[models.base_kind(kind)][3])]
    return d
def rmin(rng, kind, mseed):
    """a small R_MIN now and then"""
    k = models.base_kind(kind)
    if rng.random() > 0.1 or k in ("ico", "hollow", "hollow2", "cylinder", "cone", "foam"): return []
    return ["R_MIN = %.6g" % (0.001*models.KINDS[k][3]*models.Model(kind, mseed).scale)]
def defaults(rng, run):
    """leave options out of the control file, so that their defaults apply"""
    me = run["meta"]; k = models.base_kind(me["kind"]); curved = k in ("ico", "cylinder", "cone", "foam"); L = run["files"]["vc.in"].splitlines()
    def drop(o): L[:] = [l for l in L if not l.startswith(o)]
    if rng.random() < 0.5: drop("R_MAX"); me["norm"] = 1
    if rng.random() < 0.4 and not curved: drop("VC_ANGLE")
    if rng.random() < 0.3: drop("NUM_THREADS"); me["threads"] = 1
    if rng.random() < 0.3 and k in ("tetra", "octa", "ico", "box", "pyramid", "prism3"): drop("LIP_CONST"); me["lip"] = 0.1; more(run, 3)
    run["files"]["vc.in"] = "\n".join(L)+"\n"
def mesh_case(rng, tier, kinds, p_fine=0.25, threads=None, **kw):
    kind, b = variant(rng, tier, kinds, p_fine)
    mseed = rng.choice([0, rng.randrange(1, 10**6), rng.randrange(1, 10**6)])
    o = opts(rng, kind); s = swarm(rng, b == "fine")
    if b == "clock": s.update(clock=rng.choice(CLOCKS), clock_base=rng.randint(1, 2*10**9))
    m = models.Model(kind, mseed)
    if "extra" in o: o["extra"] = ["R_MIN = %.6g" % (float(o["extra"][0].split("=")[1])*m.scale)]
    o.update(kw)
    t = threads if threads else rng.choice([8, 8, 16, 33]) if rng.random() < 0.13 else rng.choice([1, 2, 2, 3, 4, 4])
    r = mk(kind, mseed, t, build=b, **o, **s)
    if rng.random() < 0.12: defaults(rng, r)
    return dress(rng, r) if rng.random() < 0.1 else r

class MeshCheck(Check):
    """runs vc_mesh in random environments and judges what it wrote"""
    builds = ("fast", "fine", "clock"); quick = 150; thorough = 4000; kinds = FULL; p_fine = 0.12
    rule = "a case is one vc_mesh run: a random model (kind, stretch, rotation, scale, position), random sizes and options, threads 1-4, a random scheduling policy, delivered team, clock and heap; non-trivial when the run wrote a mesh the oracle judged and, by its trace hash, differs from the others"
    def fixed_cases(self, tier):
        return [{"run": mk(k, 0, t, lip=l, **sim(seed=5, sched="mix"))} for k, t, l in (("twobox", 3, 0.5), ("hollow", 2, 0.5), ("tetra", 4, 0.25), ("ico", 2, 0.5), ("stack3", 4, 0.5))]
    def gen(self, rng, tier, i): return {"run": mesh_case(rng, tier, self.kinds, self.p_fine)}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; r = ctx.run(run); key = case.get("known")
        if key: # a recorded finding: anything wrong with this very input is that finding
            bad = completed(r)
            if not bad:
                w = Verdict(); self.judge(case, run, r, core.out(run, r), w); bad = [x[:2] for x in w.bad]
            for c, t in bad: v.add(c, t, key)
            return v
        v.extend(completed(r)); v.sig = str(r.n.get("trace_hash"))
        if v.bad: return v
        o = core.out(run, r)
        try: self.judge(case, run, r, o, v); v.nontrivial = True
        except oracle.Bad as e: v.add("file", str(e))
        return v
    def simpler(self, case):
        run = case["run"]; me = run.get("meta", {})
        if me.get("threads", 1) > 1 and "vc.in" in run["files"]:
            f = dict(run["files"]); f["vc.in"] = re.sub(r"NUM_THREADS\s*=\s*\d+", "NUM_THREADS = 1", f["vc.in"])
            yield dict(case, run=dict(run, files=f, sim={k: x for k, x in dict(run["sim"], sched="serial").items() if k != "team"}))
        yield from Check.simpler(self, case)

# a tip where many seeds meet: nearly coincident corners of one face weld to one vertex, with others between them
WELD = mk("octa", 705, 4, lip=0.5, rmax=0.8, build="clock", seed=158490627, sched="pct", mean=88, d=2, clock="steady", clock_base=4294967295)

# a small cone cut finely: seeds a few microns apart, in a model a centimetre across
CLOSE = mk("cone*3", 897738, 4, lip=0.5, rmax=1.3, build="clock", seed=252574552, sched="pct", mean=9812, d=4, batch=3, clock="frozen", clock_base=272762463)

# thin fins: a surface sample next to a much larger one; whether it is kept must not depend on what memory held
RADIUS = mk("fin*3", 3, 3, lip=0.5, heap_fill=255, seed=838348298, mean=5749, d=8, p=0.78408, team="full 0")

# units so large that absolute tolerances would be below rounding, or so small that they are not
HUGE = mk("tetra@1e5", 0, 2, lip=0.5, seed=1)
TINY = mk("tetra@5e-4", 0, 2, lip=0.5, seed=1, max_steps=1_000_000_000)

@check
class M01(MeshCheck):
    id = "M01"
    def fixed_cases(self, tier): return MeshCheck.fixed_cases(self, tier)+[{"run": WELD}, {"run": CLOSE}, {"run": HUGE}]
    def gen(self, rng, tier, i): return {"run": cloud_run(rng, tier)} if i % 6 == 2 else MeshCheck.gen(self, rng, tier, i)
    def judge(self, case, run, r, o, v): v.extend(oracle.partition(o, "cloud" not in run["meta"])); v.note["cells"] = len(o.vcg[0])

@check
class M02(MeshCheck):
    id = "M02"; quick = 220
    def fixed_cases(self, tier): return MeshCheck.fixed_cases(self, tier)+[{"run": WELD}, {"run": CLOSE}, {"run": HUGE}]
    def gen(self, rng, tier, i):
        if i % 3: return {"run": mesh_case(rng, tier, self.kinds, self.p_fine)}
        return {"cloud": [rng.randrange(1 << 30), rng.choice([9, 20, 60, 200, 500])], "run": cloud_run(rng, tier)}
    def judge(self, case, run, r, o, v): v.extend(oracle.voronoi(o, labelled="cloud" in run["meta"])); v.note["faces"] = len(o.vcg[1])

def cloud_text(seed, n, kind):
    """a seeds file made by formula: random, clustered, or nearly structured points with exterior seeds around them"""
    rng = np.random.default_rng(seed); L = ["x1,x2,x3,sizing,region"]
    if kind == "cluster": c = rng.random((max(2, n//20), 3)); X = c[rng.integers(0, len(c), n)]+rng.normal(0, 0.03, (n, 3))
    elif kind == "lattice":
        k = max(2, int(round(n**(1/3)))); g = np.stack(np.meshgrid(*[np.arange(k)]*3), -1).reshape(-1, 3)/k; X = g+rng.normal(0, 1e-3, g.shape)
    elif kind == "graded": X = rng.random((n, 3))**3
    elif kind == "wheel": # faces with many corners: two hubs with a ring of seeds between them
        k = max(3, min(n-2, 40)); a = 2*np.pi*(np.arange(k)+0.1*rng.random(k))/k; X = np.concatenate([[[0, 0, 0.06], [0, 0, -0.06]], np.stack([0.5*np.cos(a), 0.5*np.sin(a), 0.005*rng.normal(size=k)], 1), 0.6*rng.normal(size=(max(0, n-2-k), 3))+[0, 0, 3]])
    else: X = rng.random((n, 3))
    lo, hi = X.min(0), X.max(0); c = (lo+hi)/2; R = np.linalg.norm(hi-lo)
    # exterior seeds on a sphere all around: every inner cell is bounded
    m = 60; i = np.arange(m)+0.5; ph = np.arccos(1-2*i/m); th = np.pi*(1+5**0.5)*i
    E = c+0.75*R*np.stack([np.cos(th)*np.sin(ph), np.sin(th)*np.sin(ph), np.cos(ph)], 1)
    s = R/max(2, n)**(1/3)
    nreg = int(rng.choice([1, 2, 3, 3, 12])); reg = 1+(X[:, 0]*nreg/max(1e-9, (hi[0]-lo[0]))).astype(int) % nreg if nreg > 1 else np.ones(len(X), int)
    rows = [(x, s, r) for x, r in zip(X, reg)]+[(x, s, 0) for x in E]
    rng.shuffle(rows) if False else None
    p = rng.permutation(len(rows))
    for j in p: x, ss, r = rows[j]; L.append("%.16g, %.16g, %.16g, %.16g, %d" % (x[0], x[1], x[2], ss, r))
    return "\n".join(L)+"\n"
def cloud_run(rng, tier, threads=None):
    s = swarm(rng, False); b = rng.choice(["fast", "fast", "fine"])
    n = rng.choice([9, 20, 60, 200] if b == "fine" else [9, 30, 100, 400])
    f = {"seeds.csv": cloud_text(rng.randrange(1 << 30), n, rng.choice(["random", "cluster", "lattice", "graded", "wheel"]))}
    r = reseed(f, threads or rng.choice([1, 2, 3, 4]), **s); r["build"] = b
    r["meta"] = {"kind": "box", "mseed": 0, "cloud": 1}; return dress(rng, r) if rng.random() < 0.1 else r

@check
class M03(MeshCheck):
    id = "M03"; quick = 220
    def judge(self, case, run, r, o, v): v.extend(oracle.surface(o)); v.extend(oracle.cleaned(o)); v.note["triangles"] = len(o.surf[1])

def with_sizing(rng, run, on):
    """a sizing file for one run in three; sizes may jump between neighbouring points"""
    c = {"run": run}
    if on:
        m = models.Model(run["meta"]["kind"], run["meta"]["mseed"]); P = np.array(m.p); lo, hi = P.min(0), P.max(0)
        n = rng.choice([1, 2, 5, 20]); steep = rng.random() < 0.5; rm = run["meta"]["rmax"]*m.scale
        pts = [[rng.uniform(lo[k]-0.1*(hi[k]-lo[k]), hi[k]+0.1*(hi[k]-lo[k])) for k in range(3)]+[rm*(rng.choice([0.42, 0.5, 1.1]) if steep else rng.uniform(0.45, 1.2))] for _ in range(n)]
        run["files"]["sizing.csv"] = "x1,x2,x3,sz\n"+"".join(", ".join("%.12g" % x for x in p)+"\n" for p in pts)
        run["files"]["vc.in"] += "SIZING_FILE = sizing.csv\n"; c["sizing"] = pts
        more(run, 6)
    return c

@check
class M04(MeshCheck):
    id = "M04"; quick = 220
    def gen(self, rng, tier, i): return with_sizing(rng, mesh_case(rng, tier, self.kinds, self.p_fine), i % 3 == 0)
    def judge(self, case, run, r, o, v):
        z = np.array(case["sizing"], float) if "sizing" in case else None
        if z is not None: v.note["sizing_files"] = 1
        v.extend(oracle.spheres(o, run["meta"]["lip"], 1e300 if run["meta"].get("norm") else run["meta"]["rmax"], z)); v.note["spheres"] = len(o.spheres)

@check
class M05(MeshCheck):
    id = "M05"; quick = 260
    def judge(self, case, run, r, o, v): v.extend(oracle.seeding(o)); v.note["seeds"] = len(o.seeds)

@check
class M06(MeshCheck):
    id = "M06"; kinds = ["twobox", "sidebox", "stack3", "hollow", "tetra", "box", "octa", "ico", "lshape"]; many = ["quad", "fin", "quad"]; quick = 260
    def fixed_cases(self, tier):
        return MeshCheck.fixed_cases(self, tier)+[{"run": mk("apart", 0, 1, seed=3, max_steps=400_000_000), "known": "apart"}, {"run": mk("hollow2", 0, 4, lip=0.5, seed=3)}]
    def evaluate(self, case, ctx):
        if case.get("known") != "apart": return MeshCheck.evaluate(self, case, ctx)
        v = Verdict(); r = ctx.run(case["run"])
        if r.status == "budget": v.add("apart", "seeding of two disjoint bodies does not stay inside them", "apart"); return v
        if r.ok: v.extend(oracle.regions(core.out(case["run"], r)))
        return v
    def gen(self, rng, tier, i):
        # the order of the input faces decides which patch is coloured first
        c = {"run": mesh_case(rng, tier, self.many, 0) if i % 4 == 1 else mesh_case(rng, tier, self.kinds, self.p_fine)}; f = c["run"]["files"]
        if "model.obj" in f and "dress" not in c["run"]["meta"] and rng.random() < 0.6:
            L = f["model.obj"].splitlines(); vs = [l for l in L if l[0] == "v"]; fs = [l for l in L if l[0] == "f"]; rng.shuffle(fs); f["model.obj"] = "\n".join(vs+fs)+"\n"
        return c
    def judge(self, case, run, r, o, v): v.extend(oracle.regions(o)); v.note["regions"] = len(set(o.vcg[0][:, 5].tolist()))

@check
class M08(MeshCheck):
    id = "M08"; quick = 260; kinds = MID+["lshape", "slab", "fin", "notch"]
    def gen(self, rng, tier, i): return with_sizing(rng, mesh_case(rng, tier, self.kinds, self.p_fine), i % 3 == 0)
    def judge(self, case, run, r, o, v):
        z = np.array(case["sizing"], float) if "sizing" in case else None
        if z is not None: v.note["sizing_files"] = 1
        b, hole = oracle.filling(o, run["meta"]["lip"], 1e300 if run["meta"].get("norm") else run["meta"]["rmax"], z); v.extend(b)
        v.note["interior_seeds"] = o.nint; v.note["runs_with_a_gap_over_1.8_radii"] = int(hole > 1.8)

@check
class M07(MeshCheck):
    id = "M07"; kinds = ["tetra", "box", "octa", "pyramid", "wedge", "twobox", "ico", "prism3"]; quick = 200
    rule = "a case is a history of two vc_mesh runs in one directory: the first generates monitoring points (or a generated file supplies them), the second imposes them with other sizes, threads and schedules; non-trivial when at least one point was imposed"
    def fixed_cases(self, tier): return []
    def gen(self, rng, tier, i):
        a = mesh_case(rng, tier, self.kinds, 0, extra=["GENERATE_MONITORING_POINTS = true"], split=0)
        me = a["meta"]; s = swarm(rng); b = rng.choice(["fast", "fast", "clock"]); s.update(rand_batch(rng))
        z = mk(me["kind"], me["mseed"], rng.choice([1, 2, 3, 4]), lip=rng.choice([0.5, 0.4, max(0.25, me["lip"])]), extra=["IMPOSE_MONITORING_POINTS = true"], build=b, **s)
        more(z, 3)
        c = {"first": a, "second": z, "mode": rng.choice(["chain", "chain", "subset", "synthetic", "synthetic"]), "pseed": rng.randrange(1 << 30)}
        return c
    def evaluate(self, case, ctx):
        v = Verdict(); a = case["first"]; m = core.model(a); z = case["second"]; pts = None
        if case["mode"] != "synthetic":
            r = ctx.run(a); v.extend(completed(r, "the generating run"))
            if v.bad: return v
            o = core.out(a, r)
            try:
                if "monitoring_points.csv" not in r.fs: v.add("not-generated", "no monitoring points were written"); return v
                P = oracle._csv(r.fs["monitoring_points.csv"], "monitoring_points.csv", 4); S = o.seeds; n1 = o.nint
                if len(P) > 100: v.add("too-many", "%d monitoring points were generated" % len(P))
                I = S[len(S)-n1:]
                if min(100, len(I)) and len(P) == 0: v.add("none", "no monitoring point was generated for %d interior seeds" % len(I))
                if len(P):
                    d = np.abs(P[:, None, :4]-I[None, :, :4]).max(2)/m.scale; k = d.argmin(1)
                    if d.min(1).max() > 1e-9: v.add("not-a-seed", "a generated monitoring point is not an interior seed with its radius (off by %g)" % d.min(1).max())
                    elif len(set(k.tolist())) != len(P): v.add("point-twice", "a monitoring point was generated twice")
            except oracle.Bad as e: v.add("file", str(e)); return v
            if v.bad: return v
            text = r.fs["monitoring_points.csv"].decode()
            if case["mode"] == "subset":
                L = text.splitlines(); g = np.random.default_rng(case["pseed"]); keep = sorted(g.permutation(len(L)-1)[:max(1, (len(L)-1)//4)].tolist()); text = "\n".join([L[0]]+[L[1+k] for k in keep])+"\n"
        else:
            g = np.random.default_rng(case["pseed"]); P0 = np.array(m.p); lo, hi = P0.min(0), P0.max(0); n = int(g.choice([1, 3, 10, 60, 120, 250]))
            X = lo+(hi-lo)*(g.random((n, 3))*1.1-0.05); R = (0.05+0.25*g.random(n))*min(1, (60/n)**(1/3))*z["meta"]["rmax"]*m.scale
            text = "x1,x2,x3,r\n"+"".join("%.16g, %.16g, %.16g, %.16g\n" % (*x, q) for x, q in zip(X, R))
        z = dict(z, files=dict(z["files"], **{"monitoring_points.csv": text}))
        r = ctx.run(z); v.extend(completed(r, "the imposing run")); v.sig = str(r.n.get("trace_hash"))
        if v.bad: return v
        o = core.out(z, r)
        try:
            M = oracle._csv(text.encode(), "monitoring_points.csv", 4); v.extend(oracle.monitoring(o, M, v.note))
            # everything else still holds with imposed points
            v.extend([x for x in oracle.partition(o)])
        except oracle.Bad as e: v.add("file", str(e))
        v.nontrivial = v.note.get("imposed", 0) > 0
        return v

# ---------------------------------------------------------------------------------------------- schedules
class SchedCheck(Check):
    def simpler(self, case):
        yield from Check.simpler(self, case)

@check
class S01(SchedCheck):
    id = "S01"; builds = ("fast", "fine"); quick = 140; thorough = 4000; quick_s = 36
    rule = "a case runs one input under one random schedule (policy, mean, preemption depth; every memory access or every basic block is a scheduling point) and compares every result file, byte for byte, with the run-to-completion schedule of the same delivered team; non-trivial when at least two threads interleaved"
    def gen(self, rng, tier, i):
        fine = i % 4 == 0
        kind = pick(rng, [k for k in MID if not fine or fine_ok(k)]); b = "fine" if fine else "fast"
        s = rand_sched(rng, fine); s["seed"] = rng.randrange(1, 1 << 30); s.update(rand_batch(rng))
        if rng.random() < 0.15: s["team"] = "cap %d" % rng.randint(2, 3)
        ex = []; x = rng.random()
        if x < 0.1: ex = ["GENERATE_MONITORING_POINTS = true"]
        mseed = rng.randrange(0, 6); ex += rmin(rng, kind, mseed)
        r = mk(kind, mseed, rng.choice([2, 2, 3, 4, 4, 6, 9]) if not fine else rng.choice([2, 3, 4]), lip=rng.choice([0.5, 0.5, 0.35]), extra=ex, build=b, **s)
        if rng.random() < 0.15:
            m = core.model(r); r["files"]["monitoring_points.csv"] = monitor_text(m, rng.randrange(1 << 30)); r["files"]["vc.in"] += "IMPOSE_MONITORING_POINTS = true\n"; more(r, 3)
        if rng.random() < 0.12:
            m = core.model(r); r["files"]["sizing.csv"] = sizing_text(m, rng); r["files"]["vc.in"] += "SIZING_FILE = sizing.csv\n"; more(r, 6)
        return {"run": r}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; b = ctx.base(quiet(run, seed=1)); 
        v.extend(completed(b, "the run without preemption"))
        if v.bad: return v
        r = ctx.run(run); v.extend(completed(r)); v.sig = str(r.n.get("sched_hash")); v.nontrivial = r.n.get("switches", 0) > r.n.get("regions", 0)
        if not v.bad:
            d = diff(results(b), results(r))
            if d: v.add("differs", "another interleaving of the same input: "+d)
        return v

def monitor_text(m, seed, n=12):
    g = np.random.default_rng(seed); P0 = np.array(m.p); lo, hi = P0.min(0), P0.max(0)
    X = lo+(hi-lo)*(0.1+0.8*g.random((n, 3))); R = (0.05+0.2*g.random(n))*m.rmax*m.scale
    return "x1,x2,x3,r\n"+"".join("%.16g, %.16g, %.16g, %.16g\n" % (*x, q) for x, q in zip(X, R))
def sizing_text(m, rng, n=6):
    P = np.array(m.p); lo, hi = P.min(0), P.max(0)
    return "x1,x2,x3,sz\n"+"".join(", ".join("%.12g" % x for x in [rng.uniform(lo[k], hi[k]) for k in range(3)]+[m.rmax*m.scale*rng.uniform(0.5, 1.2)])+"\n" for _ in range(n))

@check
class S02(SchedCheck):
    id = "S02"; builds = ("fine",); quick = 160; thorough = 2500; quick_s = 36
    rule = "a case runs one input with every memory access observed by a vector-clock race detector (happens-before of parallel regions, barriers, criticals and atomics) under a random schedule; non-trivial when threads of one region touched the same memory"
    def fixed_cases(self, tier): return [{"run": dict(mk(k, 0, t, lip=0.5, **sim(seed=2, sched="conflict", p=0.05)), build="fine")} for k, t in (("tetra", 4), ("ico", 4), ("octa", 3), ("twobox", 2))]
    def gen(self, rng, tier, i):
        x = rng.random()
        if x < 0.2:
            r = cloud_run(rng, tier, rng.choice([2, 3, 4])); r["build"] = "fine"; r["sim"].pop("team", None); return {"run": r}
        kind = pick(rng, [k for k in MID if fine_ok(k)]); s = swarm(rng, True); ex = []; s.update(rand_batch(rng))
        if x > 0.85: ex = ["GENERATE_MONITORING_POINTS = true"]
        mseed = rng.randrange(0, 1000); ex += rmin(rng, kind, mseed)
        r = mk(kind, mseed, rng.choice([2, 3, 4, 4, 7, 12]), lip=rng.choice([0.5, 0.5, 0.35]), extra=ex, build="fine", **s)
        if 0.6 < x < 0.72: m = core.model(r); r["files"]["monitoring_points.csv"] = monitor_text(m, rng.randrange(1 << 30)); r["files"]["vc.in"] += "IMPOSE_MONITORING_POINTS = true\n"; more(r, 3)
        if 0.72 < x < 0.8: m = core.model(r); r["files"]["sizing.csv"] = sizing_text(m, rng); r["files"]["vc.in"] += "SIZING_FILE = sizing.csv\n"; more(r, 6)
        return {"run": r}
    def evaluate(self, case, ctx):
        v = Verdict(); r = ctx.run(case["run"]); v.sig = str(r.n.get("sched_hash")); v.nontrivial = r.n.get("conflict_accesses", 0) > 0
        if r.races:
            v.add("race", "%d racing access pairs, e.g. %s" % (r.n["races"], race_name(ctx, case, r.races[0])))
        return v

def race_name(ctx, case, s):
    """code locations of a race, for the message"""
    import subprocess
    pcs = re.findall(r"\b(?:0x)?([0-9a-f]{5,16})\b", s)
    try:
        o = subprocess.run(["addr2line", "-Cfsie", ctx.bins[case["run"].get("build", "fast")]]+pcs[:2], stdout=subprocess.PIPE, timeout=60).stdout.decode().splitlines()
        loc = [l for l in o if ":" in l and not l.startswith("?")]
        return s+" ("+", ".join(dict.fromkeys(loc))+")"
    except Exception: return s

@check
class S03(SchedCheck):
    id = "S03"; builds = ("fast", "fine"); quick = 220; thorough = 3500; quick_s = 36
    rule = "a case runs one input whose parallel regions get fewer threads than NUM_THREADS (a cap, one thread, or a different number in every region) and applies every mesh oracle to the result; non-trivial when a region ran with a short team"
    def gen(self, rng, tier, i):
        fine = i % 4 == 1; kind = pick(rng, [k for k in MID if not fine or fine_ok(k)]); s = rand_sched(rng, fine); s["seed"] = rng.randrange(1, 1 << 30)
        s["team"] = rng.choice(["cap 1", "cap 2", "cap 3", "rand 0", "rand 0"])
        if rng.random() < 0.3: s["cpus"] = rng.choice([1, 2, 3])
        if rng.random() < 0.15:
            r = cloud_run(rng, tier, rng.choice([3, 4, 8])); r["sim"]["team"] = s["team"]; return {"run": r}
        o = opts(rng, kind); m = None; mseed = rng.randrange(0, 1000)
        if "extra" in o: m = models.Model(kind, mseed); o["extra"] = ["R_MIN = %.6g" % (float(o["extra"][0].split("=")[1])*m.scale)]
        return {"run": mk(kind, mseed, rng.choice([2, 3, 4, 5, 8]), build="fine" if fine else "fast", **o, **s)}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; r = ctx.run(run); v.extend(completed(r)); v.sig = str(r.n.get("trace_hash")); v.nontrivial = r.n.get("short_teams", 0) > 0
        if r.n.get("heap_bad"): v.add("memory", "%d accesses outside live memory: %s" % (r.n["heap_bad"], r.bad[:1]))
        if not v.bad:
            o = core.out(run, r)
            if run["meta"].get("cloud"):
                for f in (oracle.voronoi, lambda o: oracle.partition(o, volume=False)):
                    try: v.extend(f(o))
                    except oracle.Bad as e: v.add("file", str(e))
            else: v.extend(oracle.everything(o, run["meta"]["lip"], run["meta"]["rmax"]))
        return v

@check
class S04(SchedCheck):
    id = "S04"; builds = ("fast", "fine"); quick = 700; thorough = 6000; quick_s = 36
    rule = "a case meshes one seeds file (written by an earlier simulated run, or made by formula) with some NUM_THREADS, delivered team and schedule, and compares the mesh byte for byte with the single-threaded one; non-trivial when more than one thread ran"
    def gen(self, rng, tier, i):
        s = swarm(rng, False); b = "fine" if i % 5 == 0 else "fast"; t = rng.choice([2, 3, 4, 4, 5, 8, 16])
        if i % 2:
            kind = pick(rng, [k for k in MID if b == "fast" or fine_ok(k)]); src = mk(kind, rng.randrange(0, 8), 1, lip=0.5, vcg=False, seed=1)
            return {"src": src, "run": dict(reseed({}, t, **s), build=b)}
        r = cloud_run(rng, tier, t); return {"run": r}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]
        if "src" in case:
            a = ctx.base(case["src"]); v.extend(completed(a, "the run that writes the seeds"))
            if v.bad: return v
            run = dict(run, files=dict(run["files"], **{"seeds.csv": a.fs["seeds.csv"].decode()}))
        one = quiet(run, seed=1); one["sim"].pop("team", None); one["build"] = "fast"; one["files"] = dict(one["files"], **{"vc.in": re.sub(r"NUM_THREADS\s*=\s*\d+", "NUM_THREADS = 1", one["files"]["vc.in"])})
        b = ctx.base(one); v.extend(completed(b, "the single-threaded run"))
        r = ctx.run(run); v.extend(completed(r)); v.sig = str(r.n.get("trace_hash")); v.nontrivial = r.n.get("switches", 0) > 0
        if not v.bad:
            d = diff(results(b), results(r))
            if d: v.add("differs", "the mesh of the same seeds with other threads: "+d)
            if "mesh.vcg" not in b.fs: v.add("no-mesh", "no mesh was written")
        return v

@check
class S05(Check):
    id = "S05"; builds = ("fast", "clock"); quick = 220; thorough = 5000; quick_s = 36
    rule = "a case runs one input under one clock (skewed, jumping, running backwards, frozen; any date): with the fixed random seed its result files are compared with those of a steady clock, with the time-derived seed the mesh oracles judge the result; non-trivial when the clock was read"
    def gen(self, rng, tier, i):
        s = {"seed": rng.randrange(1, 1 << 30), **rand_clock(rng), **rand_batch(rng)}; kind = pick(rng, MID if i % 3 else FULL)
        if i % 2: # default build: the random seed comes from the clock
            t = rng.choice([1, 2, 3, 4]); o = opts(rng, kind, False); o.pop("extra", None); o.pop("batch", None)
            s.update(rand_sched(rng)); s["clock_base"] = rng.choice([0, 1, 2147483647, 2147483648, 4294967295, 4294967296, 253402300799, rng.randint(0, 2*10**9), rng.randint(0, 5*10**9)])
            return {"run": mk(kind, rng.randrange(0, 1000), t, build="clock", **o, **s), "derived": 1}
        return {"run": mk(kind, rng.randrange(0, 6), rng.choice([1, 2, 4]), lip=0.5, build="fast", **s)}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; r = ctx.run(run); v.extend(completed(r)); v.sig = "%s/%s/%s" % (run["sim"].get("clock"), run["sim"].get("clock_base"), r.n.get("trace_hash")); v.nontrivial = r.n.get("clock_calls", 0) > 0
        if v.bad: return v
        if case.get("derived"): v.extend(oracle.everything(core.out(run, r), run["meta"]["lip"], run["meta"]["rmax"]))
        else:
            b = ctx.base(quiet(run, seed=1)); v.extend(completed(b, "the run with a steady clock"))
            d = None if v.bad else diff(results(b), results(r))
            if d: v.add("differs", "another clock: "+d)
        return v

@check
class S06(Check):
    id = "S06"; builds = ("fast", "fine"); quick = 150; thorough = 4000; quick_s = 36
    rule = "a case runs one input on a heap with other contents and layout: every access is checked against live allocations (every-access build), and result files are compared with those of a zeroed heap (block-level build); non-trivial when the run allocated"
    def fixed_cases(self, tier): return [{"run": RADIUS}]
    def gen(self, rng, tier, i):
        fine = i % 2 == 0; s = swarm(rng, fine, clock=False); s["heap_fill"] = rng.choice([0, 1, 85, 127, 170, 255]); s["heap_layout"] = rng.randrange(1, 64)
        x = rng.random()
        if x < 0.15: r = cloud_run(rng, tier); r["sim"].update(heap_fill=s["heap_fill"], heap_layout=s["heap_layout"]); r["build"] = "fine" if fine else "fast"; return {"run": r}
        kind = pick(rng, [k for k in FULL if not fine or fine_ok(k)]); o = opts(rng, kind); mseed = rng.randrange(0, 6 if not fine else 1000)
        if "extra" in o: o["extra"] = ["R_MIN = %.6g" % (float(o["extra"][0].split("=")[1])*models.Model(kind, mseed).scale)]
        if not fine: s.pop("sched", None); s["sched"] = "serial"; o["lip"] = 0.5; o["rmax"] = 1.0
        if x > 0.9: o["extra"] = o.get("extra", [])+["GENERATE_MONITORING_POINTS = true"]
        r = mk(kind, mseed, rng.choice([1, 2, 3, 4]), build="fine" if fine else "fast", **o, **s); m = core.model(r)
        if 0.75 < x < 0.85: r["files"]["monitoring_points.csv"] = monitor_text(m, rng.randrange(1 << 30)); r["files"]["vc.in"] += "IMPOSE_MONITORING_POINTS = true\n"; more(r, 3)
        if 0.65 < x < 0.75: r["files"]["sizing.csv"] = sizing_text(m, rng); r["files"]["vc.in"] += "SIZING_FILE = sizing.csv\n"; more(r, 6)
        return {"run": r}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; r = ctx.run(run); v.sig = "%s/%s/%s" % (r.n.get("trace_hash"), run["sim"].get("heap_fill"), run["sim"].get("heap_layout")); v.nontrivial = r.n.get("allocs", 0) > 0
        if r.n.get("heap_bad"): v.add("memory", "%d accesses outside live memory: %s" % (r.n["heap_bad"], heap_name(ctx, case, r.bad[0]) if r.bad else ""))
        v.extend(completed(r))
        if not v.bad and run["build"] == "fast":
            q = quiet(run, seed=1, heap_fill=0)
            q["sim"]["sched"] = run["sim"].get("sched", "serial"); 
            for k in ("mean", "p", "d"): 
                if k in run["sim"]: q["sim"][k] = run["sim"][k]
            q["sim"]["seed"] = run["sim"]["seed"]
            b = ctx.base(q); v.extend(completed(b, "the run on a zeroed heap"))
            d = None if v.bad else diff(results(b), results(r))
            if d: v.add("differs", "other memory contents: "+d)
        return v
def heap_name(ctx, case, s): return race_name(ctx, case, s)

@check
class T01(Check):
    id = "T01"; builds = ("fast", "fine", "clock"); quick = 170; thorough = 5000; quick_s = 36
    rule = "a case runs one input in a random environment with a step budget of ten times what the undisturbed run of the same input and thread count needs; non-trivial when the run did more than a thousand steps"
    def fixed_cases(self, tier): return [{"run": mk("apart", 0, 1, seed=3, max_steps=400_000_000), "known": "apart"}, {"run": TINY, "known": "tiny"}, {"run": mk("cylinder", 0, 2, lip=0.5, seed=1)}]
    def gen(self, rng, tier, i):
        r = mesh_case(rng, tier, FULL if i % 3 == 0 else MID, 0.15); m = core.model(r)
        if rng.random() < 0.15: r["files"]["monitoring_points.csv"] = monitor_text(m, rng.randrange(1 << 30), rng.choice([1, 12, 80])); r["files"]["vc.in"] += "IMPOSE_MONITORING_POINTS = true\n"; more(r, 3)
        elif rng.random() < 0.15: r["files"]["sizing.csv"] = sizing_text(m, rng); r["files"]["vc.in"] += "SIZING_FILE = sizing.csv\n"; more(r, 6)
        elif rng.random() < 0.15: r["files"]["vc.in"] += "GENERATE_MONITORING_POINTS = true\n"
        elif rng.random() < 0.15: r = cloud_run(rng, tier)
        return {"run": r}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; me = run.get("meta", {})
        if case.get("known"):
            r = ctx.run(run)
            if r.status == "budget": v.add(case["known"], "interior seeding of two disjoint bodies floods the outside and does not end" if case["known"] == "apart" else "a model in very small units is never finished", case["known"])
            else: v.extend(completed(r))
            return v
        q = quiet(run); q["sim"].pop("team", None); q["sim"]["seed"] = 1
        if run["build"] == "clock": q["sim"]["clock_base"] = run["sim"].get("clock_base", 1700000000)
        b = ctx.base(q); v.extend(completed(b, "the undisturbed run"))
        if v.bad: return v
        s = dict(run["sim"]); s["max_steps"] = int(min(b.n["steps"]*10+2e8, max(LIMIT, b.n["steps"]*3)))
        r = ctx.run(dict(run, sim=s)); v.extend(completed(r)); v.sig = str(r.n.get("trace_hash")); v.nontrivial = r.n.get("steps", 0) > 1000
        return v

# ---------------------------------------------------------------------------------------------- faults
CONFIGS = {
    # name: (builder, inputs besides vc.in)
    "mesh": lambda rng, k: mk(k, 0, 1, lip=0.5),
    "mesh2t": lambda rng, k: mk(k, 0, 2, lip=0.5),
    "nomesh": lambda rng, k: mk(k, 1, 1, lip=0.5, vcg=False),
    "split": lambda rng, k: mk("octa" if k == "ico" else k, 1, 1, lip=0.5, split=2),
    "monitor": lambda rng, k: mk(k, 0, 1, lip=0.5, extra=["GENERATE_MONITORING_POINTS = true"]),
    "batch": lambda rng, k: mk("tetra" if k == "ico" else k, 0, 1, lip=0.5, batch=4),
    "impose": None, "sizing": None, "reseed": None,
}
def config(rng, name, kind):
    if name == "impose":
        r = mk(kind, 0, 1, lip=0.5, extra=["IMPOSE_MONITORING_POINTS = true"]); r["files"]["monitoring_points.csv"] = monitor_text(core.model(r), 4); more(r, 3); return r
    if name == "sizing":
        import random as _r
        r = mk(kind, 0, 1, lip=0.5, extra=["SIZING_FILE = sizing.csv"]); r["files"]["sizing.csv"] = sizing_text(core.model(r), _r.Random(5)); more(r, 6); return r
    if name == "reseed":
        r = reseed({"seeds.csv": cloud_text(11, 60, "random")}, 1, seed=1); r["meta"] = {"kind": "box", "mseed": 0, "cloud": 1}; return r
    return CONFIGS[name](rng, kind)
FKINDS = ["ico", "ico", "ico", "tetra"]
OUTS = {"mesh": ["clean.obj", "corner_spheres.csv", "edges_spheres.csv", "surface_spheres.csv", "surface_mesh.obj", "seeds.csv", "mesh.vcg"]}
OUTS["mesh2t"] = OUTS["sizing"] = OUTS["mesh"]; OUTS["nomesh"] = OUTS["mesh"][:-1]; OUTS["split"] = ["model_combined.obj"]+OUTS["mesh"]
OUTS["batch"] = OUTS["mesh"]+["interior_spheres.csv"]
OUTS["monitor"] = OUTS["mesh"]+["monitoring_points.csv"]; OUTS["impose"] = OUTS["mesh"]+["monitoring_points_closest_seeds.csv"]; OUTS["reseed"] = ["mesh.vcg"]
INS = {"mesh": ["vc.in", "model.obj"], "split": ["vc.in", "part0.obj", "part1.obj"], "sizing": ["vc.in", "model.obj", "sizing.csv"], "impose": ["vc.in", "model.obj", "monitoring_points.csv"], "reseed": ["vc.in", "seeds.csv"]}
OLD = "# left by an earlier run\nCELLS 1\n1 0 0 0 1 1\n"
def with_old(run, names):
    """older versions of the result files are already there"""
    return dict(run, files=dict({n: OLD+n+"\n" for n in names}, **run["files"]))
def with_sim(run, **k): return dict(run, sim=dict(run["sim"], **k))
def failed_paths(r): return [p for p, s in r.path.items() if s["failed"] and p != LOG]

def whole_or_old(v, r, b, run, what):
    """every result file is the complete new version, what was there before, or absent as before"""
    for n, x in r.fs.items():
        if n == LOG or n.endswith(".tmp") or (n in run["files"] and n not in b.fs): continue
        old = run["files"].get(n)
        if n in b.fs and x == b.fs[n]: continue
        if x in b.ver.get(n, ()): continue # an earlier, complete version the same run writes
        if old is not None and x == (old if isinstance(old, bytes) else old.encode()): continue
        v.add("partial", "%s: %s is neither the complete new file nor the one from before (%d of %d bytes)" % (what, n, len(x), len(b.fs.get(n, b"")))); return
    for n in run["files"]:
        if r.fs and n not in r.fs and run["sim"].get("dump_fs") == 2: v.add("lost", "%s: %s was there before the run and is gone" % (what, n)); return

class FaultCheck(Check):
    level = "exploration"; builds = ("fast",); quick = 900; thorough = 30000; quick_s = 36
    configs = ["mesh", "mesh", "nomesh", "split", "monitor", "impose", "sizing", "reseed", "mesh2t", "batch"]
    def conf(self, rng):
        c = rng.choice(self.configs); k = rng.choice(FKINDS)
        if c in ("impose", "monitor", "sizing"): k = "tetra" if rng.random() < 0.3 else "ico"
        return c, config(rng, c, k)
    def base(self, case, ctx, v, **k):
        """the undisturbed run of the case's input in a fresh directory"""
        run = case["run"]; q = quiet(run, **k); q["sim"]["dump_fs"] = 1; q["files"] = {n: x for n, x in run["files"].items() if n not in case.get("old", [])}
        b = ctx.base(q); v.extend(completed(b, "the undisturbed run"))
        return b

@check
class D01(FaultCheck):
    id = "D01"; quick = 3000
    rule = "a case injects one fault (or a full disk) into the creation, a write, the close or the renaming of a result file of one run, at a random operation or byte, with or without older files in place; non-trivial when the fault fired on a result file"
    def gen(self, rng, tier, i):
        c, run = self.conf(rng); old = []
        if rng.random() < 0.4: old = [n for n in OUTS[c] if n not in run["files"]]; run = with_old(run, old)
        f = rng.choice(OUTS[c]); big = f in ("mesh.vcg", "seeds.csv", "surface_spheres.csv", "surface_mesh.obj"); err = rng.choice([5, 28, 122, 27])
        k = rng.choice(["enospc", "write_fail", "write_fail", "write_fail_at", "create_fail", "close_fail", "rename_fail", "write_last", "fsync_fail"])
        p = f+"*"
        if k == "enospc": fl = ["enospc * %d" % int(10**rng.uniform(0, 5.8))]
        elif k == "write_fail": fl = ["write_fail %s %d %d %d" % (p, int(10**rng.uniform(0, 3.5 if big else 1.5)), rng.choice([0, 1]), err)]
        elif k == "write_fail_at": fl = ["write_fail_at %s %d 0 %d" % (p, int(10**rng.uniform(0, 5.5 if big else 3)), err)]
        elif k == "create_fail": fl = ["create_fail %s 1 1 %d" % (p, rng.choice([13, 28, 30, 23]))]
        elif k == "close_fail": fl = ["close_fail %s 1 0 %d" % (p, err)]
        elif k == "fsync_fail": fl = ["fsync_fail %s 1 0 %d" % (p, rng.choice([5, 28]))]
        elif k == "rename_fail": fl = ["rename_fail %s 1 0 %d" % (p, rng.choice([5, 13, 28]))]
        else: fl = []
        c = {"run": with_sim(run, faults=fl, dump_fs=2), "old": old, "kind": k, "target": f, "back": rng.choice([1, 1, 2, 5, 50])}
        return c
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v)
        if v.bad: return v
        run = case["run"]
        if case["kind"] == "write_last": # one of the last bytes of the file does not reach the disk
            size = len(b.fs.get(case["target"], b"")); run = with_sim(run, faults=["write_fail_at %s* %d 0 28" % (case["target"], max(0, size-case["back"]))])
        r = ctx.run(run); fired = failed_paths(r); v.nontrivial = bool(fired); v.sig = "%s/%s/%s" % (r.n.get("io_hash"), case["kind"], case["target"])
        if r.status == "budget": v.add("hang", "the run does not end after a failed write"); return v
        if r.ok:
            if fired: v.add("success", "%s on %s and the run still exits with status zero" % (",".join(sorted(r.fault)), ",".join(fired)))
            d = diff(results(b), {n: x for n, x in results(r).items() if n in b.fs})
            if d: v.add("incomplete", "the run exits with status zero but "+d)
        else:
            if r.status != "exit": v.add("crash", "a failed write ends the run with %s" % r.outcome)
            elif not says_error(r): v.add("silent", "the run exits with status %d and prints no error" % r.rc)
            if not fired and not any("console" in k for k in r.fault): v.add("not-completed", "no result file failed but the run ended with %s" % r.outcome)
            whole_or_old(v, r, b, run, "after a failed write")
        return v

@check
class D02(FaultCheck):
    id = "D02"; configs = ["mesh", "split", "sizing", "impose", "reseed"]; quick = 3500
    rule = "a case fails opening or one read of an input file (control file, mesh, sizing, seeds, monitoring points) at some operation or byte of some pass over it; non-trivial when the fault fired"
    def gen(self, rng, tier, i):
        c = rng.choice(self.configs); k = "ico" if rng.random() < 0.8 else "tetra"; run = config(rng, c, k); f = rng.choice(INS[c]); n = len(run["files"].get(f, ""))
        if rng.random() < 0.3: run = with_old(run, [x for x in OUTS[c] if x not in run["files"]])
        old = [x for x in run["files"] if x in OUTS[c] and run["files"][x].startswith(OLD[:20])]
        x = rng.choice(["open_fail", "read_fail", "read_fail", "read_fail_at", "read_fail_at"]); err = rng.choice([5, 5, 116, 13])
        fl = ["open_fail %s %d 0 %d" % (f, rng.choice([1, 1, 2]), err)] if x == "open_fail" else ["read_fail %s %d %d %d" % (f, rng.randint(1, 6), rng.choice([0, 1]), err)] if x == "read_fail" else ["read_fail_at %s %d 0 %d" % (f, rng.choice([0, n, max(0, n-1), rng.randint(0, n)]), err)]
        return {"run": with_sim(run, faults=fl, dump_fs=2), "old": old, "target": f}
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v)
        if v.bad: return v
        run = case["run"]; r = ctx.run(run); fired = any(k in r.fault for k in ("open_fail", "read_fail")); v.nontrivial = fired; v.sig = str(r.n.get("io_hash"))
        if r.status == "budget": v.add("hang", "the run does not end after a failed read"); return v
        if r.ok:
            if fired: v.add("success", "%s on %s and the run still exits with status zero" % (",".join(sorted(r.fault)), case["target"]))
            d = diff(results(b), {n: x for n, x in results(r).items() if n in b.fs})
            if d: v.add("differs", "the run exits with status zero but "+d)
        else:
            if r.status != "exit": v.add("crash", "a failed read ends the run with %s" % r.outcome)
            elif not says_error(r): v.add("silent", "the run exits with status %d and prints no error" % r.rc)
            if not fired: v.add("not-completed", "no read failed but the run ended with %s" % r.outcome)
            x = r.fs.get("mesh.vcg"); o = run["files"].get("mesh.vcg")
            if x is not None and (o is None or x != o.encode()): v.add("meshed", "a mesh was written although %s could not be read" % case["target"])
            whole_or_old(v, r, b, run, "after a failed read")
        return v

@check
class D03(FaultCheck):
    id = "D03"; quick = 900
    rule = "a case runs one input with random short reads, short writes and interrupted calls on every file and compares all result files, the log and the outcome with the undisturbed run; non-trivial when at least one such fault fired"
    def gen(self, rng, tier, i):
        c, run = self.conf(rng)
        return {"run": with_sim(run, seed=rng.randrange(1, 1 << 30), io_short=rng.choice([0, 0.02, 0.3, 1.0]), io_eintr=rng.choice([0, 0.01, 0.2, 0.6]))}
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v)
        if v.bad: return v
        r = ctx.run(case["run"]); v.nontrivial = any(k in r.fault for k in ("short_read", "short_write", "eintr")); v.sig = str(r.n.get("io_hash"))
        if not r.ok: v.add("outcome", "short or interrupted I/O ends the run with %s" % r.outcome); return v
        d = diff(results(b), results(r))
        if d: v.add("differs", "short or interrupted I/O: "+d)
        return v
    def simpler(self, case):
        run = case["run"]
        for k in ("io_short", "io_eintr"):
            if run["sim"].get(k): yield dict(case, run=with_sim(run, **{k: 0}))

def crash_fault(rng, c):
    x = rng.random()
    if x < 0.45: return "crash_op * %d %d" % (int(10**rng.uniform(0.3, 3.7)), rng.choice([0, 1, 7, 40, 1000]))
    if x < 0.6: return "crash_step * %d" % int(10**rng.uniform(3, 7.6))
    if x < 0.8: return "powerx * %d %d %d" % (int(10**rng.uniform(0.3, 3.7)), rng.choice([0, 0, 0, 1, 5]), rng.randrange(1 << 30))
    return "power * %d %d %d" % (int(10**rng.uniform(0.3, 3.7)), rng.choice([0, 0, 1, 2, 5, 30]), rng.choice([-1, -1, 0, 50, 99]))

@check
class D04(FaultCheck):
    id = "D04"; quick = 3000
    rule = "a case kills one run at a random I/O operation (possibly mid-write) or step, or cuts the power losing the last few unsynced operations, with or without older result files in place; non-trivial when the crash came after the first output was opened"
    assumptions = ["after a power loss the disk holds a prefix of the changes of names issued; data written but not synchronised is there as a prefix, in part, or not at all", "sampling, not enumeration"]
    def gen(self, rng, tier, i):
        c, run = self.conf(rng); old = []
        if rng.random() < 0.6: old = [n for n in OUTS[c] if n not in run["files"]]; run = with_old(run, old)
        cr = crash_fault(rng, c)
        return {"run": with_sim(run, faults=[cr], dump_fs=2), "old": old, "near": rng.choice(["", "", "rename", "end"]), "off": rng.randint(-4, 4), "which": rng.randrange(100)}
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v)
        if v.bad: return v
        run = case["run"]
        if case["near"]: # around the publication of a file, or at the very end
            n = b.n["io_ops"]; k = n-abs(case["off"]) if case["near"] == "end" else max(1, int(n*(case["which"]+1)/100)+case["off"])
            f = run["sim"]["faults"][0].split()
            if f[0] != "crash_step": f[2] = str(max(1, k)); run = with_sim(run, faults=[" ".join(f)])
        r = ctx.run(run); v.nontrivial = r.status == "crash" and r.n.get("io_writes", 0) > 2; v.sig = "%s/%s" % (r.n.get("io_hash"), run["sim"]["faults"])
        whole_or_old(v, r, b, run, "after a crash" if "power" not in run["sim"]["faults"][0] else "after a power loss")
        if r.status not in ("crash", "exit"): v.add("outcome", "the run ended with %s" % r.outcome)
        elif r.status == "exit" and r.rc != 0: v.add("outcome", "the run ended with %s" % r.outcome)
        return v

@check
class D05(FaultCheck):
    id = "D05"; quick = 1000
    rule = "a case is a history of one to three runs in one directory, all but the last killed or cut off from power at random points; the last one's result files are compared with those of a run in a fresh directory; non-trivial when a crash happened after output had begun"
    def gen(self, rng, tier, i):
        c, run = self.conf(rng)
        return {"run": with_sim(run, dump_fs=2), "crashes": [crash_fault(rng, c) for _ in range(rng.choice([1, 1, 1, 2, 3]))], "reader": rng.random() < 0.3}
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v)
        if v.bad: return v
        run = case["run"]; files = dict(run["files"]); hit = 0; sig = []
        for cr in case["crashes"]:
            r = ctx.run(dict(with_sim(run, faults=[cr]), files=files)); sig.append(str(r.n.get("io_hash")))
            if r.status == "crash" and r.n.get("io_writes", 0) > 2: hit += 1
            files = {n: x for n, x in r.fs.items()}
            for n in run["files"]:
                if n not in files: v.add("input-lost", "a crashed run removed its input %s" % n); return v
                x = run["files"][n]
                if files[n] != x.encode(): v.add("input-changed", "a crashed run changed its input %s" % n); return v
        r = ctx.run(dict(run, files=files)); v.nontrivial = hit > 0; v.sig = "/".join(sig)
        v.extend(completed(r, "the rerun after a crash"))
        if not v.bad:
            d = diff({n: x for n, x in results(b).items()}, {n: x for n, x in results(r).items() if n not in run["files"]})
            if d: v.add("differs", "rerunning after a crash: "+d)
        return v
    def simpler(self, case):
        c = case["crashes"]
        if len(c) > 1:
            for i in range(len(c)): yield dict(case, crashes=c[:i]+c[i+1:])

@check
class D06(Check):
    id = "D06"; builds = ("fast", "clock"); quick = 220; thorough = 4000; quick_s = 36
    rule = "a case is a history of two runs: the first meshes a model, the second restarts from the seeds.csv it wrote, with other threads, schedules, clocks and short I/O; the two meshes are compared entity by entity; non-trivial when both wrote a mesh"
    def gen(self, rng, tier, i):
        a = mesh_case(rng, tier, FULL, 0); s = swarm(rng)
        return {"first": a, "second": dict(reseed({}, rng.choice([1, 2, 3, 4]), **s), build="fast"), "crash": rng.random() < 0.2 and "crash_op * %d 3" % int(10**rng.uniform(0, 3))}
    def evaluate(self, case, ctx):
        v = Verdict(); a = case["first"]; r = ctx.run(a); v.extend(completed(r, "the meshing run"))
        if v.bad: return v
        z = dict(case["second"], files=dict(case["second"]["files"], **{"seeds.csv": r.fs["seeds.csv"].decode()}))
        if case["crash"]: # the restart itself is interrupted once
            c = ctx.run(with_sim(z, faults=[case["crash"]], dump_fs=2)); z = dict(z, files={n: x.decode("utf-8", "replace") for n, x in c.fs.items()})
        q = ctx.run(z); v.extend(completed(q, "the restarted run")); v.sig = str(r.n.get("trace_hash"))+str(q.n.get("trace_hash"))
        if v.bad: return v
        try: v.extend(oracle.same_mesh(core.out(a, r), core.out(dict(z, meta=a["meta"]), q), regions=a["meta"]["kind"] not in ("hollow", "hollow2"))); v.nontrivial = True
        except oracle.Bad as e: v.add("file", str(e))
        return v

@check
class D07(FaultCheck):
    id = "D07"; quick = 4000
    rule = "a case makes the n-th allocation of one run (and possibly all later ones) fail, or limits the memory; non-trivial when an allocation failed"
    def gen(self, rng, tier, i):
        c, run = self.conf(rng); old = []
        if rng.random() < 0.4: old = [n for n in OUTS[c] if n not in run["files"]]; run = with_old(run, old)
        x = rng.random(); k = {}
        if x < 0.3: k = {"alloc_fail_at": int(10**rng.uniform(0, 5.9)), "alloc_fail_sticky": rng.choice([0, 0, 1])}
        elif x < 0.8: return {"run": with_sim(run, dump_fs=2, alloc_fail_sticky=rng.choice([0, 0, 1])), "old": old, "site": [rng.random(), rng.random()]} # any place of the program, at one of its occasions
        else: k = {"alloc_limit": int(10**rng.uniform(4, 6.8))}
        return {"run": with_sim(run, dump_fs=2, **k), "old": old}
    def evaluate(self, case, ctx):
        v = Verdict(); b = self.base(case, ctx, v, alloc_sites=1)
        if v.bad: return v
        run = case["run"]
        if "site" in case:
            s = sorted(b.site); n = b.site[s[int(case["site"][0]*len(s))]][1]; run = with_sim(run, alloc_fail_at=n[int(case["site"][1]*len(n))])
        r = ctx.run(run); fired = r.n.get("alloc_failed", 0) > 0; v.nontrivial = fired
        v.sig = "%s/%s/%s" % (r.n.get("trace_hash"), run["sim"].get("alloc_fail_at"), run["sim"].get("alloc_limit"))
        if r.status in ("budget", "deadlock"): v.add("hang", "the run does not end after a failed allocation")
        elif r.ok:
            d = diff(results(b), {n: x for n, x in results(r).items() if n in b.fs})
            if d: v.add("wrong", "the run exits with status zero after a failed allocation but "+d)
        else:
            if not fired: v.add("not-completed", "no allocation failed but the run ended with %s" % r.outcome)
            if r.status not in ("exit", "signal-6"): v.add("crash", "a failed allocation ends the run with %s" % r.outcome)
            whole_or_old(v, r, b, run, "after a failed allocation")
        return v

def breakage(rng):
    """an unusable input: (files, what)"""
    base = config(rng, rng.choice(["mesh", "sizing", "impose", "reseed", "split"]), "ico"); f = dict(base["files"])
    L = f["vc.in"].splitlines()
    def edit(name, fn): f[name] = fn(f[name])
    opts_ = ["no-control", "empty-control", "no-input", "missing-mesh", "control-value", "control-nonnum", "control-range", "threads"]
    if "model.obj" in f: opts_ += ["mesh-empty", "mesh-coord", "mesh-nonnum", "mesh-face-range", "mesh-face-short", "mesh-face-nonnum", "mesh-face-neg", "mesh-novert", "mesh-face-zero", "mesh-noface", "mesh-open"]
    if "sizing.csv" in f: opts_ += ["sizing-missing", "sizing-empty", "sizing-cols", "sizing-nonnum", "sizing-range"]*2
    if "monitoring_points.csv" in f: opts_ += ["mon-missing", "mon-cols", "mon-nonnum", "mon-range"]*2
    if "seeds.csv" in f: opts_ += ["seeds-missing", "seeds-empty", "seeds-cols", "seeds-nonnum", "seeds-trunc", "seeds-no-exterior", "seeds-no-interior", "seeds-range", "seeds-unbounded"]*2
    w = rng.choice(opts_)
    def cut_col(t, body=1):
        a = t.splitlines(); i = rng.randrange(body, len(a)); a[i] = ",".join(a[i].split(",")[:-1]); return "\n".join(a)+"\n"
    def bad_num(t, body=1):
        a = t.splitlines(); i = rng.randrange(body, len(a)); c = a[i].split(","); c[rng.randrange(min(len(c), 4))] = rng.choice(["abc", "", "x1.5", "-", "nan", "inf", "1e999", "."]); a[i] = ",".join(c); return "\n".join(a)+"\n"
    def obj_line(kind, fn):
        a = f["model.obj"].splitlines(); k = [i for i, l in enumerate(a) if l.startswith(kind+" ")]; i = rng.choice(k); a[i] = fn(a[i].split()); f["model.obj"] = "\n".join(a)+"\n"
    if w == "no-control": f.pop("vc.in")
    elif w == "empty-control": f["vc.in"] = rng.choice(["", "\n\n", "# nothing here\n"])
    elif w == "no-input": f["vc.in"] = "\n".join(l for l in L if not l.startswith(("INPUT_MESH", "SEEDS_FILE")))+"\n"
    elif w == "missing-mesh":
        for n in [n for n in f if n.endswith(".obj") or n == "seeds.csv"][:1]: f.pop(n)
    elif w == "control-value":
        i = rng.choice([i for i, l in enumerate(L) if "=" in l and not l.startswith(("GENERATE", "IMPOSE"))]); L[i] = L[i].split("=")[0]+rng.choice(["=", ""]); f["vc.in"] = "\n".join(L)+"\n"
    elif w == "control-nonnum":
        k = [i for i, l in enumerate(L) if l.startswith(("R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS"))]; i = rng.choice(k); L[i] = L[i].split("=")[0]+"= "+rng.choice(["abc", "none", "--", "x4", "nan", "1e999"]); f["vc.in"] = "\n".join(L)+"\n"
    elif w == "threads":
        f["vc.in"] = re.sub(r"NUM_THREADS\s*=.*", "NUM_THREADS = "+rng.choice(["0", "-1", "-4"]), f["vc.in"])
    elif w == "mesh-empty": f["model.obj"] = rng.choice(["", "\n", "# empty\n"])
    elif w == "mesh-coord": obj_line("v", lambda t: " ".join(t[:rng.choice([2, 3])]))
    elif w == "mesh-nonnum": x = rng.choice(["abc", "nan", "inf", "-1e999", "-"]); j = rng.choice([1, 2, 3]); obj_line("v", lambda t: " ".join(t[:j]+[x]+t[j+1:]))
    elif w == "mesh-face-range": obj_line("f", lambda t: "f %s %s %d" % (t[1], t[2], rng.choice([999, 10**9, 43])))
    elif w == "mesh-face-zero": obj_line("f", lambda t: "f %s 0 %s" % (t[1], t[3]))
    elif w == "mesh-face-neg": obj_line("f", lambda t: "f %s -77777 %s" % (t[1], t[3]))
    elif w == "mesh-face-short": obj_line("f", lambda t: " ".join(t[:3]))
    elif w == "mesh-face-nonnum": x = rng.choice(["q", "x/1/1", "/1", "nan"]); j = rng.choice([1, 2, 3]); obj_line("f", lambda t: " ".join(t[:j]+[x]+t[j+1:]))
    elif w == "mesh-novert": f["model.obj"] = "\n".join(l for l in f["model.obj"].splitlines() if l[0] == "f")+"\n"
    elif w == "mesh-noface": f["model.obj"] = "\n".join(l for l in f["model.obj"].splitlines() if l[0] == "v")+"\n"
    elif w == "sizing-missing": f.pop("sizing.csv")
    elif w == "sizing-empty": f["sizing.csv"] = rng.choice(["", "x1,x2,x3,sz\n"])
    elif w == "sizing-cols": edit("sizing.csv", cut_col)
    elif w == "sizing-nonnum": edit("sizing.csv", bad_num)
    elif w == "mon-missing": f.pop("monitoring_points.csv")
    elif w == "mon-cols": edit("monitoring_points.csv", cut_col)
    elif w == "mon-nonnum": edit("monitoring_points.csv", bad_num)
    elif w == "seeds-missing": f.pop("seeds.csv")
    elif w == "seeds-empty": f["seeds.csv"] = rng.choice(["", "x1,x2,x3,sizing,region\n"])
    elif w == "seeds-cols": edit("seeds.csv", cut_col)
    elif w == "seeds-nonnum": edit("seeds.csv", bad_num)
    elif w == "control-range":
        k, x = rng.choice([("R_MAX", "0"), ("R_MAX", "-0.5"), ("LIP_CONST", "0"), ("LIP_CONST", "-0.25"), ("R_MIN", "-1"), ("R_MIN", "3e9")]); L = [l for l in L if not l.startswith(k)]+["%s = %s" % (k, x)]
        if not any(l.startswith("R_MAX") for l in L): L.append("R_MAX = 0.7")
        f["vc.in"] = "\n".join(L)+"\n"
    elif w in ("sizing-range", "mon-range", "seeds-range"):
        n = {"s": "sizing.csv", "m": "monitoring_points.csv"}[w[0]] if w != "seeds-range" else "seeds.csv"; a = f[n].splitlines()
        k = [i for i in range(1, len(a)) if n != "seeds.csv" or a[i].split(",")[4].strip() != "0"]; i = rng.choice(k); c = a[i].split(","); c[3] = rng.choice([" 0", " -0.25", " -1e-9"]); a[i] = ",".join(c); f[n] = "\n".join(a)+"\n"
    elif w == "seeds-unbounded": # one of the outermost seeds is marked interior
        a = f["seeds.csv"].splitlines(); i = rng.choice([i for i, l in enumerate(a) if i and l.split(",")[4].strip() == "0"]); a[i] = ",".join(a[i].split(",")[:4]+["1"]); f["seeds.csv"] = "\n".join(a)+"\n"
    elif w in ("seeds-no-exterior", "seeds-no-interior"):
        a = f["seeds.csv"].splitlines(); f["seeds.csv"] = "\n".join(a[:1]+[l for l in a[1:] if (l.split(",")[4].strip() == "0") == (w == "seeds-no-interior")])+"\n"
    elif w == "mesh-open": a = f["model.obj"].splitlines(); k = [i for i, l in enumerate(a) if l.startswith("f ")]; drop = set(rng.sample(k, rng.choice([1, 1, 2, 5]))); f["model.obj"] = "\n".join(l for i, l in enumerate(a) if i not in drop)+"\n"
    elif w == "seeds-trunc": t = f["seeds.csv"]; a = t.splitlines(); k = rng.randrange(2, len(a)); f["seeds.csv"] = "\n".join(a[:k])+"\n"+",".join(a[k].split(",")[:rng.randint(1, 3)])
    return base, f, w

@check
class D08(Check):
    id = "D08"; builds = ("fast", "fine"); quick = 12000; thorough = 30000; quick_s = 36
    rule = "a case damages one input file (missing, empty, missing values, coordinates or columns, non-numeric numbers, faces naming unknown vertices) on random memory contents and, in part, with short and interrupted reads; non-trivial when the run reached the damaged input"
    def gen(self, rng, tier, i):
        base, f, w = breakage(rng); b = "fine" if rng.random() < 0.5 else "fast"
        s = {"heap_fill": rng.choice([0, 85, 255]), "seed": rng.randrange(1, 1 << 30), "dump_fs": 1}
        if rng.random() < 0.3: s.update(io_short=0.5, io_eintr=0.2)
        args = ["-vc", "vc.in"]
        return {"run": dict(with_sim(base, args=args, **s), files=f, build=b), "what": w}
    def evaluate(self, case, ctx):
        v = Verdict(); run = case["run"]; r = ctx.run(run); w = case["what"]; v.nontrivial = r.n.get("io_ops", 0) > 0; v.sig = "%s/%s" % (w, r.n.get("io_hash"))
        v.note["damage "+w] = 1
        if r.status == "budget" and w == "mesh-open": v.note["still sampling the open surface at the step limit"] = 1; return v # sampling an open surface can take minutes before the run refuses it
        if r.status in ("budget", "deadlock"): v.add("hang", "%s: the run does not end" % w)
        elif r.status == "stdin-wait": v.add("stdin", "%s: the run waits on standard input" % w)
        elif r.status != "exit": v.add("crash", "%s: the run ends with %s" % (w, r.outcome))
        elif r.rc == 0: v.add("success", "%s: the run exits with status zero" % w)
        elif not says_error(r): v.add("silent", "%s: the run prints no error" % w)
        if r.n.get("heap_bad"): v.add("memory", "%s: %d accesses outside live memory: %s" % (w, r.n["heap_bad"], race_name(ctx, case, r.bad[0]) if r.bad else ""))
        if "mesh.vcg" in r.fs: v.add("meshed", "%s: a mesh was written" % w)
        return v

@check
class D09(FaultCheck):
    id = "D09"; quick = 1200
    rule = "a case runs one input with the log or the console failing at some operation (or neither, in a random environment); non-trivial when the fault fired, or the log was compared with the console"
    def gen(self, rng, tier, i):
        c, run = self.conf(rng); x = rng.choice(["none", "none", "open", "write", "write", "full", "console", "both", "short", "refused", "failing", "killed", "killed"]); s = {}
        if x == "killed": return {"run": with_sim(run, dump_fs=2, faults=[rng.choice(["crash_op * %d 3" % int(10**rng.uniform(0, 3)), "crash_step * %d" % int(10**rng.uniform(4, 7.7))])]), "what": x}
        if x == "refused": base, f, w = breakage(rng); return {"run": dict(with_sim(base, dump_fs=2), files=f), "what": x, "damage": w}
        if rng.random() < 0.3: run = dict(run, files=dict(run["files"], **{LOG: "the log of an earlier run\n"*rng.choice([1, 2000])})) # longer or shorter than the new one
        if x == "none": s = swarm(rng); s.pop("io_short", None); s.pop("io_eintr", None); s.pop("team", None); s["sched"] = "serial"
        if x == "open": s["faults"] = ["open_fail %s 1 0 %d" % (LOG, rng.choice([13, 30, 28]))]
        if x in ("write", "both"): s["faults"] = ["write_fail %s %d %d %d" % (LOG, rng.randint(1, 80), rng.choice([0, 1]), rng.choice([5, 28]))]
        if x == "full": s["faults"] = ["write_fail_at %s %d 0 28" % (LOG, int(10**rng.uniform(0, 3.5)))]
        if x in ("console", "both"): s["faults"] = s.get("faults", [])+["console_fail * %d" % int(10**rng.uniform(0, 2.5))]
        if x == "failing": s["faults"] = ["%s %s* 1 1 28" % (rng.choice(["write_fail", "create_fail", "rename_fail"]), rng.choice(OUTS[c]))] # the message about it belongs in the log too
        if x == "short": s.update(io_short=0.5, io_eintr=0.2, seed=rng.randrange(1, 1 << 30))
        return {"run": with_sim(run, **s), "what": x}
    def evaluate(self, case, ctx):
        v = Verdict(); x = case["what"]
        if x == "killed":
            r = ctx.run(case["run"]); v.sig = "killed/%s" % r.n.get("io_hash")
            if r.status != "crash": return v
            v.nontrivial = True; log = r.fs.get(LOG, b"").decode("utf-8", "replace"); a, b = sorted((log, r.console), key=len)
            if not b.startswith(a): v.add("log", "when the run is killed, the log and the console are not the same text")
            elif b[len(a):].count("\n") > 15: v.add("log-behind", "when the run is killed, %s holds %d lines that %s lacks" % (("the console", b[len(a):].count("\n"), "the log") if len(log) < len(r.console) else ("the log", b[len(a):].count("\n"), "the console")))
            return v
        if x in ("refused", "failing"):
            r = ctx.run(case["run"]); v.sig = "%s/%s" % (case.get("damage", x), r.n.get("io_hash"))
            if r.status == "exit": v.nontrivial = True; self.same(v, r)
            return v
        b = self.base(case, ctx, v)
        if v.bad: return v
        run = case["run"]; r = ctx.run(run); v.sig = "%s/%s" % (x, r.n.get("io_hash"))
        if not r.ok: v.add("outcome", "with a failing log or console (%s) the run ends with %s" % (x, r.outcome)); return v
        d = diff(results(b), results(r))
        if d: v.add("differs", "with a failing log or console (%s): %s" % (x, d))
        v.nontrivial = x in ("none", "short") or bool(r.fault)
        if x in ("none", "short"): self.same(v, r)
        return v
    def same(self, v, r):
        log = r.fs.get(LOG)
        if log is None: v.add("no-log", "no log was written")
        elif log.decode("utf-8", "replace") != r.console:
            log = log.decode("utf-8", "replace"); i = next((i for i, (p, q) in enumerate(zip(log, r.console)) if p != q), min(len(log), len(r.console)))
            v.add("log", "the log differs from the console at character %d of %d: %r / %r" % (i, len(r.console), log[i:i+60], r.console[i:i+60]))
