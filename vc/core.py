"""What the checks share: building runs, comparing recorded histories, the Check base class."""
import random, re
from . import models, oracle

LOG = "VoroCrustLog.txt"
# simulated steps a fault-free run of each model needs (basic blocks; measured, rounded up over seeds and sizes)
STEPS = {"quad": 2.5e9, "spike": 1e9, "notch": 2e9, "fin": 2e9, "cylinder": 600e6, "cone": 1e9, "tetra": 350e6, "octa": 400e6, "ico": 60e6, "box": 900e6, "pyramid": 400e6, "prism3": 500e6, "frustum": 500e6, "wedge": 600e6,
         "twobox": 900e6, "sidebox": 1.1e9, "lshape": 1.2e9, "stack3": 1.7e9, "slab": 1.4e9, "hollow": 2.2e9, "hollow2": 3.4e9, "apart": 2.5e9, "foam": 3e9}
COST = {"quad": 8, "spike": 4, "notch": 8, "fin": 6, "cylinder": 3, "cone": 2, "tetra": 1, "octa": 1.3, "ico": 0.2, "pyramid": 2, "prism3": 2, "box": 2.3, "wedge": 2.2, "frustum": 2.5, "twobox": 3.2, "sidebox": 4.5, "lshape": 5, "slab": 5, "stack3": 7, "hollow": 9, "hollow2": 13, "foam": 10}
class _ByKind(dict):
    """a face cut into k*k costs more to prepare, not to mesh"""
    def __missing__(self, kind):
        b = models.base_kind(kind)
        if b == kind: raise KeyError(kind)
        return self[b]*(1+0.04*models.cuts(kind)**2)
STEPS, COST = _ByKind(STEPS), _ByKind(COST)
SMALL = ["tetra", "octa", "ico", "pyramid", "prism3", "box", "wedge"]
MID = SMALL + ["frustum", "twobox", "sidebox", "spike", "cylinder", "cone"]
FULL = MID + ["quad", "lshape", "slab", "stack3", "hollow", "fin", "notch"]

LIMIT = 30e9 # no run gets more steps: about five minutes
def budget(kind): return int(min(LIMIT, 20*STEPS[kind], 4e9+6*STEPS[kind]))
def more(run, k):
    """the options of this run make it k times longer"""
    run["sim"]["max_steps"] = int(min(LIMIT, run["sim"]["max_steps"]*k))

def pick(rng, kinds, p_cut=0.15, p_flip=0.12):
    """a model kind, small ones more often"""
    w = [1/(0.5+COST[k]) for k in kinds]
    k = rng.choices(kinds, w)[0]
    if rng.random() < p_cut and k != "quad": # the same surface given by more triangles
        k += "*%d" % rng.choice([2, 2, 3, 3, 4, 9] if COST[k] < 3 else [2, 3])
    if rng.random() < p_flip: k += "~" # listed without regard to orientation
    if rng.random() < 0.06: k += rng.choice(["@1e3", "@1e5", "@1e6"]) # in other units
    return k

def sim(seed=1, **k):
    d = {"seed": seed, "scale": 0.01, "sched": "serial", "dump_fs": 1}
    d.update(k); return d

def mk(kind, mseed=0, threads=1, lip=0.5, extra=(), files=None, build="fast", split=0, vcg=True, rmax=1.0, **s):
    """a vc_mesh run on a generated model"""
    m = models.Model(kind, mseed)
    f = {"vc.in": models.control(m, threads, lip=lip, extra=list(extra), vcg=vcg, rmax=m.rmax*rmax)}
    if split:
        parts = m.split(split); f["vc.in"] = f["vc.in"].replace("INPUT_MESH_FILE = model.obj", "\n".join("INPUT_MESH_FILE = part%d.obj" % i for i in range(len(parts))))
        for i, p in enumerate(parts): f["part%d.obj" % i] = p
    else: f["model.obj"] = m.obj()
    f.update(files or {})
    d = sim(**s); d.setdefault("max_steps", budget(kind))
    if "mean" in d: d["mean"] = max(d["mean"], int(60*COST.get(kind, 9)**1.5)) # long runs switch less often
    return {"build": build, "files": f, "sim": d, "meta": {"kind": kind, "mseed": mseed, "threads": threads, "lip": lip, "rmax": m.rmax*rmax}}

def dress(rng, run):
    """the same input written another way: comments, blank lines, normals, line ends, order of records, repeated vertices"""
    f = run["files"]; how = rng.choice(["comments", "crlf", "slashes", "soup", "mixed", "columns"])
    if "model.obj" in f:
        L = f["model.obj"].splitlines(); vs = [l for l in L if l[0] == "v"]; fs = [l for l in L if l[0] == "f"]
        if how == "soup": # every face brings its own vertices
            nv, nf = [], []
            for l in fs: w = l.split()[1:4]; nv += [vs[int(a)-1] for a in w]; nf.append("f %d %d %d" % (len(nv)-2, len(nv)-1, len(nv)))
            vs, fs = nv, nf
        if how == "slashes": vs += ["vn 0 0 1", "vt 0.5 0.5"]; fs = ["f "+" ".join(rng.choice([a, a+"/1", a+"//1", a+"/1/1"]) for a in l.split()[1:]) for l in fs]
        if how == "columns": vs = [l+" 0.5 0.25 1" for l in vs]; fs = [l.replace(" ", "\t ") for l in fs]
        L = vs+fs
        if how == "mixed": # faces before the vertices they name
            j = rng.randrange(len(vs)); L = fs[:len(fs)//2]+vs[:j]+fs[len(fs)//2:]+vs[j:]
        if how in ("comments", "mixed"):
            for x in ("# v 1 2 3", "", "g body", "usemtl none", "#f 1 2 3", "   ", "s off", "vp 1 2"): L.insert(rng.randrange(len(L)+1), x)
        f["model.obj"] = ("\r\n" if how == "crlf" else "\n").join(L)+("" if how == "comments" else "\n")
    L = f["vc.in"].splitlines()
    if how == "crlf": f["vc.in"] = "\r\n".join(L)+"\r\n"
    if how == "mixed" and "part0.obj" not in f: rng.shuffle(L); f["vc.in"] = "\n\n".join(L)+"\n"
    if how == "comments": f["vc.in"] = "\n# a comment\n\n"+"\n".join(l.replace("=", "  = \t")+"   # as before" for l in L)+"\n"
    for n in ("sizing.csv", "monitoring_points.csv", "seeds.csv"):
        if n in f and how == "crlf": f[n] = f[n].replace("\n", "\r\n")
        if n in f and how == "comments": f[n] = f[n].replace(",", " , ").rstrip("\n")+"\n\n  \n"
        if n in f and how == "columns": f[n] = f[n].rstrip("\n") # no line end at the end
    run["meta"]["dress"] = how; return run

def reseed(files, threads, seeds_name="seeds.csv", **s):
    """a vc_mesh run restarted from a seeds file"""
    f = {"vc.in": "SEEDS_FILE = %s\nGENERATE_MESH_FROM_SEEDS = true\nGENERATE_VCG_FILE = true\nNUM_THREADS = %d\n" % (seeds_name, threads)}
    f.update(files); d = sim(**s); d.setdefault("max_steps", LIMIT)
    d["max_steps"] = int(d["max_steps"]); return {"build": s.pop("build", "fast") if "build" in s else "fast", "files": f, "sim": d}

def model(run): return models.Model(run["meta"]["kind"], run["meta"]["mseed"])
def out(run, r):
    """what a run left on disk; files it only read or rewrote unchanged count too"""
    fs = {n: x if isinstance(x, bytes) else x.encode() for n, x in run["files"].items()}
    return oracle.Out(model(run), r, dict(fs, **r.fs))
def quiet(run, **k):
    """the same run without schedule, faults or clock games"""
    s = {a: b for a, b in run["sim"].items() if a in ("seed", "args", "scale", "max_steps", "dump_fs", "team", "batch")}
    s["sched"] = "serial"; s.update(k)
    return dict(run, sim=s)

def results(r): return {n: b for n, b in r.fs.items() if n != LOG and not n.endswith(".tmp")}

def diff(a, b, names=None):
    """first difference between two sets of result files"""
    for n in sorted(set(a) | set(b)):
        if names is not None and n not in names: continue
        if n not in b: return "%s is missing" % n
        if n not in a: return "%s appears" % n
        if a[n] != b[n]:
            x, y = a[n].splitlines(), b[n].splitlines()
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q: return "%s differs at line %d: %s / %s" % (n, i+1, p[:80].decode(errors="replace"), q[:80].decode(errors="replace"))
            return "%s has %d lines instead of %d" % (n, len(y), len(x))
    return None

ERRTXT = re.compile(r"error|fail|could ?n|can ?not|can't|unable|invalid|missing|malformed|exception|terminat|unknown|abort|no such|not found|denied|full|bad_alloc|\*\*\*", re.I)
def says_error(r, base=None):
    t = r.console
    t = t[t.find("Website"):] if "Website" in t else t
    return bool(ERRTXT.search(t))

def completed(r, what="the run"):
    """violations of a fault-free run that did not finish normally"""
    if r.ok: return []
    if r.status == "budget": return [("hang", "%s did not end within its step budget (%d steps)" % (what, r.n["steps"]))]
    if r.status == "deadlock": return [("deadlock", "%s deadlocked" % what)]
    tail = r.console.strip().splitlines()[-1:] or [""]
    return [("not-completed", "%s ended with %s (%s)" % (what, r.outcome, tail[0][:120]))]

def rand_batch(rng, p=0.25):
    """how many interior spheres are kept outside the tree (the code's 1000 per thread are more than small models have)"""
    return {"batch": int(10**rng.uniform(0, 2.3))} if rng.random() < p else {}

SCHEDS = ["rand", "pct", "order", "stall", "mix"]
def rand_sched(rng, fine=False):
    s = rng.choice(SCHEDS + (["conflict", "conflict"] if fine else []))
    d = {"sched": s, "mean": int(10**rng.uniform(1.3, 5)), "d": rng.randint(1, 8), "p": round(10**rng.uniform(-3, 0), 5)}
    return d
def rand_team(rng):
    x = rng.random()
    return "full 0" if x < 0.6 else "cap %d" % rng.randint(1, 3) if x < 0.85 else "rand 0"
CLOCKS = ["steady", "skew", "jumpy", "backwards", "frozen", "slow"]
def rand_clock(rng): return {"clock": rng.choice(CLOCKS), "clock_base": rng.choice([0, 1, 951782400, 1700000000, 2147483646, 2147483648, 4102444800, rng.randint(0, 4*10**9)])}
def swarm(rng, fine=False, team=True, clock=True):
    """a random environment: schedule, delivered teams, clock, heap contents"""
    d = {"seed": rng.randrange(1, 1 << 30)}; d.update(rand_sched(rng, fine))
    if team: d["team"] = rand_team(rng)
    if clock and rng.random() < 0.5: d.update(rand_clock(rng))
    if rng.random() < 0.3: d["heap_fill"] = rng.choice([0, 85, 170, 255]); d["heap_layout"] = rng.randrange(0, 64)
    if rng.random() < 0.2: d["io_short"] = 0.3; d["io_eintr"] = 0.1
    return d

class Check:
    id = None; builds = ("fast",); level = "exploration"; rule = ""; quick = 60; thorough = 1500; quick_s = 36; thorough_s = 780
    fixed = () # cases every run starts with
    def gen(self, rng, tier, i): raise NotImplementedError
    def evaluate(self, case, ctx): raise NotImplementedError
    def simpler(self, case):
        """candidate simplifications of a failing case, most radical first"""
        for name in ("run", "first", "second"):
            if name not in case or not isinstance(case[name], dict): continue
            run = case[name]; s = run["sim"]
            def var(**k):
                n = dict(s)
                for a, b in k.items():
                    if b is None: n.pop(a, None)
                    else: n[a] = b
                return dict(case, **{name: dict(run, sim=n)})
            for k in ("io_short", "io_eintr", "heap_fill", "heap_layout", "clock", "clock_base", "alloc_limit", "batch"):
                if k in s and not (k in ("io_short", "io_eintr") and self.id == "D03"): yield var(**{k: None})
            if s.get("sched", "serial") != "serial": yield var(sched="serial", sev=None, record=None, win=None)
            if s.get("team", "full 0") != "full 0": yield var(team=None)
            if len(s.get("faults", [])) > 1:
                for i in range(len(s["faults"])): yield var(faults=s["faults"][:i]+s["faults"][i+1:])

class Verdict:
    def __init__(self): self.bad = []; self.nontrivial = False; self.sig = ""; self.note = {}
    def add(self, cls, msg, key=None): self.bad.append((cls, msg, key))
    def extend(self, l):
        for c, t in l: self.add(c, t)
