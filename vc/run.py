"""One simulated execution: scenario in, recorded history out."""
import hashlib, json, os, pickle, shutil, subprocess, tempfile, fcntl, time

class InfraError(Exception): pass
class TooLong(Exception):
    """the run used up the wall clock of this machine: nothing is known about it"""

class Result:
    """what one simulated run did: status, counters, console text and the disk it left behind"""
    def __init__(self): self.n = {}; self.races = []; self.bad = []; self.sev = []; self.team = {}; self.mode = {}; self.path = {}; self.fault = {}; self.event = []; self.fs = {}; self.console = ""; self.wall = 0; self.cov = None; self.ver = {}; self.site = {}; self.share = 0
    @property
    def ok(self): return self.status == "exit" and self.rc == 0
    @property
    def outcome(self): return "%s/%s" % (self.status, self.rc)
    def hash(self): return "%s-%s-%s" % (self.n.get("trace_hash"), self.n.get("io_hash"), hashlib.sha256(repr((self.status, self.rc, sorted((k, hashlib.sha256(v).hexdigest()) for k, v in self.fs.items()))).encode()).hexdigest()[:16])

def scenario(sim, outdir, filedir, files):
    L = []
    for k, v in sim.items():
        if k == "args": L += ["arg " + a for a in v]
        elif k == "faults": L += ["fault " + f for f in v]
        elif k == "sev": L += ["sev " + (e if isinstance(e, str) else " ".join(map(str, e))) for e in v]
        elif k in ("win", "fill"): L.append("%s %d %d" % (k, *v))
        elif k == "record":
            if v: L.append("record")
        else: L.append("%s %s" % (k, v))
    if "args" not in sim: L += ["arg -vc", "arg vc.in"]
    L.append("out " + outdir)
    L += ["file %s %s/%s" % (n, filedir, n.replace("/", "@")) for n in files]
    return "\n".join(L) + "\n"

def parse(text, r):
    for line in text.splitlines():
        k, _, v = line.partition(" ")
        if k == "race": r.races.append(v)
        elif k == "bad": r.bad.append(v)
        elif k == "site": w = v.split(); r.site[int(w[0], 16)] = (int(w[1]), [int(x) for x in w[2:]])
        elif k == "sev": r.sev.append(v)
        elif k == "event": r.event.append(v)
        elif k in ("team", "mode", "fault"):
            a, b = v.rsplit(" ", 1); getattr(r, k)[a] = getattr(r, k).get(a, 0) + int(b)
        elif k == "path":
            w = v.rsplit(" ", 6); r.path[w[0]] = dict(zip(("opens", "reads", "writes", "bytes", "closes", "failed"), map(int, w[1:])))
        elif k == "status": r.status = v
        elif k == "rc": r.rc = int(v)
        else: r.n[k] = int(v) if v.lstrip("-").isdigit() and not k.endswith("hash") else v

def execute(binary, run, scratch, timeout=400, cpu=None):
    """run = {"files": {name: text}, "sim": {...}}"""
    d = tempfile.mkdtemp(dir=scratch)
    try:
        os.mkdir(d + "/in"); os.mkdir(d + "/out")
        for n, data in run["files"].items():
            with open(d + "/in/" + n.replace("/", "@"), "wb") as f: f.write(data if isinstance(data, bytes) else data.encode())
        with open(d + "/sc", "w") as f: f.write(scenario(run["sim"], d + "/out", d + "/in", run["files"]))
        cmd = [binary, d + "/sc"]
        if cpu is not None: cmd = ["taskset", "-c", str(cpu)] + cmd
        t = time.time()
        try: p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired: raise TooLong("simulated run exceeded %d s of wall time" % timeout)
        rt = d + "/out/result.txt"
        if not os.path.exists(rt): raise InfraError("no result from the simulator (rc %s): %s" % (p.returncode, p.stdout.decode(errors="replace")[-500:]))
        r = Result(); r.wall = time.time() - t
        with open(rt) as f: parse(f.read(), r)
        if r.n.get("end") != 1: raise InfraError("truncated simulator result")
        with open(d + "/out/console.txt", errors="replace") as f: r.console = f.read()
        if os.path.exists(d + "/out/cov.txt"):
            with open(d + "/out/cov.txt") as f: r.cov = set(f.read().split())
        fs = d + "/out/fs"
        if os.path.isdir(fs):
            for n in os.listdir(fs):
                with open(fs + "/" + n, "rb") as f: r.fs[n.replace("@", "/")] = f.read()
        for n in os.listdir(d + "/out"):
            if n.startswith("ver"):
                with open(d + "/out/" + n, "rb") as f: r.ver.setdefault(n.split("_", 1)[1].replace("@", "/"), []).append(f.read())
        return r
    finally: shutil.rmtree(d, ignore_errors=True)

class Ctx:
    """runs scenarios for one check; fault-free baselines are shared between worker processes"""
    def __init__(self, bins, scratch, cpu=None, cache=True):
        self.bins, self.scratch, self.cpu, self.cache = bins, scratch, cpu, cache; self.log = []
    def _do(self, run):
        r = execute(self.bins[run.get("build", "fast")], run, self.scratch, cpu=self.cpu)
        r.share = r.n.get("steps", 0)/max(1, run["sim"].get("max_steps", 1 << 62)) if r.status == "exit" and r.rc == 0 else 0
        self.log.append(r); return r
    def run(self, run): return self._do(run)
    def base(self, run):
        """memoised run: the same scenario is executed once per check"""
        if not self.cache: return self._do(run)
        key = hashlib.sha256(json.dumps(run, sort_keys=True, default=lambda b: b.hex()).encode()).hexdigest()[:32]
        p = os.path.join(self.scratch, "base-" + key)
        with open(p + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if os.path.exists(p):
                with open(p, "rb") as f: return pickle.load(f)
            r = self._do(run)
            with open(p + ".tmp", "wb") as f: pickle.dump(r, f)
            os.rename(p + ".tmp", p); return r
