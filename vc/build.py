"""Builds the simulated vc_mesh from /repo's working tree: every source of src/Meshing is compiled
unchanged (hooks on) and linked against the simulator instead of libgomp, libtsan and the C library's
file, clock and thread calls.  Objects are cached by content in /verif/.build (ignored by git)."""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.environ.get("VC_BUILD", os.path.join(VERIF, ".build"))
MPI = ["-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
SIMFLAGS = ["-std=c++17", "-O3", "-g1", "-fno-builtin", "-fno-pie", "-w"]
COMMON = ["-Wno-unknown-pragmas", "-fopenmp", "-O2", "-g1", "-DVC_SIM_HOOKS", "-std=c++11", "-fno-pie", "-w", "-Dmain=vc_main"]
VARIANTS = {
    # every memory access is a scheduling point and is checked; fixed random seed
    "fine": ["-DFIXED_RNG_SEED", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"],
    # every basic block is a scheduling point; fixed random seed
    "fast": ["-DFIXED_RNG_SEED", "-fsanitize-coverage=trace-pc"],
    # the shipped configuration: random seed derived from the clock
    "clock": ["-fsanitize-coverage=trace-pc"],
}
LINK = ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lmpi_cxx", "-lmpi", "-llapack", "-lblas", "-lgfortran", "-lpthread", "-ldl"]

class BuildError(Exception): pass

def _read(p):
    with open(p, "rb") as f: return f.read()

def _config(src, inc):
    """the headers the project's CMake configuration generates"""
    names = {"VOROCRUST_HAVE_KOKKOS_VAR": "NO_KOKKOS", "VOROCRUST_HAVE_KOKKOSKERNELS_VAR": "NO_KOKKOSKERNELS", "VOROCRUST_USE_EXODUS_VAR": "NO_EXODUS",
             "VOROCRUST_HAVE_MPICXX_VAR": "USE_MPI", "VOROCRUST_HAVE_OPENMP_VAR": "USE_OPEN_MP", "VOROCRUST_HAVE_LAPACK_VAR": "NO_LAPACK"}
    os.makedirs(inc, exist_ok=True)
    for t in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.h.in"), recursive=True) + glob.glob(os.path.join(REPO, "*.h.in"))):
        data = re.sub(r"@(\w+)@", lambda m: names.get(m.group(1), "UNKNOWN"), _read(t).decode("utf-8", "replace")).encode()
        dst = os.path.join(inc, os.path.basename(t)[:-3])
        if not os.path.exists(dst) or _read(dst) != data:
            with open(dst, "wb") as f: f.write(data)

def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout

def build(variants):
    """returns {variant: binary path}"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(variants)

def _build(variants):
    src = os.path.join(REPO, "src", "Meshing")
    inc = os.path.join(BUILD, "inc"); _config(src, inc)
    hh = hashlib.sha256()
    for h in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.h*"), recursive=True)) + sorted(glob.glob(os.path.join(inc, "*.h"))):
        hh.update(h.encode() + b"\0" + _read(h))
    hh = hh.hexdigest()
    sources = sorted(glob.glob(os.path.join(src, "*.cpp"))) + [os.path.join(src, "vc_mesh.cxx")]
    sim = sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp")))
    simh = hashlib.sha256(_read(os.path.join(VERIF, "sim", "rt.h"))).hexdigest()
    obj = os.path.join(BUILD, "obj"); os.makedirs(obj, exist_ok=True)
    jobs = []
    def want(name, cmd, key):
        o = os.path.join(obj, "%s-%s.o" % (name, hashlib.sha256(key.encode()).hexdigest()[:24]))
        if not os.path.exists(o): jobs.append((cmd, o))
        return o
    simo = [want("sim_" + os.path.basename(s), ["g++"] + SIMFLAGS + ["-c", s], "|".join(SIMFLAGS) + simh + hashlib.sha256(_read(s)).hexdigest()) for s in sim]
    objs = {}
    for v in variants:
        fl = COMMON + VARIANTS[v] + ["-I" + src, "-I" + os.path.join(REPO, "src"), "-I" + inc] + MPI
        objs[v] = []
        for s in sources:
            body = _read(s)
            k, extra = v, VARIANTS[v]
            if v == "clock" and b"FIXED_RNG_SEED" not in body and FIXED_IN_HEADERS() is False:
                k, extra = "fast", VARIANTS["fast"] # identical object either way
                fl = COMMON + extra + ["-I" + src, "-I" + os.path.join(REPO, "src"), "-I" + inc] + MPI
            else: fl = COMMON + VARIANTS[v] + ["-I" + src, "-I" + os.path.join(REPO, "src"), "-I" + inc] + MPI
            objs[v].append(want(k + "_" + os.path.basename(s), ["g++"] + fl + ["-c", s], "|".join(fl) + hh + s + hashlib.sha256(body).hexdigest()))
    def compile1(j):
        cmd, o = j; tmp = o + ".%d.tmp" % os.getpid()
        _sh(cmd + ["-o", tmp]); os.rename(tmp, o)
    jobs = list({o: (c, o) for c, o in jobs}.values())
    jobs.sort(key=lambda j: -os.path.getsize(j[0][-1]))
    with ThreadPoolExecutor(max(1, len(os.sched_getaffinity(0)))) as ex: list(ex.map(compile1, jobs))
    out = {}
    sk = hashlib.sha256("".join(simo).encode()).hexdigest()[:16]
    simall = os.path.join(obj, "sim-%s.o" % sk)
    if not os.path.exists(simall):
        _sh(["ld", "-r", "--force-group-allocation", "-o", simall + ".0"] + simo)
        weak = [l.split()[2] for l in _sh(["nm", simall + ".0"]).decode().splitlines() if len(l.split()) == 3 and l.split()[1] in "WVu"]
        with open(simall + ".weak", "w") as f: f.write("\n".join(weak) + "\n")
        _sh(["objcopy", "--localize-symbols=" + simall + ".weak", simall + ".0", simall + ".1"]); os.rename(simall + ".1", simall)
    def link1(v):
        key = hashlib.sha256(("|".join(objs[v]) + simall + "|".join(LINK)).encode()).hexdigest()[:24]
        b = os.path.join(BUILD, "vc_%s-%s" % (v, key))
        if not os.path.exists(b):
            _sh(["g++", "-o", b + ".tmp"] + objs[v] + [simall] + LINK); os.rename(b + ".tmp", b)
        return v, b
    with ThreadPoolExecutor(4) as ex: out = dict(ex.map(link1, variants))
    _trim()
    return out

_fih = None
def FIXED_IN_HEADERS():
    global _fih
    if _fih is None:
        _fih = any(b"FIXED_RNG_SEED" in _read(h) for h in glob.glob(os.path.join(REPO, "src", "**", "*.h*"), recursive=True))
    return _fih

def _trim(limit=2 << 30):
    """keep the cache from growing without bound across many trees"""
    fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(os.path.join(BUILD, "obj", "*")) + glob.glob(os.path.join(BUILD, "vc_*"))]
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit: break
        try: os.remove(p); tot -= s
        except OSError: pass

if __name__ == "__main__":
    print(build(sys.argv[1:] or list(VARIANTS)))
