"""Runs a check: generates cases from one seed, executes them on simulated workers pinned to CPUs,
gates, minimises and reports violations, writes the evidence file."""
import json, os, random, shutil, sys, tempfile, time, hashlib, traceback, multiprocessing as mp, queue
from . import build, run, core

VERIF = build.VERIF
HERE = {}

def case_key(case): return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]

def evaluate(check, case, bins, scratch, cpu=None, cache=True):
    ctx = run.Ctx(bins, scratch, cpu, cache)
    v = check.evaluate(case, ctx)
    return v, ctx.log

def summary(log):
    """what the runs of one case amount to, for the evidence"""
    a = {"runs": len(log), "steps": 0, "sim_ns": 0, "regions": 0, "switches": 0, "preemptions": 0, "io_ops": 0, "io_writes": 0, "io_reads": 0, "allocs": 0, "par_accesses": 0, "conflict_accesses": 0, "short_teams": 0, "clock_calls": 0}
    f, m, t, st, hs, wall = {}, {}, {}, {}, set(), 0
    for r in log:
        for k in a:
            if k != "runs": a[k] += r.n.get(k, 0)
        for s, d in ((r.fault, f), (r.mode, m), (r.team, t)):
            for k, n in s.items(): d[k] = d.get(k, 0)+n
        if r.n.get("alloc_failed"): f["alloc_fail"] = f.get("alloc_fail", 0)+r.n["alloc_failed"]
        if r.n.get("short_teams"): f["short_team"] = f.get("short_team", 0)+r.n["short_teams"]
        if r.n.get("stall_regions"): f["stalled_thread"] = f.get("stalled_thread", 0)+r.n["stall_regions"]
        st[r.outcome] = st.get(r.outcome, 0)+1
        hs.add(r.n.get("sched_hash")); wall += r.wall
    return {"n": a, "fault": f, "mode": m, "team": t, "status": st, "share": max([r.share for r in log], default=0), "sched": sorted(map(str, hs)), "trace": [str(r.n.get("trace_hash"))+str(r.n.get("io_hash")) for r in log], "wall": wall}

def _worker(check, bins, scratch, cpu, inq, outq, deadline):
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    if cpu is not None:
        try: os.sched_setaffinity(0, {cpu})
        except OSError: pass
    while True:
        try: i, case = inq.get(timeout=0.2)
        except queue.Empty: continue
        if case is None: return
        if time.time() > deadline: outq.put((i, "skip", None)); continue
        try:
            v, log = evaluate(check, case, bins, scratch, cpu)
            outq.put((i, "ok", (v.bad, v.nontrivial, v.sig, v.note, [r.hash() for r in log], summary(log))))
        except run.TooLong: outq.put((i, "skip", None))
        except run.InfraError as e: outq.put((i, "infra", str(e)))
        except Exception: outq.put((i, "infra", traceback.format_exc()))

def known():
    K = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                w = l[6:].strip().split(None, 2); d = dict(x.split("=", 1) for x in w[:2]); K.append((d["property"], d["key"], w[2] if len(w) > 2 else ""))
    return K

def minimise(check, case, cls, bins, scratch, limit):
    """greedy: take any simplification that still shows the same class of violation"""
    end = time.time()+limit; tried = 0; ctx_kw = dict(bins=bins, scratch=scratch)
    def fails(c):
        nonlocal tried; tried += 1
        try: v, log = evaluate(check, c, cache=True, **ctx_kw)
        except Exception: return None
        return any(b[0] == cls and b[2] is None for b in v.bad) and (v, log)
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in check.simpler(case):
            if time.time() > end: break
            if fails(c): case = c; progress = True; break
    # the schedule: replace the random scheduler by the decisions it took, then drop decisions
    run_ = case.get("run")
    if isinstance(run_, dict) and run_["sim"].get("sched", "serial") not in ("serial", "explicit") and time.time() < end:
        rec = dict(case, run=dict(run_, sim=dict(run_["sim"], record=1)))
        try: v, log = evaluate(check, rec, cache=False, **ctx_kw)
        except Exception: return case, tried
        sev = max((r.sev for r in log), key=len, default=[])
        s = {k: x for k, x in run_["sim"].items() if k not in ("mean", "p", "d", "win", "record")}
        # halve the window of parallel regions first: most schedules need one region only
        def with_events(e): return dict(case, run=dict(run_, sim=dict(s, sched="explicit", sev=e)))
        if 0 < len(sev) < 400000 and fails(with_events(sev)):
            regs = {}
            for e in sev: regs.setdefault(int(e.split()[0]), []).append(e)
            units = [regs[k] for k in sorted(regs)]
            units = ddmin(units, lambda u: bool(fails(with_events([e for x in u for e in x]))), end)
            flat_ = [[e] for x in units for e in x]
            if time.time() < end: flat_ = ddmin(flat_, lambda u: bool(fails(with_events([e for x in u for e in x]))), end)
            sev = [e for x in flat_ for e in x]; case = with_events(sev)
    return case, tried

def ddmin(units, fails, end):
    n = 2
    while len(units) >= 2 and time.time() < end:
        k = max(1, len(units)//n); done = False
        for i in range(0, len(units), k):
            if time.time() > end: return units
            c = units[:i]+units[i+k:]
            if c and fails(c): units = c; n = max(n-1, 2); done = True; break
        if not done:
            if k == 1: break
            n = min(len(units), n*2)
    return units

def replay_file(check, case, cls, msg, hashes, tried):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (check.id, cls, case_key(case)[:8]))
    with open(p, "w") as f: json.dump({"property": check.id, "class": cls, "message": msg, "hashes": hashes, "minimisation_runs": tried, "case": case}, f, indent=1)
    return p

def run_check(check, tier, seed):
    t0 = time.time()
    try: bins = build.build(list(check.builds))
    except build.BuildError as e: print("ERROR: build failed\n%s" % e); return 2
    t1 = time.time()
    budget_s = float(os.environ.get("VC_BUDGET_S") or (check.quick_s if tier == "quick" else check.thorough_s))
    ncase = check.quick if tier == "quick" else check.thorough
    cpus = sorted(os.sched_getaffinity(0)); scratch = tempfile.mkdtemp(prefix="vcsim-")
    print("VERIF_SEED=%d property=%s tier=%s cases<=%d workers=%d build %.1fs" % (seed, check.id, tier, ncase, len(cpus), t1-t0), flush=True)
    cases = [dict(c) for c in check.fixed_cases(tier)] if hasattr(check, "fixed_cases") else []
    nf = len(cases)
    for i in range(ncase): cases.append(check.gen(random.Random("%s/%d/%d" % (check.id, seed, i)), tier, i))
    inq, outq = mp.Queue(), mp.Queue(); deadline = t1+budget_s
    procs = [mp.Process(target=_worker, args=(check, bins, scratch, c, inq, outq, deadline), daemon=True) for c in cpus]
    try:
        for p in procs: p.start()
        for i, c in enumerate(cases): inq.put((i, c))
        for _ in procs: inq.put((None, None))
        res = {}; infra = []; skipped = 0; hard = t1+budget_s+600
        while len(res)+skipped+len(infra) < len(cases):
            try: i, st, x = outq.get(timeout=5)
            except queue.Empty:
                if time.time() > deadline+60 and any(b[2] is None for x in res.values() for b in x[0]): break # a violation is certain: do not wait for runs that do not end
                if time.time() > hard: infra.append("workers did not answer"); break
                if not any(p.is_alive() for p in procs): infra.append("workers died"); break
                continue
            if st == "ok": res[i] = x
            elif st == "skip": skipped += 1
            else: infra.append("case %s: %s" % (i, x))
        for p in procs:
            p.join(timeout=1)
            if p.is_alive(): p.kill()
        return finish(check, tier, seed, bins, scratch, cases, nf, res, infra, skipped, t0, t1)
    finally:
        for p in procs:
            if p.is_alive(): p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

def finish(check, tier, seed, bins, scratch, cases, nf, res, infra, skipped, t0, t1):
    search_s = time.time()-t1
    if os.environ.get("VC_SLOW"):
        for i in sorted(res, key=lambda i: -res[i][5]["share" if os.environ["VC_SLOW"] == "share" else "wall"])[:8]: print("slow: case %d %.1fs %.3f %s" % (i, res[i][5]["wall"], res[i][5]["share"], {k: (x.get("meta"), x.get("build"), {a: b for a, b in x["sim"].items() if a not in ("scale", "dump_fs")}, x["files"].get("vc.in", "").replace("\n", ";")) for k, x in cases[i].items() if isinstance(x, dict) and "sim" in x}))
    K = [k for k in known() if k[0] == check.id]; seen_known = {}
    classes = {}
    for i in sorted(res):
        for cls, msg, key in res[i][0]:
            if key is not None and any(k[1] == key for k in K): seen_known.setdefault(key, msg); continue
            classes.setdefault(cls, []).append((i, msg, key))
    rc = 0; nviol = 0; reports = []; flaky = []
    # few-case classes last; the cheapest failing case of each class represents it
    spent = 0
    for cls, l in sorted(classes.items(), key=lambda x: (min(res[y[0]][5]["wall"] for y in x[1]) > 30, -len(x[1]))):
        if nviol >= 3 or (nviol and time.time()-t1 > search_s+150): break
        l.sort(key=lambda x: res[x[0]][5]["wall"]); confirmed = None
        for i, msg, key in l[:3]:
            try: v, log = evaluate(check, cases[i], bins, scratch, cache=False)
            except (run.InfraError, run.TooLong) as e: infra.append(str(e)); continue
            h = [r.hash() for r in log]
            if not any(b[0] == cls for b in v.bad): flaky.append("case %d: %s not reproduced" % (i, cls)); continue
            if not set(res[i][4]) <= set(h): flaky.append("case %d: hashes differ" % i); continue
            confirmed = (i, msg, key); break
        if confirmed is None: continue
        i, msg, key = confirmed; nviol += 1
        case, tried = minimise(check, cases[i], cls, bins, scratch, 60 if nviol == 1 else 20) if os.environ.get("VC_MINIMISE", "1") != "0" and res[i][5]["wall"] < 20 else (cases[i], 0)
        m2 = [msg]
        try:
            if case is not cases[i]: v, log = evaluate(check, case, bins, scratch, cache=False); m2 = [b[1] for b in v.bad if b[0] == cls]
            if not m2: case = cases[i]; v, log = evaluate(check, case, bins, scratch, cache=False); m2 = [b[1] for b in v.bad if b[0] == cls]
        except (run.InfraError, run.TooLong) as e: infra.append(str(e)); continue
        path = replay_file(check, case, cls, (m2 or [msg])[0], [r.hash() for r in log], tried)
        print("  %s: %s  (%d of %d cases; seed %d case %d; minimised in %d runs)" % (cls, (m2 or [msg])[0], len({x[0] for x in l}), len(res), seed, i, tried))
        print("VIOLATION property=%s replay=%s" % (check.id, path), flush=True); rc = 1
    for k in K:
        if k[1] in seen_known: print("KNOWN-FINDING: property=%s %s" % (check.id, k[2]))
    evidence(check, tier, seed, cases, nf, res, skipped, search_s, time.time()-t0, nviol)
    if rc == 0:
        if flaky: print("ERROR: a violation did not reproduce: %s" % "; ".join(flaky)); return 2
        if infra: print("ERROR: %s" % "\n".join(infra[:5])); return 2
        if not res: print("ERROR: no case was executed"); return 2
        print("%s: held on %d cases (%d not reached in time), %.1fs" % (check.id, len(res), skipped, time.time()-t0))
    return rc

def evidence(check, tier, seed, cases, nf, res, skipped, search_s, wall, nviol):
    tot = {}; f, m, t, st = {}, {}, {}, {}; share = 0; sched, trace = set(), set(); sigs = set(); notes = {}
    for i, (bad, nontriv, sig, note, hs, s) in res.items():
        for k, v in s["n"].items(): tot[k] = tot.get(k, 0)+v
        for a, b in ((s["fault"], f), (s["mode"], m), (s["team"], t), (s["status"], st)):
            for k, v in a.items(): b[k] = b.get(k, 0)+v
        share = max(share, s["share"]); sched |= set(s["sched"]); trace |= set(s["trace"])
        if nontriv: sigs.add(sig)
        for k, v in note.items(): notes[k] = notes.get(k, 0)+v
    def brief(c):
        d = json.loads(json.dumps(c, default=str))
        def cut(x):
            if isinstance(x, dict): return {k: cut(v) for k, v in x.items()}
            if isinstance(x, list): return [cut(v) for v in x[:12]]
            if isinstance(x, str) and len(x) > 400: return x[:160]+" ... (%d characters)" % len(x)
            return x
        return cut(d)
    ran = sorted(res); samples = [dict(case=i, **brief(cases[i])) for i in ran[:1]+ran[len(ran)//2:len(ran)//2+1]]
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": check.level, "coverage": {
        "evaluations": len(res), "distinct_nontrivial": len(sigs), "rule": check.rule, "samples": samples,
        "fixed_cases": nf, "cases_not_reached_in_time": skipped,
        "simulated_runs": tot.get("runs", 0), "runs_per_hour": round(tot.get("runs", 0)*3600/max(search_s, 1e-9)), "seeds_per_hour": round(len(res)*3600/max(search_s, 1e-9)),
        "simulated_seconds": round(tot.get("sim_ns", 0)/1e9, 3), "simulated_steps": tot.get("steps", 0),
        "parallel_regions": tot.get("regions", 0), "context_switches": tot.get("switches", 0), "preemptions": tot.get("preemptions", 0),
        "shared_accesses_checked": tot.get("par_accesses", 0), "conflicting_accesses": tot.get("conflict_accesses", 0),
        "io_operations": tot.get("io_ops", 0), "allocations": tot.get("allocs", 0), "clock_reads": tot.get("clock_calls", 0),
        "faults_injected": dict(sorted(f.items())), "schedules_by_policy": dict(sorted(m.items())), "delivered_teams": dict(sorted(t.items())), "run_outcomes": dict(sorted(st.items())), "largest_share_of_step_budget_used": round(share, 4),
        "distinct_interleavings": len(sched), "distinct_traces": len(trace), "measure": "interleavings: hash over (region, access count, thread, next thread) of every non-default decision; traces: hash over scheduling, I/O and fault events",
        "probes": dict(sorted(notes.items())),
        "real_code": "all of src/Meshing including vc_mesh's main, libstdc++ streams, LAPACK", "stubs": "OpenMP runtime (libgomp), thread creation, clocks, files and console, heap: the simulator's own"},
        "assumptions": check.assumptions if hasattr(check, "assumptions") else ["the Monte Carlo point clouds are shrunk (VC_SIM_HOOKS); thread interleavings are sequentially consistent", "sampling, not enumeration: a clean run is evidence, not proof"],
        "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check.id+".json.tmp"), "w") as fo: json.dump(ev, fo, indent=1)
    os.replace(os.path.join(d, check.id+".json.tmp"), os.path.join(d, check.id+".json"))

def replay(path, checks):
    with open(path) as f: d = json.load(f)
    check = checks[d["property"]]; bins = build.build(list(check.builds)); scratch = tempfile.mkdtemp(prefix="vcsim-")
    try: v, log = evaluate(check, d["case"], bins, scratch, cache=False)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    h = [r.hash() for r in log]
    for c, m, k in v.bad: print("  %s: %s" % (c, m))
    if any(b[0] == d["class"] for b in v.bad):
        print("replayed %s (%s)" % (d["class"], "identical execution" if h == d["hashes"] else "same violation, different code or execution"))
        print("VIOLATION property=%s replay=%s" % (check.id, path)); return 1
    print("not reproduced"); return 0
