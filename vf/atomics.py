"""C01-C04: the atomics library against Atomics.tla / AtomicsImpl.tla / MemOrder.tla."""
import json, os
from .common import *

CONC = ["int", "unsigned char", "double", "int *", "pairs<short>", "pairs<int>", "yld"]
SEQ = ["int", "unsigned char", "signed char", "unsigned short", "short", "unsigned long", "long", "unsigned", "double", "float",
       "int *", "pairs<signed char>", "pairs<short>", "pairs<int>"]

def tag(t): return "".join(c if c.isalnum() else "_" for c in t)

def build(run, src, types, prefix, extra=(), libs=("-pthread", "-latomic")):
    def one(t):
        fl = ["-O0", "-pthread", "-DVALUE_TYPE=" + t, *extra]
        if t == "int": fl.append("-DMIXED")
        return t, run.compile(src, prefix + tag(t), flags=fl, libs=list(libs))
    run.config_dir()
    with cf.ThreadPoolExecutor(NCPU) as ex: return dict(ex.map(one, types))

def stats(run, out, who):
    st = json.loads(out.strip().splitlines()[-1])
    for k, v in st.items():
        if k == "entries": run.notes.setdefault("call_forms", {})[who] = v
        elif k in ("schedules", "steps", "programs", "calls"): run.add(k, v)
    return st

def histories(files):
    """split recorded events into histories, dropping duplicates"""
    seen, out = set(), []
    for f in files:
        cur, key = [], []
        with open(f) as fh:
            for line in fh:
                e = json.loads(line)
                if e["k"] == "init": cur, key = [e], [(e["v"], e["w"], e["u"])]
                else:
                    cur.append(e); key.append(tuple(v for k, v in sorted(e.items(), key=lambda kv: kv[0])))
                    if e["k"] == "end":
                        k = tuple(key)
                        if k not in seen: seen.add(k); out.append(cur)
    return out

def model_schedules(run, cfg, own):
    """behaviours of AtomicsImpl, as schedules for the harness"""
    r = run.tlc("AtomicsImpl", cfg, workers=4, coverage=False, heap="8g")
    if not r["completed"]: raise CheckError("AtomicsImpl/%s failed\n%s" % (cfg, r["out"][-2000:]))
    lines, n = [], 0
    for line in r["out"].splitlines():
        if not line.startswith('"S '): continue
        d = json.loads(json.loads(line)[2:]); n += 1
        prog = d["prog"]
        txt = ["%s 5 %d" % (own, len(prog))]
        for th in prog: txt.append("%d " % len(th) + " ".join("%s %s %d" % (o["op"], o["s"], o["x"]) for o in th))
        txt.append("%d " % len(d["sched"]) + " ".join(str(x - 1 if x < 10 else 10 + x - 11) for x in d["sched"]))
        lines.append(" ".join(txt))
    if n == 0: raise CheckError("no schedules from the model")
    return lines

def concurrent(run, rets):
    exes = build(run, "atomics_conc.cc", CONC, "c_")
    run.model_check("AtomicsImpl", "MC_Atomics.cfg" if run.quick else "MC_Atomics_deep.cfg", timeout=800, heap="12g",
                    must_take=("CasFail", "CasSpurious", "Fetch", "Lock", "Unlock", "Return"))
    deep = 0 if run.quick else 1
    jobs = []
    for t, exe in exes.items():
        parts = NCPU if t != "yld" else 2
        if deep: parts *= 2
        for k in range(parts): jobs.append((t, [exe, "explore", run.path("h_%s_%d" % (tag(t), k)), k, parts, deep, run.seed]))
    # schedules of the model, forced upon the int and pairs variables
    sched = [("MC_Atomics_emit2.cfg", "strong", ("int",)), ("MC_Atomics_emitpun.cfg", "strong", ("int", "pairs<short>")), ("MC_Atomics_emitlock.cfg", "lock", ("int",))]
    if deep: sched += [("MC_Atomics_emit3.cfg", "strong", ("int",)), ("MC_Atomics_emitdeep.cfg", "strong", ("int",))]
    nsched = 0
    for c, own, ts in sched:
        ls = model_schedules(run, c, own)
        for t in ts:
            use = [x for x in ls if " cpp " not in x] if t.startswith("pairs") else ls
            per = -(-len(use) // 4)
            for k in range(4):
                f = run.path("sched_%s_%s_%d" % (c, tag(t), k))
                with open(f, "w") as fh: fh.write("\n".join(use[k * per:(k + 1) * per]) + "\n")
                jobs.append((t, [exes[t], "guided", run.path("g_%s_%s_%d" % (c, tag(t), k)), f]))
            nsched += len(use)
    run.note("model_schedules_forced_on_the_code", nsched)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (t, cmd), out in zip(jobs, ex.map(lambda j: run.run(j[1], timeout=700), jobs)): stats(run, out, t)
    hs = histories([cmd[2] for _, cmd in jobs])
    run.note("distinct_histories", len(hs))
    lines = [e for h in hs for e in h]
    run.validate("Trace_Atomics", lines, env={"RETS": "1" if rets else "0"}, splitter=lambda e: e["k"] == "init", label="h")
    run.traces += len(hs)
    # the binding is not vacuous: histories altered in one place must be refused
    import random
    rnd = random.Random(run.seed); bad = 0
    pool = [h for h in hs if all(e.get("op") != "load" for e in h)]
    muts = []
    for h in rnd.sample(pool, min(60, len(pool))):
        h = [dict(e) for e in h]
        if rets: e = rnd.choice([e for e in h if e["k"] == "ret"]); e["x"] += 1000
        else: h[-1]["v"] += 1000
        muts.append(h)
    def refused(h):
        f = run.path("mut%d.ndjson" % id(h))
        with open(f, "w") as fh:
            for e in h: fh.write(json.dumps(e) + "\n")
        return not run._validate_one("Trace_Atomics", None, f, len(h), {"RETS": "1" if rets else "0"}, 60, "512m")[0]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        k = 8 if run.quick else 40
        if not all(ex.map(refused, muts[:k])): raise CheckError("the history checker accepts altered histories")
    run.note("altered_histories_refused", min(k, len(muts)))
    run.assumptions.append("sequentially consistent interleavings of the shared accesses (memory orders are C04); lock-scheme operations are not mixed with other schemes on one variable, as documented")

def c01(run): concurrent(run, False)
def c02(run): concurrent(run, True)

def c03(run):
    exes = build(run, "atomics_seq.cc", SEQ, "s_", extra=("-include", "iostream"))
    cexes = build(run, "atomics_conc.cc", ["int", "double", "pairs<short>", "unsigned char", "int *"], "c_")
    lines = []
    def one(t):
        f = run.path("s_%s.out" % tag(t))
        return t, f, run.run([exes[t], f, 0 if run.quick else 1, run.seed], timeout=700)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, f, out in ex.map(one, SEQ): stats(run, out, t); lines += load_ndjson(f)
    for t, exe in cexes.items():
        f = run.path("m_%s.out" % tag(t)); run.run([exe, "mech", f]); lines += load_ndjson(f)
    run.validate("Trace_AtomSeq", lines)
    run.traces += len(lines)
    bad = dict(lines[0]); bad["post"] = bad["post"] + 1
    f = run.path("bad.ndjson"); open(f, "w").write(json.dumps(bad) + "\n")
    if run._validate_one("Trace_AtomSeq", None, f, 1, None, 60, "512m")[0]: raise CheckError("altered call accepted")
    run.assumptions.append("operands for which the plain operation is defined (no signed overflow, no division by zero)")

def c04(run):
    run.model_check("MemOrder")
    types = ["int", "double", "pairs<short>", "int *"]
    exes = build(run, "atomics_conc.cc", types, "c_")
    lines = []
    def one(t):
        f = run.path("o_%s.out" % tag(t)); return t, f, run.run([exes[t], "orders", f], timeout=700)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, f, out in ex.map(one, types): stats(run, out, t); lines += load_ndjson(f)
    fails = sum(1 for e in lines if any(a["k"] == "fail" for a in e["acc"]))
    if fails < 100: raise CheckError("hardly any failed compare-and-swap observed")
    run.note("calls_with_failed_cas", fails)
    run.validate("Trace_MemOrder", lines)
    run.traces += len(lines)
    run.assumptions.append("the compiler and std::atomic implement the memory orders they are given")

def check(run): {"C01": c01, "C02": c02, "C03": c03, "C04": c04}[run.prop](run)
