"""C14: fixed_vector against FixedVector.tla (TLC-emitted transitions replayed; histories recorded)."""
import json
from .common import *

def emit(run, cfg, n):
    r = run.tlc("MC_FixedVector", cfg, workers=1, coverage=False, count=False, heap="6g")
    if not r["completed"]: raise CheckError("emit failed: " + r["out"][-2000:])
    ts, seen = [], set()
    for line in r["out"].splitlines():
        if line.startswith('"T '):
            t = json.loads(json.loads(line)[2:])
            c = t["call"]
            if c["op"].endswith("!"):   # the contents do not matter for a refused call
                if (c["op"] == "insertList!" and c["a"] > 4): continue
                k = (c["op"], c["i"], c["a"], len(t["pre"][0]), len(t["pre"][1]) if c["i"] == 2 else 0)
                if k in seen: continue
                seen.add(k)
            if c["op"] in ("assignList", "constructList", "insertList") and len(c["r"]) > 4: continue
            ts.append(t)
    return ts

def replay(run, exe, ts, n, ty):
    inp, out = run.path("t-%s-%d.in" % (ty, n)), run.path("t-%s-%d.out" % (ty, n))
    def sq(s): return " ".join(map(str, [len(s)] + s))
    with open(inp, "w") as f:
        for t in ts:
            c = t["call"]
            f.write("%s %d %d %d %s %s %s\n" % (c["op"], c["i"], c["a"], c["q"], sq(c["r"]), sq(t["pre"][0]), sq(t["pre"][1])))
    run.run([exe, "replay", ty, n, inp, out], timeout=600)
    got = load_ndjson(out)
    if len(got) != len(ts): raise CheckError("replay lost transitions")
    for t, g in zip(ts, got):
        c, post = t["call"], [g["x"], g["y"]]
        if c["op"] == "resizeUp":     # values of fresh elements are unspecified
            k = c["i"] - 1; n0 = len(t["pre"][k])
            good = post[1-k] == t["post"][1-k] and post[k][:n0] == t["pre"][k] and len(post[k]) == c["a"]
        else:
            good = post == t["post"]
        if not (good and g["ret"] == c["ret"] and g["ok"]):
            raise Violation("fixed_vector<%s,%d>: transition %s of the specification: implementation gave contents %s, return %s, observers agree: %s"
                            % (ty, n, json.dumps(t), post, g["ret"], g["ok"]), {"transition": t, "observed": g, "type": ty, "capacity": n})
    run.samples += len(ts); run.traces += len(ts)
    run.add("transitions_replayed", len(ts))
    run.case({"replayed_transition": ts[len(ts) // 2], "type": ty, "capacity": n})

def check(run):
    run.assumptions += ["values of elements created by resize(n) / fixed_vector(n) without a value are unspecified",
                        "a moved-from vector is only cleared or reassigned", "assertions enabled (as in the project's own Debug build)"]
    exe = run.compile("fixed_vector.cc", "fv")
    run.model_check("MC_FixedVector", must_take=[])
    ts = emit(run, "MC_FixedVector_emit.cfg", 3)
    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(replay, run, exe, ts, 3, ty) for ty in ("int", "string", "boxed")]: f.result()
    if not run.quick:
        ts = emit(run, "MC_FixedVector_emit4.cfg", 4)
        with cf.ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(replay, run, exe, ts, 4, ty) for ty in ("int", "string", "boxed")]: f.result()
    hist, ln = (12, 400) if run.quick else (150, 1500)
    lines = []
    for k, ty in enumerate(("int", "string", "boxed")):
        out = run.path("r-%s.ndjson" % ty)
        run.run([exe, "random", ty, run.seed * 100 + 10 * k, hist, ln, out], timeout=600)
        lines += load_ndjson(out)
    run.note("random_histories", hist * 7)
    run.validate("Trace_FixedVector", lines, splitter=lambda e: e["op"] == "new")
    run.traces += sum(1 for e in lines if e["op"] == "new")
