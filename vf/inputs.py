"""C05-C08: the input engine, its sources and init_value_t against InputEngine.tla."""
import json
from .common import *
from .walks import emitted, cover

# model configuration -> concrete (name, type) pairs of the harness, types: 1 real 2 string 3 array 4 size array 5 size 6 function
def pr(n, t): return (n - 1) * 6 + t
BINDINGS = {
  "A": [[pr(1, 1), pr(1, 5)], [pr(3, 5), pr(3, 1)]],
  "B": [[pr(1, 2), pr(2, 6)], [pr(3, 2), pr(1, 6)], [pr(2, 2), pr(3, 6)]],
  "C": [[pr(2, 2), pr(2, 6)], [pr(3, 2), pr(3, 6)]],
  "V": [[pr(3, 3)], [pr(1, 4)]],
}
DOCS = {  # as in MC_InputEngine.tla, kinds translated for the V model (3 = array)
  "A": [[[0, 0]], [[1, 1]], [[1, 2]]],
  "B": [[[0, 0], [0, 0]], [[2, 1], [0, 0]], [[0, 0], [4, 2]], [[2, 2], [4, 1]]],
  "C": [[[0, 0]], [[2, 1]], [[4, 2]]],
  "V": [[[0, 0]], [[3, 1]]],
}

def doc_for(cfg, k, ps):
    """model document k -> document over the three concrete names"""
    if k == 0: return []
    d = [[0, 0] for _ in range(3)]
    m = DOCS[cfg][k - 1]
    names = []
    for p in ps:
        n = (p - 1) // 6
        if n not in names: names.append(n)
    for j, f in enumerate(m): d[names[j]] = f
    return d

def replay(run, exe, g, walks, cfg, ps, tag):
    inp, out = run.path("w-%s.in" % tag), run.path("w-%s.out" % tag)
    seq = []
    with open(inp, "w") as f:
        for w in walks:
            f.write("new 0 0 0 0\n"); seq.append(None)
            for e in w:
                c = g.edges[e][1]
                d = doc_for(cfg, c["b"], ps) if c["op"] == "uselua" else []
                f.write("%s %d %d %d %d %s\n" % (c["op"], c["a"], c["b"], c["c"], len(d), " ".join("%d %d" % tuple(x) for x in d)))
                seq.append(e)
    run.run([exe, "walk", inp, out, *ps], timeout=800)
    n = len(ps)
    def ind(s): return [1 if p in s else 0 for p in range(1, n + 1)]
    exp = [(ind(v[0]), v[1], ind(v[2]), v[4], v[6][0] if v[6] else None) for v in g.names]
    hist = []
    with open(out) as f:
        for k, line in enumerate(f):
            ret, tg, rg, fl, hc, st, saw, extra = json.loads(line)
            e = seq[k]
            if e is None: hist = []; call, x = {"op": "new", "ret": 0}, exp[0]
            else: call, x = g.edges[e][1], exp[g.edges[e][2]]
            hist.append(call)
            ok = ret == call["ret"] and (tg, rg, fl, hc) == x[:4] and extra == 0
            if ok and x[4] is not None:
                m = x[4]["st"]
                ok = (st == m if m in (0, 4, 5) else st in (1, 2, 3)) and (saw == -2 or saw == rg[x[4]["p"] - 1] != 0)
            if not ok:
                raise Violation("input engine: after the calls of the model behaviour below, %s gave return %s, targets %s, values %s, failures %s, defaults %s, status %s, validator saw %s, foreign entries %s; the specification says return %s and %s"
                                % (json.dumps(call), ret, tg, rg, fl, hc, st, saw, extra, call["ret"], json.dumps(x)),
                                {"pairs": ps, "config": cfg, "history": hist[-40:], "observed": json.loads(line), "expected": x})
        if k + 1 != len(seq): raise CheckError("replay incomplete")
    run.samples += len(seq); run.traces += len(walks)
    run.add("transitions_replayed", len(g.edges))
    run.case({"config": cfg, "pairs": ps, "walk": [g.edges[e][1] for e in walks[len(walks) // 2][:12]]})

def check(run):
    cfgs = ["V"] if run.prop == "C08" else ["A", "B", "C"]
    exe = run.compile(["input_engine.cc", os.path.join(REPO, "ristra/assertions/dbc_impl.cc")], "ie", libs=["-llua5.3"])
    run.assumptions += ["a Lua field whose type does not fit the target's type is an error outside this property (C11)",
                        "target names are registered with the Lua source (unregistered keys are errors by design, C09)"]
    hist, ln = (120, 200) if run.quick else (1500, 400)
    def rand(k):
        out = run.path("r%d.ndjson" % k)
        run.run([exe, "random", run.seed * 1000 + k + (500 if run.prop == "C08" else 0), hist, ln, out])
        return load_ndjson(out)
    def job(c):
        run.model_check("MC_InputEngine", "MC_InputEngine_%s.cfg" % c, workers=2)
        g = emitted(run, "MC_InputEngine", "MC_InputEngine_emit%s.cfg" % c)
        ws = cover(g)
        for i, ps in enumerate(BINDINGS[c][:1 if run.quick else None]):
            replay(run, exe, g, ws, c, ps, "%s%d" % (c, i))
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(job, c) for c in cfgs]
        lines = rand(0)
        for f in fs: f.result()
    if not run.quick: lines += rand(1) + rand(2)
    run.validate("Trace_InputEngine", lines, splitter=lambda e: e["op"] == "new")
    run.traces += sum(e["op"] == "new" for e in lines)
