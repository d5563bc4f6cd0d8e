"""C09: lua_source_t against LuaSource.tla."""
from .common import *
from .walks import emitted, cover

# the document of MC_LuaSource; model names 1, 2, 3 become a, b, c (7, 8, 9) and the tables the
# constructor wants (hydro, hydro.mesh) come after it as tables 5 and 6
D = [([-2, 7, 0], []), ([-3, -4, 5], [8]), ([0, 6, -2], []), ([9, 0, 0], [1, 2])]
def document():
    rows = []
    for n, (f, s) in enumerate(D):
        g = [0] * 9
        if n == 0: g[0] = -5
        g[6:9] = f
        rows.append((g, s))
    rows.append(([0, -6] + [0] * 7, [])); rows.append(([0] * 9, []))
    # the trace specification expects hydro = table 2 and mesh = table 3: renumber
    perm = {1: 1, 5: 2, 6: 3, 2: 4, 3: 5, 4: 6}
    out = [None] * 6
    for n, (f, s) in enumerate(rows):
        out[perm[n + 1] - 1] = ([-perm[-x] if x < 0 else x for x in f], s)
    return out

def check(run):
    exe = run.compile("lua_source.cc", "ls", libs=["-llua5.3"])
    run.assumptions.append("the size of an absent field is not described; after a registration that failed the former or the new definition may be in force")
    run.model_check("MC_LuaSource", "MC_LuaSource.cfg" if run.quick else "MC_LuaSource_deep.cfg")
    g = emitted(run, "MC_LuaSource", "MC_LuaSource_emit.cfg")
    ws = cover(g, 60)
    inp, out = run.path("w.in"), run.path("w.out")
    nm = lambda x: x + 6 if x else 0
    with open(inp, "w") as f:
        d = document()
        f.write("doc %d " % len(d) + " ".join(" ".join(map(str, r + [len(s)] + s)) for r, s in d) + "\n")
        for w in ws:
            f.write("new 0 0 0\n")
            for e in w:
                o = g.edges[e][1]
                a = [nm(x) for x in o[1:]] + [0, 0]
                f.write("%s %d %d %d\n" % (o[0], a[0], a[1], a[2]))
    run.run([exe, "walk", inp, out])
    lines = load_ndjson(out)
    run.add("transitions_replayed", len(g.edges)); run.traces += len(ws)
    for k in range(1 if run.quick else 6):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 400 if run.quick else 2000, 90, out])
        lines += load_ndjson(out)
    run.traces += sum(e["op"] == "new" for e in lines) - len(ws)
    run.validate("Trace_LuaSource", lines, splitter=lambda e: e["op"] == "new", heap="2500m")
