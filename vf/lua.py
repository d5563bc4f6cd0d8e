"""C11: conversions across the Lua bridge (LuaConv.tla); C12: handles and stack (LuaHandles.tla)."""
from .common import *
from .walks import emitted, cover

def check(run): return c11(run) if run.prop == "C11" else c12(run)

def c11(run):
    exe = run.compile("lua_conv.cc", "lc", libs=["-llua5.3"])
    run.assumptions.append("Lua's own coercions between numbers and text may be used or refused; calling a function that returns nothing may be an error or give an empty result")
    run.model_check("MC_LuaConv", heap="6g")
    lines = []
    for k in range(2 if run.quick else 12):
        out = run.path("c%d" % k)
        run.run([exe, run.seed * 100 + k, 4000 if run.quick else 12000, out])
        lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_LuaConv", lines)

def c12(run):
    exe = run.compile("lua_handles.cc", "lh", libs=["-llua5.3"])
    run.model_check("MC_LuaHandles", "MC_LuaHandles.cfg" if run.quick else "MC_LuaHandles_deep.cfg", heap="6g")
    lines = []
    for cfg in "ABC":
        g = emitted(run, "MC_LuaHandles", "MC_LuaHandles_emit%s.cfg" % cfg)
        ws = cover(g, 300)
        inp, out = run.path(cfg + ".in"), run.path(cfg + ".out")
        with open(inp, "w") as f:
            for w in ws:
                f.write("new 0 0 0\n")
                for e in w:
                    o = g.edges[e][1]; a = list(o[1:]) + [0, 0, 0]
                    f.write("%s %d %d %d\n" % (o[0], a[0], a[1], a[2]))
        run.run([exe, "walk", inp, out])
        lines += load_ndjson(out)
        run.add("transitions_replayed", len(g.edges)); run.traces += len(ws)
    for k in range(1 if run.quick else 8):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 300 if run.quick else 1500, 150, out])
        x = load_ndjson(out); lines += x
        run.traces += sum(e["op"] == "new" for e in x)
    # one very long history: arbitrarily long use exhausts nothing
    out = run.path("long")
    run.run([exe, "random", run.seed * 100 + 99, 1, 40000, out])
    lines += load_ndjson(out); run.traces += 1
    run.validate("Trace_LuaHandles", lines, splitter=lambda e: e["op"] == "new")
