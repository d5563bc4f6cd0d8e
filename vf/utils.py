"""C15-C18: views, reference arrays, traversals and strings."""
from .common import *
from .walks import emitted, cover

def walk_file(g, ws, path, new, nargs=3):
    with open(path, "w") as f:
        for n, w in enumerate(ws):
            f.write(new(n) + "\n")
            for e in w:
                o = g.edges[e][1]; a = (list(o[1:]) + [0] * nargs)[:nargs]
                f.write(o[0] + " " + " ".join(str(int(x)) for x in a) + "\n")

def replay(run, exe, module, cfg, new, nargs=3, max_len=300, extra=(), graph=None):
    """replay every transition of the emitted graph; returns the recorded events"""
    g = graph or emitted(run, module, cfg); ws = cover(g, max_len)
    inp, out = run.path(cfg + ".in"), run.path(cfg + ".out")
    walk_file(g, ws, inp, new, nargs)
    run.run([exe, "walk", inp, out, *extra])
    run.add("transitions_replayed", len(g.edges)); run.traces += len(ws)
    return load_ndjson(out)

def check(run): return globals()[run.prop.lower()](run)

def c15(run):
    exe = run.compile("array_view.cc", "av")
    run.model_check("MC_ArrayView", "MC_ArrayView.cfg" if run.quick else "MC_ArrayView_deep.cfg", timeout=1500)
    lines = replay(run, exe, "MC_ArrayView", "MC_ArrayView_emit.cfg", lambda n: "new", 11)
    run.validate("Trace_ArrayView", lines, splitter=lambda e: e["op"] == "root", label="walk")
    lines = []
    for k in range(1 if run.quick else 10):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 500 if run.quick else 1500, out])
        x = load_ndjson(out); lines += x; run.traces += sum(e["op"] == "root" for e in x)
    run.validate("Trace_ArrayView", lines, splitter=lambda e: e["op"] == "root", label="rand")

def c16(run):
    exe = run.compile("array_ref.cc", "ar")
    run.model_check("MC_ArrayRef", "MC_ArrayRef.cfg" if run.quick else "MC_ArrayRef_deep.cfg")
    N = 3 if run.quick else 4
    lines = []
    for rep in range(10):       # every container kind and element type
        lines += replay(run, exe, "MC_ArrayRef", "MC_ArrayRef_emit.cfg" if run.quick else "MC_ArrayRef_emitdeep.cfg", lambda n: "new %d %d" % (N, n + rep), 2)
        if run.quick and rep == 1: break
    for k in range(1 if run.quick else 6):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 600, 60, out])
        x = load_ndjson(out); lines += x; run.traces += sum(e["op"] == "new" for e in x)
    run.validate("Trace_ArrayRef", lines, splitter=lambda e: e["op"] == "new")

def c17(run):
    exe = run.compile("zip.cc", "zp")
    run.model_check("MC_Zip", "MC_Zip.cfg" if run.quick else "MC_Zip_deep.cfg")
    lines = replay(run, exe, "MC_Zip", "MC_Zip_emit.cfg", lambda n: "new 0 0 0")
    run.validate("Trace_Zip", lines, splitter=lambda e: e["op"] == "zip", label="walk")
    lines = []
    for k in range(1 if run.quick else 8):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 8 if run.quick else 30, out])
        lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_Zip", lines, label="rand")

def c18(run):
    exe = run.compile("strings.cc", "st")
    run.model_check("MC_Strings", "MC_Strings.cfg" if run.quick else "MC_Strings_deep.cfg", timeout=1500)
    lines = []
    for k in range(1 if run.quick else 5):
        out = run.path("r%d" % k)
        run.run([exe, run.seed * 100 + k, 1 if run.quick else 2 if k == 0 else 3, out])
        lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_Strings", lines)

def c28(run):
    exe = run.compile("traits.cc", "tr", flags=["-O0"])
    run.model_check("MC_Traits", "MC_Traits.cfg" if run.quick else "MC_Traits_deep.cfg", timeout=1500)
    lines = []
    for k in range(1 if run.quick else 20):
        out = run.path("r%d" % k)
        run.run([exe, run.seed * 100 + k, out])
        lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_Traits", lines)

def c29(run):
    exe = run.compile("input_file.cc", "if", libs=["-llua5.3"])
    run.model_check("MC_InputFile", "MC_InputFile.cfg" if run.quick else "MC_InputFile_deep.cfg", timeout=1500)
    lines = []
    for cfg, n in (("MC_InputFile_emit.cfg", 5), ("MC_InputFile_emit2.cfg", 4)):
        lines += replay(run, exe, "MC_InputFile", cfg, lambda k: "new" + " 0" * n, n, 200, extra=[n])
    for k in range(1 if run.quick else 10):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 150 if run.quick else 300, 60, out])
        x = load_ndjson(out); lines += x; run.traces += sum(e["op"] == "new" for e in x)
    run.validate("Trace_InputFile", lines, splitter=lambda e: e["op"] == "new")
