"""C19-C21: arrays, vector functions, matrices."""
from .common import *
from .walks import emitted
from .utils import replay

def check(run): return globals()[run.prop.lower()](run)

def algebra(run, group):
    """every transition of ArrayAlg replayed into each array type of the group, and random histories"""
    exe = run.compile("array_alg.cc", "aa")
    run.model_check("MC_ArrayAlg", "MC_ArrayAlg.cfg" if run.quick else "MC_ArrayAlg_deep.cfg")
    cfg = "MC_ArrayAlg_emit.cfg" if run.quick else "MC_ArrayAlg_emitdeep.cfg"
    g = emitted(run, "MC_ArrayAlg", cfg)
    for rep in range(1 if run.quick else 3):
        lines = replay(run, exe, "MC_ArrayAlg", cfg, lambda n: "new %d" % (n + rep), 4, extra=(group,), graph=g)
        run.validate("Trace_ArrayAlg", lines, splitter=lambda e: e["op"] == "new", label="walk%d" % rep)
    lines = []
    for k in range(1 if run.quick else 8):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 300, 100, out, group])
        x = load_ndjson(out); lines += x; run.traces += sum(e["op"] == "new" for e in x)
    run.validate("Trace_ArrayAlg", lines, splitter=lambda e: e["op"] == "new", label="rand")

def c19(run):
    algebra(run, "a")
    exe = run.compile("vec_math.cc", "vm")
    run.model_check("MC_VecMath", "MC_VecMath.cfg" if run.quick else "MC_VecMath_deep.cfg")
    lines = []
    for k in range(1 if run.quick else 10):
        out = run.path("v%d" % k)
        run.run([exe, run.seed * 100 + k, 300 if run.quick else 1000, out]); lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_VecMath", lines, label="vec")

def c20(run): algebra(run, "m")

def c21(run):
    exe = run.compile("matrix.cc", "mx")
    run.model_check("MC_Matrix", "MC_Matrix.cfg" if run.quick else "MC_Matrix_deep.cfg", timeout=1500)
    lines = []
    for k in range(1 if run.quick else 10):
        out = run.path("m%d" % k)
        run.run([exe, run.seed * 100 + k, 150 if run.quick else 400, out]); lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_Matrix", lines)
