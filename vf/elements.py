"""C24-C26: finite elements."""
from .common import *

def check(run): return globals()[run.prop.lower()](run)

def build(run): return run.compile(["elements.cc", os.path.join(REPO, "ristra/elements/elements.cc")], "el")

def record(run, exe, mode, reps, rounds):
    lines = []
    for k in range(reps):
        out = run.path("%s%d" % (mode, k))
        run.run([exe, mode, run.seed * 100 + k, rounds, out]); lines += load_ndjson(out)
    return lines

def c24(run):
    exe = build(run)
    run.model_check("MC_Elements", "MC_Elements.cfg" if run.quick else "MC_Elements_deep.cfg", timeout=2400)
    lines = record(run, exe, "shapes", 1 if run.quick else 12, 60 if run.quick else 400)
    run.traces += len(lines)
    run.validate("Trace_Elements", lines)

def c25(run):
    exe = build(run)
    run.model_check("MC_Quadrature", "MC_Quadrature.cfg" if run.quick else "MC_Quadrature_deep.cfg", timeout=1500)
    lines = record(run, exe, "rules", 1, 5 if run.quick else 8)
    run.traces += sum(e["f"] in ("new", "line") for e in lines)
    run.validate("Trace_Quadrature", lines, splitter=lambda e: e["f"] in ("new", "line"))

def c26(run):
    exe = build(run)
    run.model_check("MC_Jacobian", "MC_Jacobian.cfg" if run.quick else "MC_Jacobian_deep.cfg", timeout=2400)
    lines = record(run, exe, "jac", 1 if run.quick else 12, 400 if run.quick else 2000)
    run.traces += len(lines)
    run.validate("Trace_Jacobian", lines)
