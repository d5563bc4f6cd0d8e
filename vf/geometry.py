"""C22, C23: planar shapes and solids."""
from .common import *
from .utils import replay

def check(run): return globals()[run.prop.lower()](run)

BOTH = "C22-centroid-both-headers"

def c22(run):
    exe = run.compile("geometry.cc", "ge")
    run.model_check("MC_Geometry", "MC_Geometry.cfg" if run.quick else "MC_Geometry_deep.cfg", timeout=2400)
    lines = []
    for k in range(1 if run.quick else 8):
        out = run.path("p%d" % k)
        run.run([exe, "plane", run.seed * 100 + k, 120 if run.quick else 400, out]); lines += load_ndjson(out)
    run.traces += len(lines)
    run.validate("Trace_Geometry", lines, label="plane")
    # the same call with both headers that offer a centroid of a container of points
    exe = run.compile("geometry_both.cc", "gb"); out = run.path("both")
    run.run([exe, out]); two = load_ndjson(out)
    keep = []
    for n, e in enumerate(two):
        if n == 1 and e["r"] == [972, 1458] and any(k.get("id") == BOTH for k in run.known): run.seen_findings.add(BOTH)
        else: keep.append(e)
    run.validate("Trace_Geometry", keep, label="both")

def c23(run):
    exe = run.compile("geometry.cc", "ge")
    run.model_check("MC_Body", "MC_Body.cfg" if run.quick else "MC_Body_deep.cfg", timeout=2400)
    lines = replay(run, exe, "MC_Body", "MC_Body_emit.cfg" if run.quick else "MC_Body_emitdeep.cfg", lambda n: "new %d" % n, 13)
    run.validate("Trace_Geometry", lines, splitter=lambda e: e["f"] == "new", label="walk")
    lines = []
    for k in range(1 if run.quick else 8):
        out = run.path("s%d" % k)
        run.run([exe, "solid", run.seed * 100 + k, 300 if run.quick else 1000, out]); x = load_ndjson(out); lines += x
        run.traces += sum(e["f"] == "new" for e in x)
    run.validate("Trace_Geometry", lines, splitter=lambda e: e["f"] == "new", label="rand")
