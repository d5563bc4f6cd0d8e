"""C10: command lines."""
from .common import *

def check(run): return globals()[run.prop.lower()](run)

def c10(run):
    exe = run.compile("args.cc", "ar", libs=["-lboost_program_options"])
    run.model_check("MC_Args", "MC_Args.cfg" if run.quick else "MC_Args_deep.cfg", timeout=1500)
    lines = []
    for k in range(1 if run.quick else 4):
        out = run.path("a%d" % k)
        run.run([exe, run.seed * 100 + k, 1500 if run.quick else 6000, out, 3 if run.quick or k else 4], timeout=600)
        lines += load_ndjson(out)
    run.traces += len(lines)
    run.note("refused_lines", sum(e["err"] for e in lines))
    run.validate("Trace_Args", lines, splitter=lambda e: True)
