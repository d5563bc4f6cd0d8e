"""C13: the Python bridge."""
from .common import *
from .utils import replay

def check(run): return globals()[run.prop.lower()](run)

def c13(run):
    exe = run.compile("python.cc", "py", libs=["-lpython3.12"])
    run.model_check("MC_Python", "MC_Python.cfg" if run.quick else "MC_Python_deep.cfg", timeout=1500)
    d = run.path("mods"); os.makedirs(d, exist_ok=True)
    lines = replay(run, exe, "MC_Python", "MC_Python_emit.cfg" if run.quick else "MC_Python_emitdeep.cfg", lambda n: "new", 8, max_len=2000, extra=[d])
    run.validate("Trace_Python", lines, splitter=lambda e: e["op"] == "start", label="walk")
    lines = []
    for k in range(2 if run.quick else 12):
        out = run.path("r%d" % k)
        run.run([exe, "random", run.seed * 100 + k, 100 if run.quick else 200, 80 if k % 2 else 300, out, d], timeout=600)
        x = load_ndjson(out); lines += x; run.traces += sum(e["op"] == "start" for e in x)
    run.validate("Trace_Python", lines, splitter=lambda e: e["op"] == "start", label="rand")
