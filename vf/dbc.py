"""C27: contract checks and error macros in every build configuration."""
import concurrent.futures, shutil
from .common import *

BASE = ("RISTRA_ENABLE_PYTHON", "RISTRA_ENABLE_LUA", "RISTRA_ENABLE_MPI")
CONFIGS = [  # name, flags, exceptions, replaced action
    ("throw_on", ("-DRISTRA_DBC_THROW", "-DRISTRA_REQUIRE_ON"), True, 0),
    ("throw_off", ("-DRISTRA_DBC_THROW",), True, 0),
    ("notify_on", ("-DRISTRA_DBC_NOTIFY", "-DRISTRA_REQUIRE_ON"), False, 0),
    ("notify_off", ("-DRISTRA_DBC_NOTIFY",), True, 0),
    ("nothing_on", ("-DRISTRA_REQUIRE_ON",), True, 0),
    ("nothing_off", (), False, 0),
    ("custom_on", ("-DRISTRA_REQUIRE_ON",), True, 1),
    ("custom_off", ("-DRISTRA_DBC_NOTIFY",), True, 1),
]

def check(run): return globals()[run.prop.lower()](run)

def options(run):
    """do the documented build options select the action?"""
    d = run.path("cmake")
    r = subprocess.run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DRISTRA_ENABLE_UNIT_TESTS=OFF", "-DRISTRA_ENABLE_LUA=OFF", "-DRISTRA_ENABLE_PYTHON=OFF",
                        "-DRISTRA_ENABLE_MPI=OFF", "-DRISTRA_ENABLE_CALIPER=OFF", "-DRISTRA_DBC_ACTION=notify", "-DRISTRA_DBC_REQUIRE=ON", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"], capture_output=True, text=True, timeout=300)
    if r.returncode: run.note("build_options", "not probed: cmake failed"); return
    cmd = ""
    h = os.path.join(d, "ristra", "ristra-config.h")
    if os.path.exists(h): cmd += open(h).read()
    h = os.path.join(d, "compile_commands.json")
    if os.path.exists(h): cmd += open(h).read()
    eff = bool(re.search(r"(-D|#define\s+)RISTRA_DBC_NOTIFY\b", cmd))
    shutil.rmtree(d, ignore_errors=True)
    if not eff: run.seen_findings.add("C27-build-options")
    run.note("build_options", "RISTRA_DBC_ACTION=notify %s" % ("selects the action" if eff else "has no effect (known finding)"))

def c27(run):
    run.model_check("MC_Dbc", "MC_Dbc.cfg")
    for exc in (True, False): run.config_dir("cfg%d" % exc, BASE + (("RISTRA_ENABLE_EXCEPTIONS",) if exc else ()))
    def build(c): return run.compile(["dbc.cc", os.path.join(REPO, "ristra/assertions/dbc_impl.cc")], "db_" + c[0], flags=c[1], cfg=run.path("cfg%d" % c[2]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex: exes = list(ex.map(build, CONFIGS))
    for c, exe in zip(CONFIGS, exes):
        lines = []
        for k in range(1 if run.quick else 6):
            out = run.path("t_%s_%d" % (c[0], k))
            run.run([exe, run.seed * 100 + k, 100 if run.quick else 1500, out, c[3]]); lines += load_ndjson(out)
        run.traces += sum(e["op"] == "new" for e in lines)
        run.validate("Trace_Dbc", lines, splitter=lambda e: e["op"] == "new", label=c[0])
    options(run)
