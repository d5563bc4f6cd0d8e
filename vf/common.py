"""Shared machinery: building harnesses from /repo, running TLC, evidence, verdicts."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time, tempfile, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
NCPU = os.cpu_count() or 4
TLCCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXXFLAGS = ["-std=gnu++17", "-w", "-g1", "-O1", "-fno-strict-aliasing"]

class CheckError(Exception):
    """The machinery could not decide (build failure, TLC failure, ...): exit 2."""

class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what, self.detail = what, detail

CONFIG_H = """#pragma once
#include <cstddef>
#define RISTRA_DOUBLE_PRECISION
#define RISTRA_TEST_TOLERANCE 1.0e-14
%s
namespace ristra { namespace config {
#ifdef RISTRA_DOUBLE_PRECISION
using real_t = double;
#else
using real_t = float;
#endif
static constexpr std::size_t max_char_length = 256;
static constexpr real_t test_tolerance = RISTRA_TEST_TOLERANCE;
} }
"""

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, ".work", "%s-%s-%d" % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "replays", prop)
        self.states = 0          # distinct model states explored by TLC
        self.transitions = 0     # generated states (= transitions taken)
        self.traces = 0          # traces / test behaviours validated against the implementation
        self.samples = 0         # calls of the implementation observed
        self.notes = {}          # free-form coverage facts
        self.assumptions = []
        self.known = []
        self.seen_findings = set()
        self.cases = []          # a few actual cases of this run, for the evidence file
        self.actions = {}        # model action -> times taken (TLC coverage)

    @property
    def quick(self): return self.tier == "quick"

    def note(self, k, v): self.notes[k] = v
    def case(self, c):
        if len(self.cases) < 6: self.cases.append(c)
    def add(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n
    def elapsed(self): return time.time() - self.t0

    def path(self, *p): return os.path.join(self.work, *p)

    # ---- building -----------------------------------------------------------
    def config_dir(self, name="cfg", defines=("RISTRA_ENABLE_PYTHON", "RISTRA_ENABLE_LUA",
                   "RISTRA_ENABLE_MPI", "RISTRA_ENABLE_EXCEPTIONS", "RISTRA_DBC_REQUIRE")):
        d = self.path(name, "ristra")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "ristra-config.h"), "w") as f:
            f.write(CONFIG_H % "\n".join("#define " + x for x in defines))
        return self.path(name)

    def compile(self, sources, out, flags=(), libs=(), cfg=None, std=None, timeout=600):
        """Compile harness sources (names under /verif/harness or absolute) against /repo."""
        cfg = cfg or self.config_dir()
        base = list(CXXFLAGS)
        if std: base[0] = "-std=" + std
        if isinstance(sources, str): sources = [sources]
        srcs = [s if os.path.isabs(s) else os.path.join(HARN, s) for s in sources]
        exe = self.path(out)
        inc = ["-I", HARN, "-I", cfg, "-I", REPO, "-I/usr/include/lua5.3", "-I/usr/include/python3.12"]
        objs, procs = [], []
        for s in srcs:
            o = self.path("%s.%d.%s.o" % (out, len(objs), os.path.basename(s)))
            objs.append(o)
            procs.append((s, subprocess.Popen(["g++", *base, *flags, *inc, "-c", s, "-o", o],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        for s, p in procs:
            txt, _ = p.communicate(timeout=timeout)
            if p.returncode:
                raise CheckError("harness %s does not compile against %s:\n%s" % (s, REPO, txt[:4000]))
        r = subprocess.run(["g++", *[f for f in flags if f.startswith(("-fsan", "-pthread", "-g"))], *objs, "-o", exe, *libs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        if r.returncode:
            raise CheckError("harness %s does not link:\n%s" % (out, r.stdout[:4000]))
        return exe

    def run(self, cmd, timeout=300, env=None, cwd=None, ok=(0,), stdin=None):
        """Run a harness.  A crash/hang of the code under test is a violation if it repeats."""
        for attempt in (0, 1):
            e = dict(os.environ); e.update(env or {})
            try:
                p = subprocess.run([str(c) for c in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=stdin,
                                   text=True, errors="replace", timeout=timeout, env=e, cwd=cwd or self.work)
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as x:
                rc, out, err = "timeout", "", str(x)
            if rc in ok: return out
            if rc == 77: raise CheckError("harness problem: " + err[-2000:])
        raise Violation("the implementation %s while executing legal operations" %
                        ("did not terminate" if rc == "timeout" else "crashed (status %s)" % rc),
                        {"cmd": [str(c) for c in cmd], "stderr": err[-3000:], "stdout": out[-1000:]})

    # ---- TLC ----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=840, args=(), heap="3g", coverage=True, count=True):
        """Run TLC on spec/<module>.tla with spec/<cfg>. Returns a result dict."""
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cfg = cfg or module + ".cfg"
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", TLCCP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfgp]
        if coverage: cmd += ["-coverage", "1"]
        cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               timeout=timeout, cwd=md)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on %s after %ss" % (module, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = p.stdout
        res = {"rc": p.returncode, "out": out, "states": 0, "distinct": 0, "diameter": 0}
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            res["states"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is ([\d,]+)", out)
        if m: res["diameter"] = int(m[-1].replace(",", ""))
        res["completed"] = "Model checking completed. No error has been found." in out
        res["post_false"] = bool(re.search(r"[Pp]ostcondition.*(is )?(violated|false)", out)) or "Evaluating assumption PostCondition" in out
        acts = {}
        for mm in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out, re.M):
            acts[mm.group(2) + "." + mm.group(1)] = int(mm.group(4))
        res["actions"] = acts
        if count:
            self.states += res["distinct"]; self.transitions += res["states"]
            for k, v in acts.items(): self.actions[k] = max(v, self.actions.get(k, 0))
        return res

    def model_check(self, module, cfg=None, workers=None, timeout=800, min_distinct=2, must_take=(), **kw):
        """Exhaustive check of a specification; anything but success is a machinery error."""
        r = self.tlc(module, cfg, workers=workers or NCPU, timeout=timeout, **kw)
        if not r["completed"]:
            raise CheckError("model %s/%s: TLC did not succeed\n%s" % (module, cfg, r["out"][-3000:]))
        if r["distinct"] < min_distinct:
            raise CheckError("model %s/%s is vacuous: %d states" % (module, cfg, r["distinct"]))
        for a in must_take:
            if not any(k.endswith("." + a) and v for k, v in r["actions"].items()):
                raise CheckError("model %s/%s: action %s never taken" % (module, cfg, a))
        self.notes.setdefault("models", {})["%s/%s" % (module, cfg or module + ".cfg")] = {
            "distinct": r["distinct"], "generated": r["states"], "diameter": r["diameter"]}
        return r

    def _validate_one(self, module, cfg, tracefile, n, env, timeout, heap):
        e = {"TRACE": tracefile}; e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap, coverage=False, count=False)
        if not (r["completed"] or r["post_false"] or "Postcondition" in r["out"] or "POSTCONDITION" in r["out"]):
            # an event the specification cannot even evaluate (outside its value domain) is a rejected event
            # (out of memory, a parse error or a killed TLC is not)
            evaluated = re.search(r"evaluating the nested|Overflow when computing|Attempted to |argument of |in the domain", r["out"]) and r["diameter"] > 0
            if not evaluated or "OutOfMemory" in r["out"] or "StackOverflowError" in r["out"]:
                raise CheckError("trace spec %s failed on %s\n%s" % (module, tracefile, r["out"][-3500:]))
        matched = r["diameter"] - 1
        accepted = r["completed"] and matched == n
        return accepted, matched, r

    def validate(self, module, lines, cfg=None, chunk=None, env=None, label="", timeout=800, heap="3g", header=None, splitter=None):
        """Validate recorded events (list of JSON-able dicts) against spec/<module>.tla.
        Chunks (cut only where splitter(event) is true) run in parallel TLC processes."""
        if not lines: raise CheckError("%s: empty trace" % module)
        chunks = self._chunks(lines, chunk, splitter)
        jobs = []
        for i, c in enumerate(chunks):
            f = self.path("%s-%s-%d.ndjson" % (module, label, i))
            with open(f, "w") as fh:
                for x in c: fh.write(json.dumps(x) + "\n")
            jobs.append((f, c))
        bad = []
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            futs = [ex.submit(self._validate_one, module, cfg, f, len(c), env, timeout, heap) for f, c in jobs]
            for (f, c), fu in zip(jobs, futs):
                acc, matched, r = fu.result()
                self.states += r["distinct"]; self.transitions += r["states"]
                if not acc: bad.append((f, c, matched, r))
        for f, c, matched, r in bad:
            acc2, matched2, r2 = self._validate_one(module, cfg, f, len(c), env, timeout, heap)
            if acc2: raise CheckError("trace rejection of %s not repeatable" % module)
            if matched2 != matched: raise CheckError("trace rejection of %s differs between runs" % module)
            ev = c[matched] if 0 <= matched < len(c) else None
            ctx = c[max(0, matched - 12):matched + 1]
            raise Violation("recorded event %s is not a behaviour of specification %s" % (json.dumps(ev)[:600], module),
                            {"module": module, "matched_prefix": matched, "event": ev, "context": ctx, "tlc": r2["out"][-1500:]})
        for f, c in jobs: os.unlink(f)
        self.samples += len(lines)
        for k in (0, len(lines) // 3, 2 * len(lines) // 3): self.case({"trace": module, "event": lines[k]})
        return len(lines)

    @staticmethod
    def _chunks(lines, chunk, splitter):
        if chunk is None: chunk = max(200, -(-len(lines) // NCPU))
        out, cur = [], []
        for x in lines:
            if len(cur) >= chunk and (splitter is None or splitter(x)):
                out.append(cur); cur = []
            cur.append(x)
        if cur: out.append(cur)
        return out

    # ---- results ------------------------------------------------------------
    def evidence(self, level, violations=(), error=None):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "wall_s": round(self.elapsed(), 2),
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "calls_observed": self.samples,
                           "samples": self.cases[:6]},
              "assumptions": self.assumptions, "violations": len(violations)}
        if violations: ev["coverage"]["violations_found"] = list(violations)
        ev["coverage"].update({k: v for k, v in self.notes.items()})
        if self.actions: ev["coverage"]["actions_taken"] = self.actions
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    def cleanup(self): shutil.rmtree(self.work, ignore_errors=True)

def load_ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]
