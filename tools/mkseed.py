#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], files={name: text}.
Writes seeded/<id>/ with a patch made in a scratch clone of /repo."""
import json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = runpy.run_path(spec)
    d = os.path.join(V, "seeded", g["id"]); os.makedirs(d, exist_ok=True)
    wt = "/tmp/seedwt-%d" % os.getpid()
    subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
    try:
        for f, old, new in g["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            if s.count(old) != 1: raise SystemExit("%s: %d matches in %s of:\n%s" % (g["id"], s.count(old), f, old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    finally:
        shutil.rmtree(wt)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for n, t in g["files"].items():
        p = os.path.join(d, n); open(p, "w").write(t)
        if n.endswith(".sh"): os.chmod(p, 0o755)
    print("wrote", d)
