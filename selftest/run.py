#!/usr/bin/env python3
"""Development aid: applies each edit of a mutants file to a scratch copy of /repo and
shows which properties raise an alarm. Bugs should alarm, refactorings (names starting
with '=') should not.  Usage: run.py FILE.py [name-prefix]"""
import sys, os, subprocess, shutil, importlib.util, re, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("m", sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
pref = sys.argv[2] if len(sys.argv) > 2 else ""
props = os.environ.get("PROPS", "").split(",") if os.environ.get("PROPS") else [""]
env = dict(os.environ, GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off")
binary = os.path.join(here, "..", "bin", "wbnfcheck")
def one(item):
    name, edits = item
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = os.path.join(r, f); s = open(p).read()
            if s.count(old) < 1: return name, "NOT APPLICABLE: " + f + ": " + old[:60]
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=env, capture_output=True, text=True)
        if b.returncode: return name, "DOES NOT BUILD " + b.stderr[:600]
        t = "" 
        if os.environ.get("TEST"):
            q = subprocess.run(["go", "test", "./..."], cwd=r, env=env, capture_output=True, text=True)
            t = " tests:" + ("pass" if q.returncode == 0 else "FAIL")
        res = []
        for pr in props:
            o = subprocess.run([binary, "-prop", pr, "-repo", r, "-out", d + "/ev", "-known", os.path.join(here, "..", "known-findings.txt")], capture_output=True, text=True)
            res += re.findall(r"VIOLATION property=(\w+)", o.stdout)
            if os.environ.get("SHOW"): t += "\n" + "\n".join(l for l in o.stdout.splitlines() if not l.startswith("property=") and (os.environ["SHOW"]=="2" or not l.startswith("    ")))
            if o.returncode not in (0, 1): t += " EXIT %d %s" % (o.returncode, o.stderr[-300:])
        bad = name.startswith("=") and res or not name.startswith("=") and not res
        return name, ("!! " if bad else "   ") + " ".join(res) + t
    finally:
        shutil.rmtree(d)
items = [(n, e) for n, e in mod.M if n.startswith(pref)]
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
    for n, r in ex.map(one, items):
        print(f"{n:40s} {r}", flush=True)
