#!/usr/bin/env python3
"""Development aid: turns the specifications in plants.py into /verif/seeded/<id>/ after
confirming in a scratch copy that each builds, passes the tests and has a demonstration
that fails with the change and passes without it.  Usage: plant.py [id-prefix]"""
import sys, os, subprocess, shutil, tempfile, json, importlib.util
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("m", os.path.join(here, "plants.py")); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
pref = sys.argv[1] if len(sys.argv) > 1 else ""
DEMO = '''#!/bin/bash
# Runs the demonstration test inside package PKG of the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd)
p=$PWD
. /opt/vp/env.sh
cd "$p"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/PKG/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 60s -overlay "$t/o.json" -run 'TestZZDemo' ./PKG
'''
def sh(cmd, cwd): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd '" + cwd + "'; " + cmd], cwd=cwd, capture_output=True, text=True)
def one(p):
    d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
    try:
        r = os.path.join(d, "repo"); shutil.copytree("/repo", r)
        out = os.path.join(d, p["id"]); os.mkdir(out)
        open(out + "/demo.sh", "w").write(DEMO.replace("PKG", p["pkg"])); os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo_test.go", "w").write(p["demo"].strip() + "\n")
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        a = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if a.returncode: return p["id"], "demo FAILS on the clean tree: " + (a.stdout + a.stderr)[:1500]
        for f, old, new in p["edits"]:
            q = os.path.join(r, f); s = open(q).read()
            if s.count(old) != 1: return p["id"], "%d matches in %s: %s" % (s.count(old), f, old[:70])
            open(q, "w").write(s.replace(old, new))
        df = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(df)
        b = sh("go build ./...", r)
        if b.returncode: return p["id"], "does not build " + b.stderr[:800]
        t = sh("go test -vet=off -count=1 ./...", r)
        if t.returncode: return p["id"], "tests fail " + t.stdout[-1200:]
        a = subprocess.run(["bash", out + "/demo.sh"], cwd=r, capture_output=True, text=True)
        if not a.returncode: return p["id"], "demo PASSES with the change"
        dst = os.path.join(here, "..", "seeded", p["id"])
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        o = subprocess.run([os.path.join(here, "..", "bin", "wbnfcheck"), "-prop", p["property"], "-repo", r, "-out", d + "/ev", "-known", os.path.join(here, "..", "known-findings.txt")], capture_output=True, text=True)
        return p["id"], ("caught" if "VIOLATION property=" + p["property"] in o.stdout else "NOT CAUGHT") + "\n" + "\n".join(o.stdout.splitlines()[:6] if os.environ.get("SHOW") else [])
    finally:
        shutil.rmtree(d)
ps = [p for p in mod.P if p["id"].startswith(pref)]
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, ps): print(f"{i:34s} {r}", flush=True)
