#!/usr/bin/env python3
"""mutants.py [-j N] [id...]: small wrong changes (tools/mutants/*.py), each run against the check of its property.
Prints the ones that survive. Nothing is kept; tools/plant.py is for the ones worth keeping."""
import sys, os, glob, subprocess, shutil, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = {}
def mut(id, prop, *edits):
    assert id not in M, id
    M[id] = (prop, edits)
for f in sorted(glob.glob(os.path.join(ROOT, "tools/mutants/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"mut": mut})
def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
def one(id):
    prop, edits = M[id]
    w, r = "/tmp/mut/" + id, "/tmp/mut/" + id + ".root"
    for d in (w, r): shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    try:
        sh("git clone -q /repo " + w)
        for e in edits:
            f, old, new = e[0], e[-2], e[-1]
            s = open(os.path.join(w, f)).read()
            i = s.find(e[1]) if len(e) == 4 else 0
            j = s.find(old, i)
            if i < 0 or j < 0: return id, prop, "edit: not found: " + old[:60]
            s = s[:j] + new + s[j+len(old):]
            open(os.path.join(w, f), "w").write(s)
        pk = "./..." if any(e[0].startswith("ring") for e in edits) else ". ./message/..."
        t = sh("go build ./... && go vet ./... && go test -timeout 60s -count=1 " + pk + " 2>&1", w)
        bad = [l for l in t.stdout.splitlines() if "--- FAIL" in l and "Integration" not in l]
        if t.returncode and ("FAIL" in t.stdout or "vet:" in t.stdout or ".go:" in t.stdout): return id, prop, "TESTS " + t.stdout[-300:]
        os.makedirs(r + "/build")
        sh(f"cp -r {ROOT}/harness {ROOT}/spec {ROOT}/known-findings.txt {r}/")
        p = sh(f"timeout 900 {ROOT}/build/engine -root {r} -repo {w} -prop {prop} -tier {os.environ.get('TIER','quick')}")
        open(f"/tmp/mut/{id}.log", "w").write(p.stdout)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        wall = re.findall(r"wall ([\d.]+)s", p.stdout)
        if p.returncode == 1 and v: return id, prop, "caught " + " ".join(wall)
        return id, prop, "SURVIVED rc=%d %s" % (p.returncode, p.stdout.strip().splitlines()[-1][:150] if p.stdout.strip() else "")
    finally:
        for d in (w, r): shutil.rmtree(d, ignore_errors=True)
args = sys.argv[1:]
j = 2
if args[:1] == ["-j"]: j = int(args[1]); args = args[2:]
ids = [i for i in M if not args or i in args or any(i.startswith(a + "-") for a in args)]
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
