#!/usr/bin/env python3
"""plant.py [id...]: (re)creates /verif/seeded/<id> from tools/plants/*.py and confirms each in a scratch copy of /repo:
builds, the stable tests pass, the demo passes without and fails with the change."""
import sys, os, glob, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = {}
def plant(id, prop, edits, demo, needs, breaks, pkg="./message", race=False, timeout=120):
    assert id not in PLANTS, id
    PLANTS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, pkg=pkg, race=race, timeout=timeout)
for f in sorted(glob.glob(os.path.join(ROOT, "tools/plants/*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"plant": plant})
DEMO = '''#!/bin/bash
# Run with cwd /repo: fails if the change is in place.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\": {\\"$repo/%(dir)szz_demo_test.go\\": \\"$here/demo_test.go\\"}}" > "$t/overlay.json"
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local timeout 250 go test -count=1 -vet=off %(race)s-timeout %(timeout)ds -overlay "$t/overlay.json" -run '^TestDemo' %(pkg)s
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def build_one(id, P):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/plant/" + id
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    sh(f"git -C /repo worktree prune; git clone -q /repo {w}")
    err = None
    try:
        for e in P["edits"]:
            f, old, new = e[0], e[-2], e[-1]
            s = open(os.path.join(w, f)).read()
            if len(e) == 4:  # first occurrence after an anchor
                i = s.find(e[1])
                j = s.find(old, i)
                if i < 0 or j < 0:
                    return f"edit of {f}: anchor or text not found"
                s = s[:j] + new + s[j+len(old):]
            else:
                if s.count(old) != 1:
                    return f"edit of {f}: {s.count(old)} matches"
                s = s.replace(old, new)
            open(os.path.join(w, f), "w").write(s)
        diff = subprocess.run("git diff", shell=True, cwd=w, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        pk = P["pkg"]
        sub = pk[2:] + "/" if pk != "." else ""
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(dir=sub, pkg=pk, race="-race " if P["race"] else "", timeout=P["timeout"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo_test.go"), "w").write(P["demo"].lstrip())
        json.dump({"property": P["prop"], "needs": P["needs"], "what_it_breaks": P["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("gofmt -l . ; go build ./... && go vet ./... && go test -count=1 ./...", w, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
        if r.returncode:
            return "build/test with the change:\n" + r.stdout[-1500:]
        r = sh(f"bash {d}/demo.sh", w)
        if r.returncode == 0:
            return "demo passes with the change"
        bad = r.stdout
        if "build failed" in bad or "setup failed" in bad:
            return "demo does not build:\n" + bad[-1500:]
        sh("git checkout -q -- .", w)
        r = sh(f"bash {d}/demo.sh", w)
        if r.returncode:
            return "demo fails without the change:\n" + r.stdout[-1500:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return None
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(PLANTS)
    bad = 0
    with ThreadPoolExecutor(4) as ex:
        for id, e in zip(ids, ex.map(lambda i: build_one(i, PLANTS[i]), ids)):
            print(id, "OK" if e is None else "BAD " + e, flush=True)
            bad += e is not None
    sys.exit(bad > 0)
