"""Planting bugs: plant(...) confirms a change in a scratch copy and keeps it in seeded/<id>/."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/plant/repo"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false")
ENV.pop("GOWORK", None)

DEMO = r'''#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-buildvcs=false
unset GOWORK
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export GOTMPDIR=$work
printf '{"Replace": {"%s/go/@DIR@/zzdemo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$work/overlay.json"
cd "$repo/go/@MOD@" || exit 2
go test -c -vet=off @RACE@-o "$work/demo.test" -overlay "$work/overlay.json" ./@SUB@/ || exit 3
cd "$work" && timeout 200 ./demo.test -test.timeout 180s
'''


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def fresh():
    if not os.path.isdir(SCR):
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        sh(["cp", "-a", "/repo", SCR])
    sh(["git", "fetch", "-q", "/repo", "HEAD"], SCR)
    sh(["git", "checkout", "-q", "-f", "FETCH_HEAD"], SCR)
    sh(["git", "clean", "-fdq"], SCR)


def tests():
    rc, out = sh(["go", "build", "./...", "./types/uuid/...", "./transport/wasmrs/cmd/wasmrs/..."], SCR + "/go")
    if rc:
        return "build: " + out
    rc, out = sh(["go", "test", "-count=1", "./internal/...", "./msgpack/..."], SCR + "/go")
    if rc:
        return "tests: " + out
    return None


def check(prop, seed="1", tier="quick"):
    e = dict(ENV, VERIF_REPO=SCR, VERIF_SEED=seed)
    t = time.time()
    p = subprocess.run(["python3", "check.py", prop, tier], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, time.time() - t


def plant(id, prop, edits, needs, breaks, demo, race=False, seeds=("1",), dir="internal/zzdemo", pkg="zzdemo", mod=""):
    print("==", id, prop, flush=True)
    fresh()
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/demo_test.go", "w").write("//go:build go1.23\n\npackage %s\n\n" % pkg + demo.lstrip())
    open(d + "/demo.sh", "w").write(DEMO.replace("@RACE@", "-race " if race else "").replace("@DIR@", dir).replace("@MOD@", mod).replace("@SUB@", os.path.relpath(dir, mod) if mod else dir))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    rc, out = sh(["bash", d + "/demo.sh"], SCR)
    if rc:
        print("  DEMO FAILS ON CLEAN TREE\n" + out[-1500:])
        return False
    for f, old, new in edits:
        p = os.path.join(SCR, "go", f)
        s = open(p).read()
        if s.count(old) != 1:
            print("  EDIT matches %d times in %s: %s" % (s.count(old), f, old))
            return False
        # the replaced text must stem from the original repository
        open(p, "w").write(s.replace(old, new))
    sh(["gofmt", "-l", "."], SCR + "/go")
    diff = subprocess.run(["git", "diff"], cwd=SCR, stdout=subprocess.PIPE, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    # lines removed must be original ones
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], SCR)[1].strip()
    e = tests()
    if e:
        print("  NOT KEPT:", e[-1500:])
        return False
    rc, out = sh(["bash", d + "/demo.sh"], SCR)
    if rc == 0:
        print("  DEMO PASSES WITH THE BUG")
        return False
    print("  demo:", [l for l in out.splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l][:2])
    for s in seeds:
        rc, out, t = check(prop, s)
        v = [l[:260] for l in out.splitlines() if l.startswith("VIOLATION") or l.startswith("  case ")]
        print("  check seed %s: rc=%d %.0fs" % (s, rc, t), *(v[:3] if rc == 1 else [out[-600:]]), sep="\n    ", flush=True)
    return rc == 1
