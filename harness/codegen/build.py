#!/usr/bin/env python3
"""build.py WORK REPO MODE SEED COUNT: lets the repository's generator write the
Go code of COUNT random models into WORK/gen and prints the overlay entries of
the packages which compile; those that do not go to WORK/gen/fails.json."""
import json, os, re, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
PKG = "internal/zzverif/cg"


def run(cmd, cwd, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def generate(work, repo, mode, seed, count, replace, env):
    """Returns (overlay entries, error text)."""
    go = os.path.join(repo, "go")
    out = os.path.join(work, "gen")
    os.makedirs(out, exist_ok=True)
    bundle = os.path.join(work, "gen.mjs")
    rc, log = run(["node", os.path.join(HERE, "bundle.js"), os.path.join(repo, "codegen"), bundle], work)
    if rc:
        return None, "bundling the generator failed\n" + log
    rc, log = run(["node", bundle, out, str(seed), str(count), mode], work)
    if rc:
        return None, "running the generator failed\n" + log
    rep = {}
    for r, _, fs in os.walk(out):
        for f in fs:
            if f.endswith(".go"):
                rep[os.path.join(go, PKG, os.path.relpath(os.path.join(r, f), out))] = os.path.join(r, f)
    ov = os.path.join(work, "genoverlay.json")
    json.dump({"Replace": {**replace, **rep}}, open(ov, "w"))
    base = ["./msgpack/...", "./transform", "./invoke", "./proxy", "./payload", "./rx/...", "./types/uuid", "./" + PKG + "/reg"]
    rc, log = run(["go", "build", "-overlay", ov] + base, go, env)
    if rc:
        return None, "what the generated code uses does not build\n" + log
    pkgs = sorted({"./" + os.path.relpath(os.path.dirname(k), go) for k in rep})
    rc, log = run(["go", "build", "-overlay", ov] + pkgs, go, env)
    models = json.load(open(os.path.join(out, "models.json")))
    fails = {}
    if rc:
        for part in re.split(r"^# ", log, flags=re.M)[1:]:
            m = re.match(r"\S+/cg/(m\d+)", part)
            if m:
                fails.setdefault(m.group(1), "")
                fails[m.group(1)] += part.replace(out, "")[:1500]
        for m in re.finditer(r"^.*/gen/(m\d+)/.*$", log, flags=re.M):
            fails.setdefault(m.group(1), m.group(0).replace(out, ""))
        if not fails:
            return None, "building the generated code failed\n" + log
    json.dump(fails, open(os.path.join(out, "fails.json"), "w"))
    rep = {k: v for k, v in rep.items() if os.path.relpath(v, out).split(os.sep)[0] not in fails}
    imports = "".join('_ "github.com/nanobus/iota/go/%s/%s"\n' % (PKG, p)
                      for m in models if m["name"] not in fails for p in m["packages"])
    imp = os.path.join(out, "models_test.go")
    open(imp, "w").write("//go:build go1.23\n\npackage cg\n\nimport (\n%s)\n" % imports if imports else
                         "//go:build go1.23\n\npackage cg\n")
    rep[os.path.join(go, PKG, "models_test.go")] = imp
    return rep, None
