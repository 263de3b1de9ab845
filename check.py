#!/usr/bin/env python3
"""Driver of the runtime monitors: check.py PROPERTY [quick|thorough|replay FILE]

Builds the harness package of the property from /repo's current working tree
(through a build overlay, nothing is written to /repo), runs it in several
child processes, merges what the monitors observed, writes
evidence/PROPERTY.json and prints VIOLATION / KNOWN-FINDING lines.
"""
import json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = os.path.join(REPO, "go")
MOD = "github.com/nanobus/iota/go/internal/zzverif"

sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def goenv(work):
    env = dict(os.environ)
    env.pop("GOWORK", None)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false",
               GOTMPDIR=work, TMPDIR=work)
    env.setdefault("HOME", "/root")
    return env


def overlay(work, extra=None):
    rep = {}
    base = os.path.join(VERIF, "harness")
    for root, _, files in os.walk(base):
        rel = os.path.relpath(root, base)
        if rel.split(os.sep)[0].startswith(("wasm", "external", "rust", "codegen")):
            continue
        for f in files:
            if f.endswith(".go"):
                rep[os.path.join(GO, "internal", "zzverif", rel, f)] = os.path.join(root, f)
    for k, v in (extra or {}).items():
        rep[os.path.join(GO, k)] = os.path.join(VERIF, v)
    p = os.path.join(work, "overlay.json")
    json.dump({"Replace": rep}, open(p, "w"))
    return p


def wasm_overlay(work):
    """What lets Go instead of TinyGo compile the guest packages to WebAssembly."""
    h = os.path.join(VERIF, "harness", "wasm")
    rep = {"transport/wasmrs/guest/imports_webassembly.go": "guest_imports.go",
           "msgpack/unsafe_webassembly.go": "msgpack_unsafe.go",
           "internal/zzverif/gguest/main.go": "gguest/main.go"}
    p = os.path.join(work, "wasmoverlay.json")
    json.dump({"Replace": {os.path.join(GO, k): os.path.join(h, v) for k, v in rep.items()}}, open(p, "w"))
    return p


def build_rust(cfg, work):
    """Copies the Rust harness aside (cargo rewrites its lock file) and builds it
    from the crates of the working tree, without the network."""
    src = os.path.join(work, "rust")
    shutil.copytree(os.path.join(VERIF, "harness", "rust"), src, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = os.path.join(src, "Cargo.toml")
        t = open(p).read().replace('"/repo/', '"%s/' % REPO)
        open(p, "w").write(t)
    env = dict(os.environ)
    env.pop("RUSTC_WRAPPER", None)
    env.update(CARGO_TARGET_DIR=os.path.join(work, "target"), RUSTFLAGS="--cap-lints warn", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", TMPDIR=work, RUSTUP_AUTO_INSTALL="0")
    cmd = ["cargo", "build", "--offline"]
    p = subprocess.run(cmd, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = os.path.join(work, "target", "debug", "zzrust")
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD FAILED: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        return None
    return out


def generated(cfg, work, ov, tier, seed):
    """Adds the code which the repository's generator writes for random models."""
    sys.path.insert(0, os.path.join(VERIF, "harness", "codegen"))
    import build as cg
    gen = cfg["generate"]
    replace = json.load(open(ov))["Replace"]
    rep, err = cg.generate(work, REPO, gen["mode"], seed, gen["thorough" if tier == "thorough" else "quick"], replace, goenv(work))
    if err:
        print("BUILD FAILED: " + err[-6000:])
        return False
    replace.update(rep)
    json.dump({"Replace": replace}, open(ov, "w"))
    return True


def build(cfg, work, tier="quick", seed=1):
    """Returns the path of the test binary or None (with the log printed)."""
    if cfg.get("rust"):
        return build_rust(cfg, work)
    out = os.path.join(work, "check.test")
    ov = overlay(work, cfg.get("overlay"))
    if cfg.get("generate") and not generated(cfg, work, ov, tier, seed):
        return None
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out, "-tags", "verif"]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append(MOD + "/" + cfg["pkg"])
    env = goenv(work)
    p = subprocess.run(cmd, cwd=GO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("BUILD FAILED: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
        return None
    wov = wasm_overlay(work)
    for step in cfg.get("prebuild", []):
        e2 = dict(env)
        e2.update(step.get("env", {}))
        c2 = [a.replace("{work}", work).replace("{overlay}", ov).replace("{wasmoverlay}", wov).replace("{repo}", REPO) for a in step["cmd"]]
        p = subprocess.run(c2, cwd=GO, env=e2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("BUILD FAILED: %s\n%s" % (" ".join(c2), p.stdout[-6000:]))
            return None
    return out


CRASH = re.compile(r"^(panic: |fatal error: |thread '.*' panicked at|thread '.*' has overflowed its stack|unexpected fault address|SIGSEGV|runtime: goroutine stack exceeds|runtime: out of memory)", re.M)


def run_child(cfg, binary, work, prop, tier, seed, shard, shards, only, res, timeout):
    name = "s%d" % shard
    out = os.path.join(work, name + ".json")
    log = os.path.join(work, name + ".log")
    race = os.path.join(work, name + ".race")
    env = goenv(work)
    env.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=out,
               VERIF_SHARD="%d/%d" % (shard, shards), VERIF_ONLY=only or "", VERIF_WORK=work,
               GORACE="log_path=%s halt_on_error=0 exitcode=0 history_size=3" % race,
               GOTRACEBACK="all")
    env.update({k: str(v).replace("{work}", work) for k, v in cfg.get("env", {}).items()})

    def pre():
        if cfg.get("mem_gb"):
            lim = int(cfg["mem_gb"] * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        os.setpgrp()

    r = {"shard": shard, "violations": [], "done": False, "inconclusive": None}
    with open(log, "wb") as lf:
        p = subprocess.Popen([binary, "-test.timeout=0", "-test.run", "^TestCheck$"], cwd=work, env=env,
                             stdout=lf, stderr=subprocess.STDOUT, preexec_fn=pre)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 3)
                time.sleep(1.5)
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = None
    data = {}
    if os.path.exists(out):
        try:
            data = json.load(open(out))
        except ValueError:
            data = {}
    r["data"] = data
    r["violations"] += data.get("violations") or []
    r["done"] = bool(data.get("done"))
    cur = ""
    try:
        cur = open(out + ".cur").read().strip()
    except OSError:
        pass
    text = open(log, errors="replace").read()
    if rc is None:
        r["inconclusive"] = "watchdog: shard %d stopped after %ds in case %s" % (shard, timeout, cur)
        r["tail"] = text[-3000:]
    elif not r["done"]:
        m = CRASH.search(text)
        if m:
            r["violations"].append({"property": prop, "case": cur, "class": "process-crash",
                                    "message": text[m.start():m.start() + 2500]})
        elif not r["violations"]:
            r["inconclusive"] = "shard %d ended with code %s in case %s" % (shard, rc, cur)
            r["tail"] = text[-3000:]
    # race reports
    blocks = []
    for f in glob.glob(race + ".*"):
        t = open(f, errors="replace").read()
        blocks += [b for b in t.split("==================") if "WARNING: DATA RACE" in b]
    seen = {}
    for b in blocks:
        # the accesses' own stacks end where the goroutine-creation stacks begin
        acc = re.split(r"\nGoroutine \d+ ", b)[0]
        fn = [x for x in re.findall(r"\n  (\S+)\(\)\n", acc) if x.startswith("github.com/nanobus/iota/go")]
        own = [x for x in fn if "/zzverif/" not in x]
        key = " <-> ".join(sorted(set(re.sub(r"\[.*?\]", "", x) for x in own))[:4]) or "harness"
        seen.setdefault(key, (0, b))
        seen[key] = (seen[key][0] + 1, seen[key][1])
    for key, (n, b) in sorted(seen.items()):
        if key == "harness":
            r["inconclusive"] = "race report without any frame of the repository"
            r["tail"] = b[:3000]
            continue
        r["violations"].append({"property": prop, "case": cur, "class": "data-race",
                                "message": "data race (%d reports) %s\n%s" % (n, key, b[:3500])})
    r["races"] = len(blocks)
    res[shard] = r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("open", [])


def known(kf, v):
    for k in kf:
        if k["property"] == v["property"] and re.fullmatch(k["class"], v["class"]) \
                and re.search(k.get("case", ""), v["case"]) and re.search(k.get("message", ""), v["message"], re.S):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if tier == "replay":
        rp = json.load(open(sys.argv[3]))
        only, seed, tier = rp["case"], rp["seed"], rp["tier"]
    cfg = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vchk-%s-" % prop)
    try:
        rc = go(prop, tier, seed, only, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(prop, tier, seed, only, cfg, work, t0):
    binary = build(cfg, work, tier, seed)
    if not binary:
        return 2
    tb = time.time() - t0
    shards = 1 if only else cfg.get("shards", 6)
    timeout = cfg.get("timeout", 600 if tier == "quick" else 3000)
    rounds = 1
    res = {}
    ths = []
    for s in range(shards):
        th = threading.Thread(target=run_child, args=(cfg, binary, work, prop, tier, seed, s, shards, only, res, timeout))
        th.start()
        ths.append(th)
    for th in ths:
        th.join()
    evals = 0
    distinct = set()
    counts = {}
    samples = []
    viol = []
    inconc = []
    for s in sorted(res):
        r = res[s]
        d = r["data"]
        evals += d.get("evaluations", 0)
        distinct.update(d.get("distinct") or [])
        for k, v in (d.get("counts") or {}).items():
            counts[k] = counts.get(k, 0) + v
        samples += (d.get("samples") or [])[:2]
        viol += r["violations"]
        if r["inconclusive"]:
            inconc.append(r["inconclusive"])
            print("INCONCLUSIVE %s\n%s" % (r["inconclusive"], r.get("tail", "")))
    kf = load_known()
    fresh, hit = [], {}
    for v in viol:
        k = known(kf, v)
        if k:
            hit[k["id"]] = k
        else:
            fresh.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    missing = [] if only else [k for k, n in cfg.get("need", {}).items() if counts.get(k, 0) < n]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(distinct), "rule": cfg["rule"],
            "samples": samples[:8], "observed": counts, "shards": shards,
            "race_detector": bool(cfg.get("race")),
            "known_findings_hit": sorted(hit),
            "inconclusive": inconc,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, build %.1fs, total %.1fs" %
          (prop, tier, seed, evals, len(distinct), tb, time.time() - t0))
    print("observed: " + ", ".join("%s=%d" % kv for kv in sorted(counts.items())))
    if fresh:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        shown = set()
        for n, v in enumerate(fresh):
            key = (v["class"], v["message"][:60])
            if key in shown or len(shown) >= 12:
                continue
            shown.add(key)
            rp = os.path.join(rd, "%s-%d.json" % (prop, len(shown)))
            json.dump({"property": prop, "case": v["case"], "seed": seed, "tier": tier, "class": v["class"],
                       "message": v["message"], "stack": v.get("stack"),
                       "run": "python3 check.py %s replay %s" % (prop, rp)}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  case %s [%s] %s" % (v["case"], v["class"], v["message"][:1500]))
            if v.get("stack"):
                print("  " + "\n  ".join(v["stack"].splitlines()[6:20]))
        return 1
    if inconc:
        return 2
    if missing:
        print("INCONCLUSIVE: the monitors observed too little of: " + ", ".join(missing))
        return 2
    return 0


if __name__ == "__main__":
    main()
