#!/usr/bin/env python3
"""build.py WORK REPO: compiles the Rust guest to WORK/rguest.wasm, offline.

The target's standard library is built as well (only its sources are
installed), so its dependencies and those of the crates are laid out as a
directory source, from the toolchain's and from cargo's cache.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tarfile

work, repo = sys.argv[1:3]
here = os.path.dirname(os.path.abspath(__file__))
base = os.path.join(work, "rg")
vend = os.path.join(base, "vendor")
os.makedirs(vend)
src = os.path.join(base, "rguest")
ign = shutil.ignore_patterns("target")
shutil.copytree(here, src, ignore=ign)
shutil.copytree(os.path.join(here, "..", "rust", "shim"), os.path.join(base, "rust", "shim"), ignore=ign)
p = os.path.join(src, "Cargo.toml")
t = open(p).read().replace('"/repo/', '"%s/' % repo)
open(p, "w").write(t)
sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, cwd=base).strip()
for d in glob.glob(sysroot + "/lib/rustlib/src/rust/library/vendor/*"):
    os.symlink(d, os.path.join(vend, os.path.basename(d)))
cargo_home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
lock = open(os.path.join(src, "Cargo.lock")).read()
for name, version in re.findall(r'name = "(.*)"\nversion = "(.*)"\nsource = ', lock):
    n = name + "-" + version
    if os.path.exists(os.path.join(vend, n)):
        os.unlink(os.path.join(vend, n))
    for c in glob.glob(os.path.join(cargo_home, "registry", "cache", "*", n + ".crate"))[:1]:
        with tarfile.open(c) as f:
            f.extractall(vend, filter="data")
        h = hashlib.sha256(open(c, "rb").read()).hexdigest()
        json.dump({"files": {}, "package": h}, open(os.path.join(vend, n, ".cargo-checksum.json"), "w"))
os.makedirs(os.path.join(src, ".cargo"))
open(os.path.join(src, ".cargo", "config.toml"), "w").write(
    '[source.crates-io]\nreplace-with = "v"\n[source.v]\ndirectory = "%s"\n' % vend)
target = os.path.join(base, "target")
env = dict(os.environ, RUSTFLAGS="--cap-lints warn", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never", RUSTUP_AUTO_INSTALL="0")
env.pop("RUSTC_WRAPPER", None)
r = subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--target", "wasm32-unknown-unknown",
                    "-Zbuild-std=std,panic_abort"], cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-6000:])
    sys.exit(1)
shutil.copy(os.path.join(target, "wasm32-unknown-unknown", "release", "rguest.wasm"), os.path.join(work, "rguest.wasm"))
shutil.rmtree(base, ignore_errors=True)
