#!/bin/bash
# Warms the Go build cache for the race-detector builds; the checks work without it.
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys, os, tempfile, shutil
sys.path.insert(0, os.getcwd())
import check
from checks import CHECKS
done = set()
for p, c in sorted(CHECKS.items()):
    k = (c.get("pkg", "rust"), bool(c.get("race")), str(c.get("prebuild")))
    if k in done:
        continue
    done.add(k)
    w = tempfile.mkdtemp(prefix="vsetup-")
    try:
        if not check.build(c, w):
            sys.exit(1)
    finally:
        shutil.rmtree(w, ignore_errors=True)
print("built", len(done), "harness binaries")
PY
