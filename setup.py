#!/usr/bin/env python3
"""Build every harness binary from the committed files (offline)."""
import subprocess, sys
from check import HERE, TARGET, build, env
from registry import PROPS
IRFLAGS = "-C target-cpu=x86-64 --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"  # as in sym/src/ll.rs
bins = sorted({b for p in PROPS.values() for b in p.get("bins", [])})
rc, out, t = build(bins)
print(out[-3000:])
print("built %d harnesses in %.0fs" % (len(bins), t))
if any(p.get("ir") for p in PROPS.values()):
    e = env()
    e.update(CARGO_TARGET_DIR=TARGET + "/ir", RUSTFLAGS=IRFLAGS)
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=HERE + "/ir", env=e)
    rc = rc or r.returncode
sys.exit(0 if rc == 0 else 1)
