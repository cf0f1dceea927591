#!/usr/bin/env python3
"""Write seeded changes and confirm them in a scratch copy (development aid; no check uses it).

plant.py make [ID..]     write seeded/<ID>/ and confirm: builds, stable tests pass, demo 0 -> nonzero
plant.py catch [ID..]    apply to /repo, run the property's quick check, undo
"""
import json, os, subprocess, sys, shutil
V = "/verif"
WT = "/tmp/plant_wt"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTFLAGS="-C target-cpu=x86-64", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# exit 0 when the behaviour is as stated, nonzero otherwise; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
if [ -e "$repo/Cargo.lock" ]; then cp "$repo/Cargo.lock" "$d/Cargo.lock"; else cp /opt/vp/Cargo.lock "$d/Cargo.lock"; fi
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sci-rs = { path = "$repo/sci-rs", features = ["std"] }
nalgebra = "0.33.2"
ndarray = "0.16.1"
[profile.dev]
debug = false
T
cd "$d" || exit 3
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-cpu=x86-64" CARGO_TARGET_DIR="$d/target"
cargo run --offline --quiet
'''
sys.path.insert(0, V)
from plants import PLANTS

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])

def tests(cwd):
    out = ""
    for f in ["--all-features", ""]:
        r = sh("cargo test --workspace %s --no-fail-fast --offline -- --test-threads 8" % f, cwd)
        out += r.stdout
    fails = [l for l in out.splitlines() if " ... FAILED" in l or l.startswith("error")]
    return fails

def make(ids):
    if not os.path.isdir(WT):
        shutil.copytree("/repo", WT, symlinks=True)
    for i in ids:
        p = PLANTS[i]
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", WT)
        ok = True
        for f, old, new, *nth in p["edits"]:
            path = os.path.join(WT, "sci-rs/src", f)
            s = open(path).read()
            if nth:
                i0 = -1
                for _ in range(nth[0] + 1):
                    i0 = s.index(old, i0 + 1)
                open(path, "w").write(s[:i0] + new + s[i0 + len(old):])
                continue
            if s.count(old) != 1:
                print(i, "EDIT does not match once:", f, s.count(old)); ok = False; break
            open(path, "w").write(s.replace(old, new))
        if not ok: continue
        patch = sh("git diff", WT).stdout
        d = os.path.join(V, "seeded", i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/main.rs", "w").write(p["demo"])
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        fails = tests(WT)
        a = sh("bash %s/demo.sh" % d, WT)
        sh("git checkout -q -- .", WT)
        b = sh("bash %s/demo.sh" % d, WT)
        good = not fails and a.returncode != 0 and b.returncode == 0
        print(i, "OK" if good else "REJECTED", "tests", fails[:3], "patched", a.returncode, "clean", b.returncode, "" if b.returncode == 0 else b.stdout[-600:], a.stdout[-160:].replace("\n", " | ") if a.returncode else "", flush=True)
        if not good:
            shutil.rmtree(d)

def catch(ids):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        p = json.load(open(d + "/meta.json"))["property"]
        r = sh("git apply %s/patch.diff" % d, "/repo")
        if r.returncode: print(i, "does not apply", r.stdout); continue
        try:
            r = subprocess.run(["python3", V + "/check.py", p], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        finally:
            sh("git checkout -q -- .", "/repo")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, (v or r.stdout.splitlines()[-1:])[0][:200], flush=True)

if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(PLANTS if sys.argv[1] == "make" else os.listdir(V + "/seeded"))
    (make if sys.argv[1] == "make" else catch)(ids)
