#!/usr/bin/env python3
"""Write and validate the planted bugs of /verif/seeded (see tools/plants.py).

  plant.py write ID...      write patch.diff, demo and meta.json
  plant.py validate ID...   in a scratch copy of /repo: demo passes, patch applies, the test suite passes, demo fails
  plant.py catch ID...      in /repo itself: apply the patch, run the quick check of the property, undo the patch
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(__file__))
from plants9 import PLANTS
SEEDED = "/verif/seeded"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           TZDIR="/usr/share/zoneinfo", CARGO_TERM_COLOR="never")
DEMO = r'''#!/bin/bash
# Run in the repository. Exit 0 if the property held on the demonstrated input.
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export TZDIR=/usr/share/zoneinfo
@ENV@here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir "$work/src" "$work/tz"
cp "$here/main.rs" "$here/common.rs" "$work/src/"
cp "$here/Cargo.lock" "$work/"
cat > "$work/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
momentous = { path = "$repo" }
[profile.release]
lto = false
END
export DEMO_DIR="$work/tz"
cd "$work" || exit 2
cargo build --offline --quiet @PROFILE@--target-dir "$work/target" 2> "$work/build.log" || { cat "$work/build.log"; exit 2; }
@RUN@
'''

def spec(i):
    return next(p for p in PLANTS if p["id"] == i)

def patch_tree(tree, p):
    for f, old, new in p["edits"]:
        path = f"{tree}/src/{f}"
        s = open(path).read()
        assert s.count(old) == 1, f"{p['id']}: {f}: {s.count(old)} occurrences of {old!r}"
        open(path, "w").write(s.replace(old, new))

def write(i):
    p = spec(i)
    d = f"{SEEDED}/{i}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
        patch_tree(t + "/r", p)
        diff = subprocess.run(["git", "diff"], cwd=t + "/r", capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    rel = p.get("release", False)
    bin_ = '"$work/target/' + ("release" if rel else "debug") + '/demo"'
    run = p.get("run", "timeout 200 @BIN@").replace("@BIN@", bin_)
    demo = DEMO.replace("@ENV@", p.get("env", "")).replace("@PROFILE@", "--release " if rel else "").replace("@RUN@", run)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    here = os.path.dirname(os.path.abspath(__file__))
    shutil.copy(here + "/demo_common.rs", d + "/common.rs")
    shutil.copy(here + "/demo_Cargo.lock", d + "/Cargo.lock")
    open(d + "/main.rs", "w").write("mod common;\n#[allow(unused_imports)]\nuse common::*;\n" + p["demo"].lstrip("\n"))
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
              open(d + "/meta.json", "w"), indent=1)

def sh(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, errors="replace")
    return r.returncode, r.stdout + r.stderr

def validate(i):
    d = f"{SEEDED}/{i}"
    t = f"/tmp/plant-scratch/{i}"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    copy = t + "/repo"
    demo = t + "/demo"
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    os.makedirs(demo)
    for f in os.listdir(d):
        if f not in ("patch.diff", "meta.json"):
            shutil.copy(f"{d}/{f}", demo)
    out = []
    t0 = time.time()
    c0, o0 = sh(f"bash {demo}/demo.sh", copy)
    t1 = time.time() - t0
    if c0 != 0:
        out.append(f"demo on unchanged tree: {c0}\n{o0[-600:]}")
    c, o = sh(f"git apply {d}/patch.diff", copy)
    if c: out.append("apply failed " + o)
    c, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", copy)
    passed = sum(int(x) for x in re.findall(r"(\d+) passed", o))
    if c or passed < 25: out.append(f"tests: exit {c} passed {passed}\n" + "\n".join(l for l in o.splitlines() if "FAILED" in l or "error" in l)[:600])
    c1, o1 = sh(f"bash {demo}/demo.sh", copy)
    if c1 in (0, 2): out.append(f"demo with patch: {c1}\n{o1[-600:]}")
    shutil.rmtree(t)
    print(f"{i}: {'OK' if not out else 'BAD'} ({t1:.0f}s) {o1.strip().splitlines()[-1][:160] if o1.strip() else ''}", *out, sep="\n   " if out else " ", flush=True)
    return not out

def catch(i, tier="quick"):
    d = f"{SEEDED}/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        t0 = time.time()
        r = subprocess.run(["python3", "check.py", prop, tier], cwd="/verif", capture_output=True, text=True, errors="replace", env=dict(os.environ, VERIF_SEED="1"))
        t = time.time() - t0
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
    o = r.stdout + r.stderr
    ok = r.returncode == 1 and f"VIOLATION property={prop}" in o
    print(f"{i} {prop}: {'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {t:.0f}s {o.strip().splitlines()[-1][:200] if o.strip() else ''}", flush=True)
    return ok

if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or [p["id"] for p in PLANTS]
    bad = []
    if cmd == "validate":
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            bad = [i for i, ok in zip(ids, ex.map(validate, ids)) if not ok]
    else:
        for i in ids:
            if {"write": write, "catch": catch}[cmd](i) is False:
                bad.append(i)
    if bad: print("BAD:", *bad)
