#!/usr/bin/env python3
"""Planted bugs: generate /verif/seeded/<id>/ from bugs*.py, validate, run checks.

  seed.py gen [ids]        write patch.diff, demo.sh, meta.json (+ demo crate)
  seed.py validate [ids]   in a scratch copy: builds, stable tests pass, demo 0 -> nonzero
  seed.py check [ids] [-a] apply to /repo, run the property's check (-a: every check), undo
"""
import json, os, subprocess, sys, shutil, re, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEED = os.path.join(VERIF, "seeded")
REPO = "/repo"
SCRATCH = "/tmp/seedrepo"
sys.path.insert(0, HERE)
BUGS = []
for f in sorted(os.listdir(HERE)):
    if re.fullmatch(r"bugs\w*\.py", f):
        BUGS += __import__(f[:-3]).BUGS
assert len({b["id"] for b in BUGS}) == len(BUGS)

PRELUDE = '''#![allow(unused_imports, dead_code, unused_mut)]
use funspace::*;
use ndarray::prelude::*;
use num_complex::Complex;
type C = Complex<f64>;
/// Deterministic values in (-1, 1)
fn val(i: usize) -> f64 { ((i as f64 + 1.) * 12.9898).sin() * 0.9 }
fn fail(msg: String) { eprintln!("DEMO: {msg}"); std::process::exit(1); }
fn check(ok: bool, msg: &str) { if !ok { fail(msg.to_string()); } }
fn close(a: f64, b: f64, tol: f64, msg: &str) {
    if !((a - b).abs() <= tol) { fail(format!("{msg}: got {a:e} expected {b:e}")); }
}
'''
PRELUDE_MPI = '''#![allow(unused_imports, dead_code, unused_mut)]
use funspace::*;
use funspace::space_mpi::*;
use ndarray::prelude::*;
use num_complex::Complex;
fn val(i: usize) -> f64 { ((i as f64 + 1.) * 12.9898).sin() * 0.9 }
fn fail(msg: String) -> ! { eprintln!("DEMO: {msg}"); std::process::exit(1); }
fn check(ok: bool, msg: &str) { if !ok { fail(msg.to_string()); } }
'''
DEMO = '''#!/bin/bash
# usage: cd <repository>; bash demo.sh   (0: property holds, nonzero: broken)
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src"
cp "$HERE/main.rs" "$T/src/main.rs"
cp "$REPO/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
funspace = { path = "$REPO"@FEAT@ }
ndarray = "0.17"
num-complex = "0.4"
[profile.dev]
opt-level = 1
debug = false
TOML
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$T/target} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0@ENV@
cargo build --offline@REL@ --manifest-path "$T/Cargo.toml" >"$T/build.log" 2>&1 || { tail -n 30 "$T/build.log"; exit 3; }
cd "$T" || exit 2
@RUN@
'''
RUN = 'timeout 120 "$CARGO_TARGET_DIR/debug/demo"\n'
RUN_MPI = '''MPI="mpirun --allow-run-as-root --oversubscribe --bind-to none --mca btl self,vader --mca btl_vader_single_copy_mechanism none --mca plm isolated --mca oob_tcp_if_include lo"
for np in @NP@; do
    timeout 60 $MPI -np $np "$CARGO_TARGET_DIR/debug/demo" || exit 1
done
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def gen(b):
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    mpi = b.get("mpi")
    files = {}
    for (path, old, new) in b["edits"]:
        src = files.get(path) or open(os.path.join(REPO, path)).read()
        n, given = 1, isinstance(old, tuple)
        if given:
            old, n = old
        parts = src.split(old)
        assert len(parts) > n, (b["id"], path, "text not found", old)
        if not given and len(parts) != 2:
            raise SystemExit(f'{b["id"]}: {len(parts)-1} matches in {path}, give (text, k)')
        files[path] = old.join(parts[:n]) + new + old.join(parts[n:])
    diff = ""
    for path, text in files.items():
        t = "/tmp/seedfile"
        open(t, "w").write(text)
        r = subprocess.run(["diff", "-u", "--label", "a/" + path, "--label", "b/" + path, os.path.join(REPO, path), t], text=True, stdout=subprocess.PIPE)
        assert r.stdout, (b["id"], "empty diff")
        diff += r.stdout
        os.remove(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    rel = b.get("release")
    demo = DEMO.replace("@REL@", " --release" if rel else "").replace("@RUN@", RUN.replace("debug", "release") if rel else "@RUN@")
    demo = demo.replace("@FEAT@", ', features = ["mpi"]' if mpi else "")
    demo = demo.replace("@ENV@", " LIBCLANG_PATH=${LIBCLANG_PATH:-/usr/lib/llvm-14/lib}" if mpi else "")
    demo = demo.replace("@RUN@", RUN_MPI.replace("@NP@", mpi) if mpi else RUN)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    open(os.path.join(d, "main.rs"), "w").write((PRELUDE_MPI if mpi else PRELUDE) + b["demo"].lstrip("\n"))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

def ensure_scratch():
    if not os.path.exists(SCRATCH):
        subprocess.check_call(["cp", "-a", REPO, SCRATCH])
    subprocess.check_call(["git", "-C", SCRATCH, "checkout", "-q", "--", "."])

ENV = dict(os.environ, CARGO_TARGET_DIR=SCRATCH + "/target", CARGO_NET_OFFLINE="true",
           LIBCLANG_PATH="/usr/lib/llvm-14/lib")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def demo_rc(b):
    mpi = b.get("mpi")
    env = dict(ENV, DEMO_TARGET_DIR="/tmp/seeddemo" + ("-mpi" if mpi else ""))
    r = sh(f'bash {SEED}/{b["id"]}/demo.sh', cwd=SCRATCH, env=env)
    return r.returncode, r.stdout.strip()[-400:]

def validate(b):
    ensure_scratch()
    rc0, o0 = demo_rc(b)
    r = sh(f'git -C {SCRATCH} apply {SEED}/{b["id"]}/patch.diff')
    if r.returncode: return f"PATCH FAILS {r.stdout}"
    try:
        r = sh("cargo test --workspace --features mpi --no-fail-fast --locked --offline -- --test-threads 8", cwd=SCRATCH, env=ENV)
        open("/tmp/seed.log", "w").write(r.stdout)
        sh("python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log")
        res = json.load(open("/tmp/seed.json"))
        passed = set(res.get("passed", []))
        bad = STABLE - passed
        rc1, o1 = demo_rc(b)
    finally:
        sh(f"git -C {SCRATCH} checkout -q -- .")
    ok = rc0 == 0 and rc1 not in (0, 2, 3) and not bad
    return f'{"OK" if ok else "BAD"} demo {rc0}->{rc1} tests_missing={sorted(bad)[:3]} | {o0[-200:] if rc0 else ""} | {o1[-160:]}'

def check(b, allchecks, tier="quick"):
    st = sh(f"git -C {REPO} status --porcelain").stdout.strip()
    assert not st, st
    out = []
    ids = [b["property"]] if not allchecks else sorted(json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl"))
    ids += [x for x in b.get("also", []) if x not in ids]
    r = sh(f'git -C {REPO} apply {SEED}/{b["id"]}/patch.diff')
    assert r.returncode == 0, r.stdout
    try:
        for i in ids:
            t = time.time()
            r = sh(f"bash {VERIF}/bin/check.sh {i} {tier}", cwd=VERIF, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append((i, r.returncode, v[:1], round(time.time() - t), r.stdout[-300:] if r.returncode not in (0, 1) else ""))
    finally:
        sh(f"git -C {REPO} checkout -q -- .")
    return out

if __name__ == "__main__":
    cmd, rest = sys.argv[1], sys.argv[2:]
    allc = "-a" in rest
    ids = [x for x in rest if not x.startswith("-")]
    for b in BUGS:
        if ids and b["id"] not in ids: continue
        if cmd == "gen": gen(b)
        elif cmd == "validate":
            gen(b); print(b["id"], validate(b), flush=True)
        elif cmd == "check":
            res = check(b, allc)
            own = [r for r in res if r[0] == b["property"]][0]
            print(b["id"], "CAUGHT" if own[1] == 1 and own[2] else f"MISSED rc={own[1]} {own[4]}", f"{own[3]}s",
                  "| all:", " ".join(f"{r[0]}" if r[1] == 1 else f"({r[0]}:{r[1]})" for r in res if r[1]), flush=True)
