#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: confirms planted bugs in a scratch copy of /repo and keeps them under seeded/.
SPEC defines BUGS = [dict(id, prop, file, edits=[(old, new)...], needs, breaks, demo, flags=''), ...]"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the tree in the current directory.
R=$PWD
S=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$S/demo.rs" "$D/src/main.rs"
cat >"$D/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
trees = { path = "$R"@FEAT@ }
[workspace]
X
cd "$D" && RUSTFLAGS=-Awarnings CARGO_TARGET_DIR="$D/target" timeout 280 cargo run --offline -q @FLAGS@
'''
W = "/tmp/plant"
def sh(c, cwd): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
base = json.load(open("/opt/vp/BASELINE.json"))
for b in m.BUGS:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
    shutil.rmtree(W, ignore_errors=True); shutil.copytree("/repo", W, symlinks=True)
    edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
    ok = True
    for e in edits:
        f, old, new = (b["file"], *e) if len(e) == 2 else e
        p = f"{W}/src/{f}"; s = open(p).read()
        if s.count(old) != 1: print(b["id"], "OLD TEXT occurs", s.count(old), "times:", old[:60]); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    # removed lines must be the original author's
    d = sh("git diff -U0", W).stdout
    orig = False
    f = None
    for l in d.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        if l.startswith("@@"):
            a = l.split()[1][1:].split(","); st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
            for i in range(st, st + n):
                if "f3f6d64" in sh(f"git blame -s -L{i},{i} HEAD -- {f}", W).stdout: orig = True
    if not orig: print(b["id"], "changes no original line"); continue
    diff = sh("git diff", W).stdout
    S = f"{V}/seeded/{b['id']}"
    T = tempfile.mkdtemp()
    open(f"{T}/demo.sh", "w").write(DEMO.replace("@FLAGS@", b.get("flags", "")).replace("@FEAT@", b.get("feat", "")))
    open(f"{T}/demo.rs", "w").write(b["demo"])
    r = sh(f"bash {T}/demo.sh", "/repo")
    if r.returncode: print(b["id"], "DEMO FAILS UNPATCHED", r.stderr[-1500:]); continue
    r = sh(f"bash {T}/demo.sh", W)
    if r.returncode == 0: print(b["id"], "demo passes with the patch"); continue
    if "error[" in r.stderr or "could not compile" in r.stderr: print(b["id"], "does not compile", r.stderr[-1500:]); continue
    why = [l for l in (r.stderr).splitlines() if "panicked" in l or "assert" in l or "free" in l or "signal" in l][:2]
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
    bad = [l for l in r.stdout.splitlines() if "FAILED" in l or "failed" in l][:3]
    if r.returncode: print(b["id"], "TESTS FAIL", bad, r.stderr[-300:]); continue
    shutil.rmtree(S, ignore_errors=True); shutil.copytree(T, S); shutil.rmtree(T)
    open(f"{S}/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{S}/meta.json", "w"), indent=1)
    print(b["id"], "kept:", why)
shutil.rmtree(W, ignore_errors=True)
