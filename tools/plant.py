#!/usr/bin/env python3
"""plant.py BATCH.py [ID...]  - confirm planted bugs in a scratch copy of /repo and store them in /verif/seeded

A batch defines BUGS = [dict(id=, property=, needs=, breaks=, edits=[(file, old, new)], demo=RUST_MAIN)].
Kept only if: it compiles, the stable tests pass, the demo exits 0 without and nonzero with it."""
import json, os, subprocess, sys, shutil, runpy

SCR = "/tmp/plant"
REPO = SCR + "/repo"
SEED = os.environ.get("SEEDED", "/verif/seeded")
DEMO_SH = r'''#!/bin/bash
# run with cwd /repo; exits 0 if the property's example holds
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
derivre = { path = "$repo" }
regex-syntax = "0.8.3"
anyhow = "1.0.75"
[workspace]
EOF
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline -q
'''

def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    b = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    if not os.path.isdir(REPO):
        os.makedirs(SCR, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", REPO])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    names = [s.split("::")[1] for s in stable]
    for bug in b:
        if want and bug["id"] not in want: continue
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=REPO)
        ok = True
        for f, old, new in bug["edits"]:
            p = REPO + "/src/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(bug["id"], "EDIT-MISMATCH", f, s.count(old), repr(old[:60])); ok = False; break
            open(p, "w").write(s.replace(old, new))
        if not ok: continue
        diff = subprocess.run(["git", "diff"], cwd=REPO, stdout=subprocess.PIPE, text=True).stdout
        r = sh(["timeout", "-k", "5", "300", "cargo", "test", "--workspace", "--no-fail-fast", "--offline"], REPO)
        bad = [n for n in names if ("test %s ... ok" % n) not in r.stdout]
        if bad:
            print(bug["id"], "TESTS-FAIL" if "error" not in r.stdout or "test " in r.stdout else "BUILD", bad)
            if "could not compile" in r.stdout: print(r.stdout[-3000:])
            continue
        d = SCR + "/demo"
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/main.rs", "w").write(bug["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        with_ = sh([d + "/demo.sh"], REPO)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=REPO)
        without = sh([d + "/demo.sh"], REPO)
        if with_.returncode == 0 or without.returncode != 0 or "could not compile" in with_.stdout:
            print(bug["id"], "DEMO", "with", with_.returncode, "without", without.returncode)
            print(without.stdout[-1500:] if without.returncode else with_.stdout[-1500:])
            continue
        t = SEED + "/" + bug["id"]
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        for x in ("main.rs", "demo.sh"): shutil.copy(d + "/" + x, t)
        open(t + "/patch.diff", "w").write(diff)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        print(bug["id"], "KEPT")
        sys.stdout.flush()

main()
