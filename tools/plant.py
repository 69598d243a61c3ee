"""Plants bugs for testing the checks (development only; no check reads this).
  plant.py make ID...    write seeded/ID from tools/bugs/ID.py and confirm it in a scratch copy of /repo
  plant.py check ID...   run the check of its property on /repo with the bug applied, then undo it
A file tools/bugs/ID.py defines: prop, needs, breaks, edits = [(file, old, new)], demo (Rust main.rs), hooks (optional)."""
import json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant-wt"
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
algebraics = { path = "REPO" }
num-bigint = "0.4"
num-rational = "0.4"
num-traits = "0.2"
num-integer = "0.1"
rand = "0.8"
'''
DEMO = '''#!/bin/bash
# builds main.rs beside this file against the crate in the current directory and runs it in a scratch folder
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
%sEOF
cd "$T"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target"%s
cargo build --offline --quiet
timeout 120 ./target/debug/demo
'''


def load(i):
    d = {}
    exec(open("%s/tools/bugs/%s.py" % (H, i)).read(), d)
    return d


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def copy():
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e target", WT)
    sh("git checkout -q -- .", WT)


def make(i):
    b = load(i)
    copy()
    for f, old, new in b["edits"]:
        p = WT + "/" + f
        s = open(p).read()
        if s.count(old) != 1:
            print(i, "edit matches %d times: %s" % (s.count(old), old[:60]))
            return False
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", WT).stdout
    d = "%s/seeded/%s" % (H, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/main.rs", "w").write(b["demo"])
    rf = " RUSTFLAGS='--cfg algebraics_verif --cfg algebraics_verif_quadratic'" if b.get("hooks") else ""
    open(d + "/demo.sh", "w").write(DEMO % (TOML.replace("REPO", "$R"), rf))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/plant-target")
    t = sh("timeout 300 cargo test --lib --offline -- --skip algebraic_numbers 2>&1 | tail -40", WT, env=env)
    ok = "test result: ok" in t.stdout
    r1 = sh("bash %s/demo.sh" % d, WT)
    sh("git checkout -q -- .", WT)
    r0 = sh("bash %s/demo.sh" % d, WT)
    good = ok and r1.returncode != 0 and r0.returncode == 0 and "error: could not compile" not in r1.stderr
    print(i, "OK" if good else "NOT OK", "tests %s, demo clean %d, demo with bug %d" % (ok, r0.returncode, r1.returncode))
    if not good:
        print(*[x[-250:] for x in (t.stdout, r0.stderr, r1.stderr)])
    return good


def check(i):
    b = load(i)
    d = "%s/seeded/%s" % (H, i)
    if sh("git status --porcelain", "/repo").stdout.strip():
        sys.exit("/repo is not clean")
    a = sh("git apply %s/patch.diff" % d, "/repo")
    try:
        if a.returncode:
            print(i, "patch does not apply", a.stderr)
            return
        r = sh("python3 check.py %s" % b["prop"], H)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, b["prop"], "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, r.stdout.strip().splitlines()[-1:],
              "" if v else r.stderr[-600:])
        if v:
            print("    ", r.stdout.splitlines()[1][:200])
    finally:
        sh("git checkout -q -- .", "/repo")


if __name__ == "__main__":
    for i in sys.argv[2:]:
        {"make": make, "check": check}[sys.argv[1]](i)
        sys.stdout.flush()
