#!/usr/bin/env python3
"""Confirms planted bugs and keeps them under /verif/seeded: plant.py FILE [ID...].

FILE is a Python file with BUGS = [dict(id, property, edits=[(file, old, new)], demo=<main.rs>, needs, breaks)].
Everything happens in a scratch copy: the patch must build and pass the tests, the demo must pass
without it and fail with it."""
import json, os, shutil, subprocess, sys, runpy
WORK = "/tmp/plant/repo"
SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Run in the repository: exit 0 if the property holds for the demonstrated case.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" || exit 3
cp "$here/main.rs" "$d/src/main.rs" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
sgmlish = { path = "$repo" }
nom = "7.0"
log = "0.4"
serde = { version = "1.0", features = ["derive"] }
EOF
cd "$d" || exit 3
CARGO_TARGET_DIR=$d/target CARGO_NET_OFFLINE=true cargo build -q --offline 2> "$d/build.log" || { cat "$d/build.log"; exit 3; }
timeout 60 "$d/target/debug/demo"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def tests(env):
    r = sh("cargo", "test", "--workspace", "--no-fail-fast", "--offline", cwd=WORK, env=env)
    n = sum(int(l.split(" passed")[0].split()[-1]) for l in r.stdout.splitlines() if l.startswith("test result"))
    return r.returncode, n, (r.stdout + r.stderr)
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    os.makedirs("/tmp/plant", exist_ok=True)
    if not os.path.isdir(WORK): subprocess.check_call(["cp", "-a", "/repo", WORK])
    env = dict(os.environ, CARGO_TARGET_DIR=WORK + "/target", CARGO_NET_OFFLINE="true")
    for b in bugs:
        if only and b["id"] not in only: continue
        sh("git", "-C", WORK, "fetch", "-q", "/repo", "HEAD"); 
        sh("git", "-C", WORK, "reset", "-q", "--hard", "FETCH_HEAD")
        d = os.path.join(SEED, b["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(b["demo"].lstrip())
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        bad = None
        r = sh(d + "/demo.sh", cwd=WORK)
        if r.returncode: bad = "demo fails on the clean tree: " + (r.stdout + r.stderr)[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(WORK, f); s = open(p).read()
            if s.count(old) != 1: bad = bad or f"{f}: {s.count(old)} matches of {old!r}"; break
            open(p, "w").write(s.replace(old, new))
        diff = sh("git", "-C", WORK, "diff").stdout
        if not bad:
            rc, n, out = tests(env)
            if rc or n != 104: bad = f"tests: rc={rc} passed={n}\n" + "\n".join(l for l in out.splitlines() if "FAILED" in l or "failed" in l or l.startswith("error") or "panicked" in l)[-2500:]
        if not bad:
            r = sh(d + "/demo.sh", cwd=WORK)
            if r.returncode in (0, 3): bad = f"demo with the patch: {r.returncode} " + (r.stdout + r.stderr)[-1500:]
        open(d + "/patch.diff", "w").write(diff)
        sh("git", "-C", WORK, "checkout", "-q", "--", ".")
        if bad:
            print("DROPPED", b["id"], bad); shutil.rmtree(d)
        else:
            print("kept", b["id"])
main()
