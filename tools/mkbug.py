#!/usr/bin/env python3
"""Helper to write /verif/seeded/<id>/: see the calls in tools/bugs*.py (run once, results committed)."""
import difflib, json, os, subprocess, sys
DEMO = '''#!/bin/bash
# Builds demo.rs against the crates in /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cp /repo/Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
varisat = { path = "/repo/varisat" }
varisat-checker = { path = "/repo/varisat-checker" }
varisat-dimacs = { path = "/repo/varisat-dimacs" }
varisat-formula = { path = "/repo/varisat-formula" }
varisat-internal-proof = { path = "/repo/varisat-internal-proof" }
varisat-lrat = { path = "/repo/varisat-lrat" }
anyhow = "1"
log = "0.4"
X
cd "$tmp" || exit 99
CARGO_TARGET_DIR="$tmp/target" timeout 240 cargo build -q --offline 2>"$tmp/log" || { cat "$tmp/log"; exit 98; }
timeout 40 "$tmp/target/debug/demo"
'''
CLI = '''#!/bin/bash
# Builds the command line tool and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
(cd /repo && CARGO_TARGET_DIR="$tmp/target" timeout 240 cargo build -q --offline --locked -p varisat-cli) 2>"$tmp/log" || { cat "$tmp/log"; exit 98; }
varisat="$tmp/target/debug/varisat"
cd "$tmp" || exit 99
'''
def bug(id, prop, needs, breaks, edits, demo=None, cli=None):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        s = files.get(f) or open(f"/repo/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        files[f] = s.replace(old, new)
    out = ""
    for f, new in files.items():
        old = open(f"/repo/{f}").read()
        for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f):
            out += l
    open(f"{d}/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if cli is not None:
        open(f"{d}/demo.sh", "w").write(CLI + cli)
    else:
        open(f"{d}/demo.sh", "w").write(DEMO)
        open(f"{d}/demo.rs", "w").write(demo)
    os.chmod(f"{d}/demo.sh", 0o755)
