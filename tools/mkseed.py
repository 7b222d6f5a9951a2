#!/usr/bin/env python3
"""mkseed.py ID PROP NEEDS BREAKS FILE OLD NEW [FILE OLD NEW...]: writes seeded/ID/{patch.diff,meta.json} from a textual change of /repo."""
import sys, subprocess, json, os
def mk(id, prop, needs, breaks, edits):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def demo(id, body, files=None):
    d = "/verif/seeded/" + id
    open(d + "/demo.sh", "w").write("#!/bin/bash\n" + body)
    for n, t in (files or {}).items():
        open(d + "/" + n, "w").write(t)
CRATE = r'''set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
%s
T
CARGO_TARGET_DIR="$w/target" cargo run -q --offline --manifest-path "$w/Cargo.toml"
'''
DEPS = {"chewed": 'chewed = { path = "$repo/chewed" }', "chomp": 'chomp = { path = "$repo" }',
        "chomp-macro": 'chomp-macro = { path = "$repo/chomp-macro" }', "syn": 'syn = "1.0.58"', "proc-macro2": 'proc-macro2 = "1.0.24"',
        "quote": 'quote = "1.0.8"', "autonibble": 'autonibble = { path = "$repo/autonibble" }', "chomp-bench": 'chomp-bench = { path = "$repo/chomp-bench" }'}
def crate(id, deps, main):
    demo(id, CRATE % "\n".join(DEPS[d] for d in deps), {"main.rs": main})
# the chomp binary: accept = it must accept / reject
def nibble(id, cases):
    b = 'ok=0\n'
    for src, want in cases:
        b += "printf '%%s' %s | cargo run -q --offline --bin chomp >/dev/null 2>&1; [ $? %s 0 ] || ok=1\n" % ("'" + src.replace("'", "'\\''") + "'", "-eq" if want else "-ne")
    demo(id, b + 'exit $ok\n')
