#!/usr/bin/env python3
"""mkbug.py SPEC.py: write seeded/<id>/ from a spec that defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN (Rust program), DEPS."""
import sys, os, subprocess, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Compiles main.rs against the library that build.sh made of /repo's current tree, or else builds that itself, and runs it.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
DEPS=/repo/target/debug/deps
newest() { ls -t $DEPS/lib$1-*.rlib 2>/dev/null | head -1; }
L=$(newest mx_message); X=
for c in serde_json quick_xml dataflow_rs datalogic_rs datafake_rs; do r=$(newest $c); [ -z "$r" ] || X="$X --extern $c=$r"; done
if [ -n "$L" ] && [ -z "$(find /repo/src -newer "$L" -name '*.rs' | head -1)" ] &&
   timeout 100 rustc --edition 2024 -C debuginfo=0 --cap-lints allow -L dependency=$DEPS --extern mx_message=$L $X -o "$T/demo" "$D/main.rs" 2>/dev/null
then timeout 60 "$T/demo"; exit $?; fi
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$D/Cargo.toml.txt" "$T/Cargo.toml"
cp /repo/Cargo.lock "$T/Cargo.lock"
cd "$T" && timeout 250 cargo run --offline -q
'''
TOML = '''[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
mx-message = { path = "/repo" }
serde_json = "1"
%s
'''
def head(f): return subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout
def main(p):
    g = {}
    exec(open(p).read(), g)
    d = os.path.join(ROOT, "seeded", g["ID"]); os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in g["EDITS"]:
        s = files.get(f) or head(f)
        assert s.count(old) == 1, (f, s.count(old), old)
        files[f] = s.replace(old, new)
    with tempfile.TemporaryDirectory() as t:
        out = ""
        for f, s in files.items():
            n, o = os.path.join(t, "n"), os.path.join(t, "o"); open(n, "w").write(s); open(o, "w").write(head(f))
            r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, o, n], capture_output=True, text=True)
            out += r.stdout
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/Cargo.toml.txt", "w").write(TOML % g.get("DEPS", ""))
    open(d + "/main.rs", "w").write(g["MAIN"])
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(d)
main(sys.argv[1])
