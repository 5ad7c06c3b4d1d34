#!/usr/bin/env python3
"""dev helper: mkseed.py ID PROP FILE  (stdin: JSON {old,new,needs,breaks,demo})  writes seeded/ID from a textual replacement in /repo."""
import sys, json, subprocess, os
P = '''#!/bin/bash
# exit 0: the property holds on the case in demo.rs; nonzero: it does not
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R="$PWD"
L=$(ls -t "$R"/target/debug/librust_graph.rlib "$R"/target/debug/deps/librust_graph-*.rlib 2>/dev/null | head -1)
X=""
for c in fixedbitset serde memmap counter; do f=$(ls -t "$R"/target/debug/deps/lib$c-*.rlib 2>/dev/null | head -1); [ -n "$f" ] && X="$X --extern $c=$f"; done
rustc --edition 2018 -A warnings "$D/demo.rs" -L dependency="$R/target/debug/deps" --extern rust_graph="$L" $X -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
'''
def make(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/tmp/seedwork/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/tmp/seedwork/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/tmp/seedwork/repo", "checkout", "-q", "--", "."])
    open(d + "/demo.sh", "w").write(P)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.rs", "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
