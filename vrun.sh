#!/bin/bash
# dev helper: vrun.sh MODULE...   extract and verify the named modules
B=/verif/.build; mkdir -p $B/dev
$B/vx/release/vx --out $B/dev/crate.rs --map $B/dev/map.json $VXARGS || exit 3
python3 - <<P
import json;m=json.load(open("$B/dev/map.json"))
for x in m["missing"]: print("MISSING",x)
for f in m["functions"]:
    if f["lost"]: print("LOST",f["id"],f["lost"])
P
A=(); for m in "$@"; do A+=(--verify-only-module $m); done
cd $B/dev && timeout ${T:-600} verus crate.rs --triggers-mode silent --no-report-long-running ${A[@]} $VARGS 2>&1 | grep -v "^warning: unused\|^note: automatically" | head -${N:-120}
