#!/bin/bash
# dev helper: re-record the snapshot of local names and loop counts, and rewrite the manifest
cd /verif && .build/vx/release/vx --repo /repo --vt vt --out /tmp/x.rs --map /tmp/x.json --snapshot snapshot.json --bless && python3 mkprops.py; rm -f /tmp/x.rs /tmp/x.json
