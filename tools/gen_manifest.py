#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property the harness lists; the others are not_applicable."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
have = subprocess.run([os.path.join(root, "target/debug/harness"), "list"], capture_output=True, text=True, check=True).stdout.split()
NOTES = {}
DEFAULT = ("Generated-input search against an independent oracle over the public API of the crate built from /repo; "
           "deterministic for a given VERIF_SEED, fixed amount of work. Shows absence of violations only for the inputs generated; "
           "trusts serde_yaml, indexmap, proptest and the hand-written reference model.")
checks = [dict(property=p["id"], quick_cmd=f"./run.sh check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {p['id']}",
               technique="property-based testing (proptest generators, reference-model/round-trip oracle, shrinking)",
               level="exploration", level_note=NOTES.get(p["id"], DEFAULT)) for p in props if p["id"] in have]
na = [dict(property=p["id"], reason="check not built yet") for p in props if p["id"] not in have]
json.dump(dict(version=1, setup_cmd="./run.sh build", checks=checks, not_applicable=na,
    notes="No hooks: the harness uses the public API only. ./run.sh replay FILE re-runs a shrunk counterexample."),
    open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
