#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/props.json and properties.jsonl."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = json.load(open(f"{V}/contracts/props.json"))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
na = json.load(open(f"{V}/contracts/not_applicable.json"))
m = {
    "version": 1,
    "setup_cmd": "bash vp/setup.sh",
    "hooks": {"guard": "cfg vp_hooks", "enable": "RUSTFLAGS=\"--cfg vp_hooks\"", "source_commits": ["26db34a"]},
    "checks": [
        {"property": p, "quick_cmd": f"python3 vp/check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 vp/check.py {p} thorough",
         "technique": props[p].get("technique", "contract-based deductive verification: Verus on functions extracted from the source on every run; counterexamples by executable contracts on the real crate"),
         "level": props[p]["level"], "level_note": props[p].get("note", "")}
        for p in ids if p in props],
    "not_applicable": [{"property": p, "reason": na.get(p, "not yet under contract")} for p in ids if p not in props],
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
