#!/usr/bin/env python3
"""Records the loop structure of every function under contract, for contracts/shapes.json (run by hand when contracts change)."""
import glob, json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for p in sorted(glob.glob(f"{V}/contracts/u*.vrs")):
    u = os.path.basename(p)[:-4]
    with tempfile.TemporaryDirectory() as d:
        subprocess.run([f"{V}/extract/target/release/extract", p, "/repo/src", f"{d}/o.rs", f"{d}/m.json"], check=True)
        out[u] = json.load(open(f"{d}/m.json"))["shapes"]
with open(f"{V}/contracts/shapes.json", "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
