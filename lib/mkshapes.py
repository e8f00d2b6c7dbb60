"""Rewrites contracts/shapes.json: the loops of every function under contract, which its invariants were written for.
Run after changing a contract (never by a check)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import shape
out = {}
with tempfile.TemporaryDirectory() as d:
    for f in sorted(os.listdir(V + "/contracts")):
        if f.endswith(".vrs"):
            u = f[:-4]
            rep = d + "/r.json"
            subprocess.run([sys.argv[1] if len(sys.argv) > 1 else V + "/.target/vx/debug/vx", "/repo", V + "/contracts/" + f, V + "/contracts/prelude", d + "/o.rs", rep], check=True)
            out[u] = {k: v for k, v in shape(json.load(open(rep))["functions"]).items()}
json.dump(out, open(V + "/contracts/shapes.json", "w"), indent=0, sort_keys=True)
