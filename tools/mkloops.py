#!/usr/bin/env python3
"""specs/loops.json: how many loops each function under contract has on the pinned tree (the loops its invariants are for)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mods = "num_types,utils,naive_hash,params,codec,context,rlwe,rgsw,lwe,decision_tree,oram"
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call([V + "/extract/target/debug/extract", "--src", "/repo/src", "--specs", V + "/specs", "--out", d + "/o.rs", "--map", d + "/m.json", "--modules", mods])
    fns = json.load(open(d + "/m.json"))["fns"]
json.dump({f["key"]: f["loops"] for f in sorted(fns, key=lambda f: f["key"]) if f["mode"] == "verified"}, open(V + "/specs/loops.json", "w"), indent=0)
