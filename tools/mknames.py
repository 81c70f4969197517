#!/usr/bin/env python3
"""Writes specs/names.json: the names of functions, fields, parameters and locals that contracts and hooks may use."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import canon
json.dump(canon.baseline(os.environ.get("PANACEA_REPO", "/repo") + "/src"), open(os.path.join(V, "specs", "names.json"), "w"), indent=0, sort_keys=True)
