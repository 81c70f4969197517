#!/usr/bin/env python3
import sys, json, subprocess
sys.path.insert(0, "/verif")
from props import PROPS
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("verif:")]
checks = []
for k, v in sorted(PROPS.items()):
    pf = v["level"] == "proof"
    checks.append(dict(property=k, quick_cmd="python3 check.py " + k, thorough_cmd="python3 check.py " + k + " --thorough",
        technique="contract-based deductive verification of the extracted Rust with Verus" + (", bounded contract checks on the real crate for what it does not reach" if pf else "; at present bounded contract checks on the real crate"),
        level=v["level"], level_note=v.get("note", "") or ("Every obligation of the contracted functions is discharged by Verus for all inputs; assumes the trusted base listed in the evidence. Bounded part: " + v["bounded_why"] if pf else "Bounded, not proved: generated inputs on the real code against an independent reference.")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="--cfg panacea_verif", enable="RUSTFLAGS='--cfg panacea_verif' when building the harness crate", source_commits=hooks[::-1]), checks=checks, not_applicable=[]), open("/verif/MANIFEST.json", "w"), indent=1)
