#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import CHECKS
NA = {}
try:
    from registry import NOT_APPLICABLE as NA
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "c705e2f..HEAD"], capture_output=True, text=True).stdout.splitlines()
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(spf_verif)", "enable": "RUSTFLAGS='--cfg spf_verif' when building the harness crates (tools/check.py)",
               "source_commits": [h.split()[0] for h in hooks if h.split(" ", 1)[1].startswith("verif:")]},
     "checks": [{"property": p, "quick_cmd": "./check.sh %s --tier quick" % p, "thorough_cmd": "./check.sh %s --tier thorough" % p,
                 "technique": CHECKS[p]["technique"], "level": CHECKS[p]["level"], "level_note": CHECKS[p]["note"]} for p in props if p in CHECKS],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
