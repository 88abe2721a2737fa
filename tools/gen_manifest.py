#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
exec(open(os.path.join(here, "checks_table.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
for pid in ids:
    if pid in CHECKS:
        bin_, tech, note = CHECKS[pid]
        checks.append({"property": pid,
            "quick_cmd": f"./check {bin_} {pid} quick",
            "thorough_cmd": f"./check {bin_} {pid} thorough",
            "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": pid, "reason": NA.get(pid, "not built yet")} for pid in ids if pid not in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg kompact_mc", "enable": "RUSTFLAGS --cfg kompact_mc, set in /verif/mc/.cargo/config.toml",
               "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
