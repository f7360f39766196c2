#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/properties_config.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties_config import PROPS
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
         if "hook" in l and "verif" in l]
NA = {
    "C23": "Neither Verus nor Kani models the consumption of the call stack; no contract in their logic can state or decide it.",
}
checks, na = [], []
for l in open(os.path.join(HERE, "..", "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PROPS:
        c = PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "technique": c.get("technique", "contracts discharged by " + " and ".join(
                (["Verus"] if c.get("verus") else []) + (["Kani (full symbolic domain)"] if c.get("kani") else []))),
            "level": c.get("level", "proof"),
            "level_note": c.get("note", "Every obligation discharged for all inputs; see DESIGN.md for what is assumed."),
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "cfg(rescan_verif = \"<module>\")",
               "enable": "RUSTFLAGS='--cfg rescan_verif=\"<module>\"' (one per hook wanted) and RESCAN_VERIF_DIR=/verif/harness/hooks",
               "source_commits": hooks},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable; hooks", hooks)
