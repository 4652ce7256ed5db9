#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/props.json"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
cfg = json.load(open(here + "/contracts/props.json"))
checks = []
for p, c in sorted(cfg["properties"].items()):
    if c["level"] == "proof":
        tech = "contract-based deductive verification (Verus) of the functions of /repo, extracted on every run; failing inputs searched on the real code"
        note = c.get("note", "")
    else:
        tech = "bounded check of the real code by a replay harness (stand-in, not proved)"
        note = c.get("note", "Bounded: generated inputs against an independent oracle.")
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "technique": c.get("technique", tech), "level": c["level"], "level_note": note or "See DESIGN.md."})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "cfg verif_hooks", "enable": "RUSTFLAGS='--cfg verif_hooks' (set by check.py when it builds replay/)", "source_commits": ["feee013", "1e6187f"]},
    "checks": checks,
    "not_applicable": cfg["not_applicable"],
    "notes": "DESIGN.md says what each check proves and what it assumes.",
}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
