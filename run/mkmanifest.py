#!/usr/bin/env python3
"""Regenerates MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "run"))
from config import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {
    "version": 1,
    "setup_cmd": "python3 run/check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks are used: the simulator is linked underneath the unmodified library",
              "source_commits": []},
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 run/check.py {p} --tier quick",
        "thorough_cmd": f"python3 run/check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection",
        "level": CHECKS[p].get("level", "exploration"),
        "level_note": CHECKS[p].get("note", "seeded search over workloads, schedules, simulated time and injected "
                                            "faults; every execution is a pure function of its seed and is checked "
                                            "by the property's oracle and by the race, memory and progress detectors"),
    } for p in props if p in CHECKS],
    "not_applicable": [{"property": p, "reason": NOT_APPLICABLE[p]} for p in props if p in NOT_APPLICABLE],
    "notes": "See DESIGN.md. Replay a violation with: python3 run/check.py <id> --replay <file> --trace",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
missing = [p for p in props if p not in CHECKS and p not in NOT_APPLICABLE]
print(len(m["checks"]), "checks;", "properties without check:", missing)
