#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from bin/registry.py and properties.jsonl
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "bin"))
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["level_note"]})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No monitor has been built for this property yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "MITO_VERIF_HOOKS", "enable": "No hooks were needed: the monitors use the public interface only, so the guard is never consulted.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks share bin/check.py (driver), bin/registry.py (what runs for which property), lib/vmon.h (monitor framework), lib/compat.h (lets every module compile with the installed pyre). Known and fixed defects: KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
