#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/vf.py build",
     "hooks": {"guard": "none (the machinery needs no hook in /repo: it links the unmodified sources and interposes libc/libstdc++ and -fsanitize=thread entry points)",
               "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 tools/vf.py check %s --tier quick" % i, "thorough_cmd": "python3 tools/vf.py check %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "bounded exhaustive exploration of the real code against a reference model"),
                            "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
