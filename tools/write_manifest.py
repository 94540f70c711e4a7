"""Writes MANIFEST.json from the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from notes import NOTES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTES and os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        technique, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": "bash run.sh %s --tier quick" % p,
            "thorough_cmd": "bash run.sh %s --tier thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": technique,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "check not built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash run.sh setup", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks in /repo: the checks drive the real code through fake serial "
                        "ports under a virtual-time event loop."}, f, indent=1)
    f.write("\n")
