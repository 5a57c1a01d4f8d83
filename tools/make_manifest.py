"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, "/repo")
from tools.notes import NOTES  # noqa: E402

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in NOTES and os.path.exists(os.path.join(V, "mc", "props", pid.lower() + ".py")):
        tech, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "./check.sh %s --tier quick" % pid,
                       "thorough_cmd": "./check.sh %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": "model checking: " + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": "check not built yet (the property is within reach of the technique)"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import numpy, cvxpy, gymnasium' && chmod +x check.sh",
     "checks": checks, "not_applicable": na,
     "notes": "Checks run the real code from /repo's working tree (imported directly; rendering checks run a scratch "
              "copy of the package). No hooks in /repo. Replays are written to /verif/replays."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
