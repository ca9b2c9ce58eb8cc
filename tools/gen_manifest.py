"""Writes /verif/MANIFEST.json from properties.jsonl and the props modules present."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))

from levels import NOTES  # noqa: E402

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "props", pid.lower() + ".py")) and pid in NOTES:
        tech, level, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "VERIF_TIER=quick ./run.sh %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech,
            "level": level,
            "level_note": note,
        })
    else:
        na.append({"property": pid, "reason": "The check for this property is not built yet."})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check copies /repo's working tree to a scratch directory, builds the C extensions there and runs "
             "generated cases against an oracle; see DESIGN.md. No hooks are needed in /repo.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
