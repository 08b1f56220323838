"""writes properties.jsonl and MANIFEST.json from tools/props.py and checks/meta.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import NA, NA_REASON, PROPS  # noqa: E402
from checks.meta import META  # noqa: E402

for p in PROPS + NA:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
claimed = [p for p in PROPS if p["id"] in META]
assert len(claimed) == len(PROPS), set(p["id"] for p in PROPS) ^ set(META)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./run.sh --setup",
    "checks": [{"property": p["id"], "quick_cmd": "./run.sh %s" % p["id"], "thorough_cmd": "./run.sh %s --tier thorough" % p["id"],
                "technique": META[p["id"]].get("technique", "deterministic simulation: seeded search over faults and crashes"),
                "level": "exploration",
                "level_note": META[p["id"]].get("note", "Seeded sample, not exhaustive. " + META[p["id"]]["rule"])} for p in claimed],
    "not_applicable": [{"property": p["id"], "reason": NA_REASON[p["id"]]} for p in NA],
    "notes": "No hooks in /repo: every seam (file layer, SQLite VFS, time, locks, drivers) is replaced from outside.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
