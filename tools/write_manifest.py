"""MANIFEST.json from the table of checks below (run after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; TLC-generated scenarios replayed on the code, recorded observations judged by TLC"
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
checks = []
for pid in sorted(NOTES):
    if os.path.exists(os.path.join(HERE, "pimv", "checks", pid.lower() + ".py")):
        checks.append(dict(property=pid, quick_cmd=f"bin/check {pid}", thorough_cmd=f"bin/check {pid} --tier thorough",
                           technique=NOTES[pid].get("technique", TECH), level=NOTES[pid].get("level", "model_checking"),
                           level_note=NOTES[pid]["note"]))
have = {c["property"] for c in checks}
props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
na = [dict(property=p, reason="check under construction") for p in props if p not in have]
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="Each check runs TLC on spec/*.tla and the code of /repo; see DESIGN.md. No hooks in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
