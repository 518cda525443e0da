"""Regenerate MANIFEST.json from the check modules that exist."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "checks", f"{i.lower()}.py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check {i} --tier quick",
                "thorough_cmd": f"./check {i} --tier thorough",
                "technique": NOTES[i]["technique"],
                "level": "model_checking",
                "level_note": NOTES[i]["level_note"],
            }
        )
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
