"""Regenerates MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(f"{ROOT}/driver/techniques.json"))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
checks = []
for p in props:
    t = NOTES["checks"].get(p["id"])
    if t:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash /verif/check {p['id']} --tier quick",
            "thorough_cmd": f"bash /verif/check {p['id']} --tier thorough",
            "evidence_file": f"/verif/evidence/{p['id']}.json",
            "technique": t["technique"], "level": "exploration", "level_note": t["note"],
        })
m = {
    "version": 1,
    "setup_cmd": "bash /verif/check setup",
    "hooks": NOTES["hooks"],
    "checks": checks,
    "not_applicable": NOTES["not_applicable"],
    "notes": NOTES["notes"],
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
