"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
from plan import PLAN, NOT_APPLICABLE

props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i not in PLAN:
        continue
    pl = PLAN[i]
    checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python run.py check {i}",
                       thorough_cmd=f"/opt/venv/bin/python run.py check {i} --thorough",
                       evidence_file=f"evidence/{i}.json", technique=pl["technique"], level=pl["level"], level_note=pl["note"]))
out = dict(version=1, setup_cmd="/opt/venv/bin/python run.py setup", checks=checks,
           not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
           notes="No hooks in /repo: contracts are attached from /verif. See DESIGN.md.")
json.dump(out, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
