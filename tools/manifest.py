"""
Writes MANIFEST.json from the table below (run by hand, committed).
"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = {}


def c(pid, level, technique, note):
    CHECKS[pid] = (level, technique, note)


exec(open(os.path.join(HERE, "tools", "claims.py")).read())

props = [
    json.loads(line)["id"]
    for line in open(os.path.join(HERE, "properties.jsonl"))
]
checks, missing = [], []
for pid in props:
    if pid in CHECKS and os.path.exists(
        os.path.join(HERE, "checks", f"{pid.lower()}.py")
    ):
        level, technique, note = CHECKS[pid]
        checks.append(
            dict(
                property=pid,
                quick_cmd=f"/opt/venv/bin/python run.py {pid}",
                thorough_cmd=f"/opt/venv/bin/python run.py {pid} --thorough",
                evidence_file=f"evidence/{pid}.json",
                technique=technique,
                level=level,
                level_note=note,
            )
        )
    else:
        missing.append(
            dict(property=pid, reason=NOT_APPLICABLE.get(pid, "check not built yet"))
        )
manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python tools/setup.py",
    hooks=dict(
        guard="none: no hook was added to /repo",
        enable="not needed: the checks wrap standard library functions before importing aiootp from /repo",
        source_commits=[],
    ),
    checks=checks,
    not_applicable=missing,
    notes="Every check imports /repo's working tree directly (no build product, no byte code cache) and enumerates bounded executions of it.",
)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "claimed;", len(missing), "not")
