#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/config.py."""
import json, pathlib, sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from lib.config import NOT_APPLICABLE, PROPERTIES  # noqa: E402

ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for i in ids:
    if i in PROPERTIES:
        c = PROPERTIES[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick",
                           thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="See DESIGN.md. Every check builds what it needs from /repo's working tree into /verif/.build.")
if len(sys.argv) > 1:
    pass
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
