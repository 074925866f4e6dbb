#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json.  A property is claimed when checks/<id>.py
exists; its NOTE dict (technique, level, level_note) lives in that file."""
import json, os, ast, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
NA = json.load(open(ROOT + "/tools/not_applicable.json"))
checks, na = [], []
for i in ids:
    f = f"{ROOT}/checks/{i}.py"
    if os.path.exists(f):
        note = None
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == "NOTE":
                note = ast.literal_eval(n.value)
        checks.append({"property": i,
                       "quick_cmd": f"python3 checks/{i}.py",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{i}.py",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": note["technique"], "level": note["level"],
                       "level_note": note["level_note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "machinery not built yet")})
m = {"version": 1,
     "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every check copies /repo's working tree to a scratch directory and builds it there, unmodified or with link-level substitutions", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "All checks rebuild compiler and runtime from /repo's working tree in a scratch directory they remove. See DESIGN.md."}
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not claimed")
