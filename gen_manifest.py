#!/usr/bin/env python3
"""Writes MANIFEST.json from props_conf.py and properties.jsonl."""
import json
from props_conf import PROPS
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks are needed: the harness compiles /repo's sources as they are and interposes at link level", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": f"./check.py {i} --tier quick", "thorough_cmd": f"./check.py {i} --tier thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": PROPS[i]["technique"], "level": PROPS[i]["level"], "level_note": PROPS[i]["note"]} for i in ids if i in PROPS],
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
