#!/usr/bin/env python3
"""Regenerates MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from registry import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run.py setup",
         checks=[dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                      technique=CHECKS[i]["technique"], level=CHECKS[i]["level"], level_note=CHECKS[i]["level_note"])
                 for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE.get(i, "explorer under construction"))
                         for i in ids if i not in CHECKS],
         notes="See DESIGN.md. No hooks in /repo: the explorers interpose on public functions of the library built from /repo's working tree.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
