#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="true",
         checks=[dict(property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                      evidence_file="evidence/%s.json" % i, technique=PROPS[i]["technique"], level="exploration", level_note=PROPS[i]["note"])
                 for i in ids if i in PROPS],
         not_applicable=[dict(property=i, reason=NA.get(i, "check not built yet")) for i in ids if i not in PROPS],
         notes="Every check builds alfalfa's libraries from /repo's working tree into /verif/build (ignored by git). Replay: build/<variant>/<target> replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
