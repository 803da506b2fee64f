#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props_cfg.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import props_cfg
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "../properties.jsonl"))]
checks = []
for i in ids:
    if i not in props_cfg.CFG: continue
    c = props_cfg.CFG[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=c["technique"],
                       level=c.get("level", "exploration"), level_note=c["level_note"]))
na = [dict(property=i, reason=props_cfg.NOT_APPLICABLE.get(i, "no check yet (work in progress)")) for i in ids if i not in props_cfg.CFG]
m = dict(version=1, setup_cmd="sh tools/setup.sh", checks=checks, not_applicable=na,
         notes="Every check compiles its harness (harness/*.cpp) against /repo's working tree with sanitizers and runs it; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(H, "../MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
