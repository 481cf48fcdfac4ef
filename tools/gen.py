#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py (the committed files are its output)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import props
R = os.path.dirname(H)
with open(R + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks = [dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"],
               thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
               technique=p["technique"], level="other", level_note=p["note"]) for p in props.PROPS if "na" not in p]
m = dict(version=1, setup_cmd="python3 -c 'import ast,sys; assert sys.version_info>=(3,9)'", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["na"]) for p in props.PROPS if "na" in p])
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(props.PROPS), "properties,", len(checks), "claimed")
