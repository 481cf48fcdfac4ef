#!/usr/bin/env python3
"""Refresh the generated tables of DESIGN.md (properties, planted bugs) between their markers."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def props():
    out = ["| id | rule | enumerated constants and scope (data, lengths, coefficients stay symbolic) |", "|---|---|---|"]
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        s = open(V + "/sa/rules/%s.py" % p["id"].lower()).read()
        m = re.search(r'RULE = \((.*?)\)\n', s, re.S)
        r = re.sub(r'"\s*\n\s*"', '', m.group(1)).strip('"') if m else re.search(r'RULE = "(.*)"', s).group(1)
        q = p["quantifier"]
        q = q.get("text", "") if isinstance(q, dict) else str(q)
        out.append("| %s %s | %s | %s |" % (p["id"], p["title"], r, q))
    return out


def seeds():
    out = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
    for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(d))
        n = os.path.basename(os.path.dirname(d))
        out.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], ", ".join(caught.get(n, [])) or "-"))
    return out


s = open(V + "/DESIGN.md").read()
for name, f in (("properties", props), ("seeded", seeds)):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    if a in s:
        s = s[:s.index(a) + len(a)] + "\n" + "\n".join(f()) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
