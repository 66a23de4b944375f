#!/usr/bin/env python3
"""design.py: rewrites the generated part of DESIGN.md (property sections, findings, seed table) from props.py, harness headers, known_findings.json and seeded/*/meta.json"""
import json, os, re, glob, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read().split("<!-- generated -->")[0].rstrip() + "\n\n<!-- generated -->\n"
t += "## Properties\n"
for p in PROPS:
    t += f"\n### {p['id']} {p['title']}\n"
    if p["id"] in dict(NA): t += "Not applicable: " + dict(NA)[p["id"]] + "\n"; continue
    t += "Code encoded: " + "; ".join(f"`{a}` ({b})" for a, b in p["mech"]) + ".\n\n"
    t += "Why the tests cannot settle it: " + p["why"] + "\n\n"
    if p.get("oracle"): t += "Oracle: " + p["oracle"] + "\n\n"
    for f in sorted(glob.glob(f"{V}/harness/{p['id']}_*.c")):
        s = open(f).read(); m = re.search(r"/\*VX(.*?)\*/", s, re.S); c = json.loads(m.group(1)) if m else {}
        t += f"* `harness/{os.path.basename(f)}`: cases " + ", ".join(re.findall(r"^void vx_case_(\w+)\(void\)", s, re.M)) + f".  Bounds: {c.get('default', {}).get('bounds', '')}\n"
        for k, g in c.items():
            if k != "default" and "bounds" in g: t += f"  * {k}: {g['bounds']}\n"
t += "\n## Defects found in the repository\n\n"
for k in json.load(open(V + "/known_findings.json")): t += "* " + k["entry"] + "\n"
t += "\n## Planted changes\n\n| change | property | caught | needs | breaks |\n|---|---|---|---|---|\n"
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json")); c = "no" if os.path.exists(d + "/MISSED") else "yes"
    t += f"| {os.path.basename(d)} | {m['property']} | {c} | {m['needs']} | {m['what_it_breaks']} |\n"
open(V + "/DESIGN.md", "w").write(t)
