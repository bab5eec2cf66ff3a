#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, tools/how.json, known_findings.txt and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
how = json.load(open("tools/how.json"))
t = "| id | title | how it is decided |\n|---|---|---|\n"
for l in open("properties.jsonl"):
    p = json.loads(l)
    t += "| %s | %s | %s |\n" % (p["id"], p["title"], how[p["id"]])
f = "".join("* " + l[7:] for l in open("known_findings.txt") if l.startswith("fixed:"))
b = "| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"
for d in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(d))
    b += "| %s | %s | %s | %s |\n" % (d.split("/")[1], m.get("caught", m["property"]), m["what_it_breaks"], m["needs"])
s = open("tools/design.md").read().replace("TABLE\n", t).replace("FIXES\n", f).replace("BUGS\n", b)
open("DESIGN.md", "w").write(s)
