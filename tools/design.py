#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the markers) from checks.json and seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(root + "/checks.json"))
text = open(root + "/DESIGN.md").read()

def fill(name, body):
    global text
    a, b = "<!-- begin %s -->" % name, "<!-- end %s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + "\n" + body + "\n" + text[j:]

for p, c in checks.items():
    if "<!-- begin %s -->" % p not in text:
        print("no section for", p); continue
    rows = ["* `%s` (%s): %s" % (h["func"], h["pkg"], h["bounds"]) for h in c["harness"]]
    if c["assumptions"]:
        rows.append("* assumes: " + "; ".join(c["assumptions"]))
    fill(p, "\n".join(rows))
rows = ["| property | planted bug | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json"), key=lambda f: (json.load(open(f))["property"], f)):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (m["property"], f.split("/")[-2], m["needs"].replace("|", "/")))
fill("seeds", "\n".join(rows))
man = json.load(open(root + "/MANIFEST.json"))
title = {p["id"]: p["title"] for p in map(json.loads, open(root + "/properties.jsonl"))}
fill("na", "\n".join("* **%s %s**: %s" % (n["property"], title[n["property"]], n["reason"]) for n in man["not_applicable"]))
open(root + "/DESIGN.md", "w").write(text)
