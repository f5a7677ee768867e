#!/usr/bin/env python3
"""Assembles DESIGN.md: tools/design_head.md, a section per property, the table of planted changes, the findings."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
claimed = {c["property"] for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
text = {}
cur = None
for l in open(os.path.join(HERE, "tools", "design_props.md")):
    if l.startswith("## "):
        cur = l[3:].strip()
        text[cur] = ""
    elif cur:
        text[cur] += l
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip() + "\n"]
out.append("\n## How each property is decided\n")
for p in props:
    out.append("\n### %s. %s\n" % (p["id"], p["title"]))
    if p["id"] in claimed:
        out.append("\n" + text.get(p["id"], "").strip() + "\n")
    else:
        out.append("\nNot applicable: %s\n" % na[p["id"]])
out.append("\n## Planted changes\n\nEach compiles, passes the stable tests and has a demonstration that fails with it and passes without it. All were\n"
           "run against the checks; \"caught by\" names the check that reports it.\n\n| change | property, caught by | what it breaks | needs |\n|---|---|---|---|\n")
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    out.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["what_it_breaks"].replace("|", "/"), str(m["needs"]).replace("|", "/")))
out.append("\n## Defects found and repaired\n\n")
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, prop, commit, what = l.strip().split(" ", 3)
        out.append("- %s (%s): %s\n" % (prop.split("=")[1], commit, what))
out.append("\n" + open(os.path.join(HERE, "tools", "design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
