#!/usr/bin/env python3
"""Fills the lists of DESIGN.md: repaired defects, planted bugs, properties that are not applicable."""
import re, json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = []
for l in open(here + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixed.append("* %s `%s` %s" % m.groups())
seeds = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    seeds.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["what_it_breaks"], m["needs"], m["property"]))
na = []
titles = {}
for l in open(here + "/properties.jsonl"):
    p = json.loads(l)
    titles[p["id"]] = p["title"]
for p in json.load(open(here + "/MANIFEST.json"))["not_applicable"]:
    na.append("* %s %s: %s" % (p["property"], titles[p["property"]], p["reason"]))
s = open(here + "/DESIGN.md").read()
for k, v in {"fixed": fixed, "seeds": seeds, "na": na}.items():
    s = re.sub("(?s)<!--%s-->.*<!--/%s-->" % (k, k), lambda m: "<!--%s-->\n%s\n<!--/%s-->" % (k, "\n".join(v), k), s)
open(here + "/DESIGN.md", "w").write(s)
