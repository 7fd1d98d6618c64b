#!/usr/bin/env python3
"""design.py EVIDENCE_DIR: writes DESIGN.md."""
import json, os, re, sys, glob
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
ev = sys.argv[1] if len(sys.argv) > 1 else "/tmp/an/evidence"
out = open(os.path.join(here, "design_head.md")).read()
props = [json.loads(l) for l in open(os.path.join(verif, "properties.jsonl"))]
man = json.load(open(os.path.join(verif, "MANIFEST.json")))
tech = {c["property"]: c for c in man["checks"]}
out += "## The properties, and how each is decided\n\nEach rule is given as the check states it, with the number of constructs of the pinned tree it is decided on.\n\n"
base = None
for p in props:
    i = p["id"]
    if i not in tech:
        continue
    d = json.load(open(os.path.join(ev, i + ".json")))
    out += "### %s - %s\n\n*Technique:* %s.\n\n" % (i, p["title"], tech[i]["technique"])
    out += "*Why tests cannot settle it:* %s\n\n" % p["why_tests_cant"]
    for m in re.finditer(r"\[([a-z0-9-]+)\] (.*?) \((\d+) instances\)", d["coverage"]["explanation"]):
        out += "* **%s** (%s): %s\n" % (m.group(1), m.group(3), m.group(2))
    a = [x for x in d["assumptions"] if not x.startswith(("go/types and", "the build configuration"))]
    if a:
        out += "\n*Assumes:* " + "; ".join(a) + ".\n"
    out += "\n*Cost:* %.0f s.\n\n" % max(1, d["wall_s"])
out += "All of them assume that go/types and go/ssa represent the source faithfully, and analyse the host's build configuration (linux/amd64, default tags) unless a rule says otherwise.\n\n"
out += "## Not applicable\n\n"
na = man["not_applicable"]
for n in na:
    out += "* %s: %s\n" % (n["property"], n["reason"])
if not na:
    out += "None.\n"
out += "\n## Planted bugs and the check that catches each\n\nAll of them are caught by the check of their property; none is committed in /repo.\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n"
for s in sorted(os.listdir(os.path.join(verif, "seeded"))):
    m = json.load(open(os.path.join(verif, "seeded", s, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (s, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"))
out += "\n"
fx = ""
for l in open(os.path.join(verif, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fx += "* %s (%s): %s\n" % (m.group(1), m.group(2), m.group(3))
    m = re.match(r"known: property=(\S+) (.*)", l)
    if m:
        fx += "* %s, recorded not repaired: %s\n" % (m.group(1), m.group(2))
out += open(os.path.join(here, "design_tail.md")).read().replace("@FIXES@", fx)
open(os.path.join(verif, "DESIGN.md"), "w").write(out)
print(len(out))
