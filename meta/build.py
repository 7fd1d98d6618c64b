#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/*.json entries."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here)
entries = []
for f in sorted(glob.glob(os.path.join(here, "p_*.py"))):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    entries += ns["P"]
order = {"R": 0, "I": 1, "C": 2, "N": 3, "E": 4, "F": 5, "G": 6, "O": 7}
entries.sort(key=lambda e: (order[e["id"][0]], e["id"]))
seen = set()
with open(os.path.join(verif, "properties.jsonl"), "w") as out:
    for e in entries:
        assert e["id"] not in seen and re.match(r"^[A-Z][0-9]{2,3}$", e["id"]), e["id"]
        seen.add(e["id"])
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        mech = [{"name": n, "where": w} for n, w in e["mechanism"]]
        anchors = {"files": e["files"], "mechanism": mech, "observe_at": e.get("observe", []), "hook_needed": None}
        if e.get("state"):
            anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in e["state"]]
        out.write(json.dumps({"id": e["id"], "title": e["title"], "statement": e["statement"],
            "quantifier": {"over": e["over"], "text": e["quant"]}, "why_tests_cant": e["why"], "anchors": anchors}) + "\n")
checks, na = [], []
for e in entries:
    if e.get("na"):
        na.append({"property": e["id"], "reason": e["na"]})
        continue
    checks.append({"property": e["id"], "quick_cmd": "./check.sh %s quick" % e["id"], "thorough_cmd": "./check.sh %s thorough" % e["id"],
        "technique": e["technique"], "level": "other", "level_note": e["note"]})
json.dump({"version": 1, "setup_cmd": "bash ./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(verif, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(verif, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
