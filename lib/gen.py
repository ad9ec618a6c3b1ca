#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/table.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jobs
import table

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in table.P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"], hook_needed=None)
        if p["state"]:
            a["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["quantifier"]),
                                why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in table.P:
    if p["id"] in [n["property"] for n in table.NOT_APPLICABLE]:
        continue
    assert p["id"] in jobs.PROPS, p["id"]
    checks.append(dict(property=p["id"], quick_cmd="./check %s --tier quick" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]))
for k in jobs.PROPS:
    assert k in [p["id"] for p in table.P], k
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=table.NOT_APPLICABLE,
         notes="No hooks are needed in /repo: workers are compiled into the modules with go build -overlay and observe the public API, the commands and the sanitizers. ./setup only checks the tools and warms the build cache; every check builds what it needs from /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
COST = {}
for p in table.P:
    jobs_of = jobs.PROPS[p["id"]]["jobs"]
    COST[p["id"]] = ", ".join("%s%s x%d" % (j["mod"], " " + j["flavour"] if j.get("flavour", "plain") != "plain" else "", j.get("shards", 8)) for j in jobs_of)
text = ""
for p in table.P:
    text += "### %s %s\n\n" % (p["id"], p["title"])
    text += "* Decided by: %s.\n* Monitored: %s. Over: %s.\n" % (p["technique"], ", ".join(p["observe"]), p["quantifier"])
    text += "* Workload and oracle: %s\n* Strength: %s\n* Beyond the tests: %s\n* Workers: %s." % (p["rule"], p["note"], p["why"], COST[p["id"]])
    extra = [a for a in p["assumptions"] if a != table.COMMON_ASSUME]
    if extra:
        text += "\n* Bounds: " + " ".join(extra)
    text += "\n\n"
rows = "| planted bug | caught by | needs |\n|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mp = os.path.join(sd, d, "meta.json")
    if os.path.exists(mp):
        with open(mp) as f:
            meta = json.load(f)
        rows += "| %s | %s | %s |\n" % (d, getattr(table, "MISSED", {}).get(d, meta["property"]), meta["needs"].replace("|", "/"))
with open(os.path.join(ROOT, "lib", "design.md")) as f:
    t = f.read()
with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write(t.replace("<!-- PROPERTIES -->", text.rstrip()).replace("<!-- SEEDED -->", rows.rstrip()))
