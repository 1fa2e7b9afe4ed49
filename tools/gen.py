#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, V)
import props   # noqa
import checks  # noqa

TECH = ("abstract interpretation of the compiler IR (path-sensitive; interval, bit, value-set and content domains; typestate and "
        "ownership tracking of heap objects)")
out = []
ids = [p["id"] for p in props.PROPS]
assert len(ids) == len(set(ids))
for p in props.PROPS:
    d = {k: v for k, v in p.items() if k not in ("na", "note", "technique", "level")}
    assert len(d["title"]) <= 80, d["title"]
    out.append(json.dumps(d))
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(out) + "\n")
man = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": []}
for p in props.PROPS:
    if p.get("na"):
        man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert p["id"] in checks.PROPS, p["id"]
    man["checks"].append({
        "property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
        "technique": p.get("technique", TECH), "level": p.get("level", "other"), "level_note": p["note"]})
missing = set(checks.PROPS) - set(ids)
assert not missing, missing
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import glob
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
secs = ["## Decision per property", "",
        "*Cost* is the wall time of the quick check on 8 cores (rounded). *Rule* is what the check compares; *bounds* is what is left unexplored.", ""]
cost = json.load(open(HERE + "/cost.json")) if os.path.exists(HERE + "/cost.json") else {}
for p in props.PROPS:
    secs.append("### %s %s" % (p["id"], p["title"]))
    secs.append("")
    if p.get("na"):
        secs += ["Not applicable: " + p["na"], ""]
        continue
    c = checks.PROPS[p["id"]]
    drv = []
    src = []
    for u in c["units"]:
        for x in ([u["driver"]] if isinstance(u.get("driver"), str) else u.get("drivers", [])):
            if x not in drv:
                drv.append(x)
        for x in u["srcs"]:
            if x not in src:
                src.append(x)
    secs.append("- *Rule*: %s." % c["rule"])
    if drv:
        secs.append("- *Analysed*: %s by the entries of %s." % (", ".join(src) or "the headers", ", ".join(drv)))
    if c["custom"]:
        secs.append("- *Also*: %s (custom.py)." % ", ".join(f.__name__ for f in c["custom"]))
    secs.append("- *Oracle*: the statement, read from manual page, RFC or header, written out in the driver independently of the code.")
    secs.append("- *Bounds*: %s" % p["note"])
    secs.append("- *Why tests cannot*: %s" % p["why_tests_cant"])
    if p["id"] in cost:
        secs.append("- *Cost*: %d s." % max(1, round(cost[p["id"]])))
    if p["id"] in seeds:
        secs.append("- *Planted bugs caught*: %s." % ", ".join(i for i, _ in seeds[p["id"]]))
    secs.append("")
secs += ["## Planted bugs", "", "| bug | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
for k in sorted(seeds):
    for i, m in seeds[k]:
        secs.append("| %s | %s | %s | %s | %s |" % (i, k, m.get("caught_by", k), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
secs.append("")
open(V + "/DESIGN.md", "w").write(open(HERE + "/design_head.md").read() + "\n" + "\n".join(secs) + "\n" + open(HERE + "/design_tail.md").read())
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
