#!/usr/bin/env python3
"""developer helper: dev.py driver.c [-e entry] [srcs...] [key=val...]"""
import sys, json
sys.path.insert(0, __file__.rsplit("/", 1)[0])
import run
srcs, opts, ent, drv = [], {}, None, None
a = sys.argv[1:]
drv = a.pop(0)
pre = "drv_"
while a:
    x = a.pop(0)
    if x == "-p": pre = a.pop(0)
    elif x == "-e": ent = a.pop(0)
    elif "=" in x:
        k, v = x.split("=", 1)
        opts[k] = json.loads(v)
    else: srcs.append(x)
rs = run.run_units([{"srcs": srcs, "drivers": drv.split("+"), "opts": opts, "prefix": pre}], only=ent, procs=8 if not ent else 1)
for r in rs:
    print("== %s: %s  paths=%s steps=%s forks=%s bounds=%s/%s checks=%s/%s widen=%s  %.1fs" % (r["entry"], r["status"], *[r["stats"].get(k) for k in ("paths", "steps", "forks", "bounds_proved", "bounds_checked", "checks_proved", "checks", "widenings")], r["wall"]))
    print("   reached", r["reached"], "unmodelled", r["unmodelled"], r.get("unsure") or "")
    for e in r.get("errors", []): print("   ERR", e)
    for v in r["violations"]:
        print("   VIOL", v["kind"], v["msg"], "@", v["loc"])
        for s in v["stack"]: print("        in", s)
        for t in v["trace"][-int(__import__("os").environ.get("T","14")):]: print("        ", t)
