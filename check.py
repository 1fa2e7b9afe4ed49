#!/usr/bin/env python3
"""check.py <property> : decide one property from /repo's current source.

Prints VIOLATION/KNOWN-FINDING lines, writes evidence/<property>.json and exits 0 or 1
(2: the source could not be analysed at all)."""
import sys, os, json, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import run            # noqa: E402
import checks         # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def known():
    """open findings: {(property, kind, function, message-part)}; fixed entries suppress nothing"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding:"):
                d = json.loads(ln[8:])
                out.append(d)
    return out


def fn_of(v):
    for s in reversed(v.get("stack") or []):
        return s.split("in ")[-1].split(" (")[0].strip()
    return ""


def innermost(v):
    """innermost analysed function that is not a driver"""
    st = v.get("stack") or []
    return st[-1] if st else ""


def suppressed(prop, v, kn):
    for k in kn:
        if k.get("property") != prop:
            continue
        if k.get("kind") not in (None, v["kind"]):
            continue
        if k.get("function") and not any(s.split(" ")[0] == k["function"] for s in v.get("stack") or []):
            continue
        if k.get("msg") and k["msg"] not in v["msg"]:
            continue
        if k.get("entry") and k["entry"] != v.get("entry"):
            continue
        return k
    return None


def main():
    prop = sys.argv[1]
    t0 = time.time()
    P = checks.PROPS[prop]
    kn = known()
    viol, notes, units_ev = [], [], []
    tot = {}
    reached, sites, funcs, unmod = {}, {}, set(), set()
    results = []
    build_error = None
    for c in P.get("custom", ()):
        try:
            r = c()
        except run.BuildError as e:
            build_error = str(e)
            continue
        results.append(r)
    units = []
    for u in P.get("units", ()):
        u = dict(u)
        if TIER == "thorough" and u.get("thorough"):
            o = dict(u.get("opts", {}))
            o.update(u["thorough"])
            u["opts"] = o
        units.append(u)
    if units:
        try:
            results += run.run_units(units)
        except run.BuildError as e:
            build_error = str(e)
    if build_error:
        print("ERROR: the source under analysis does not compile:\n%s" % build_error[-1500:])
        return 2
    incomplete = []
    for r in results:
        units_ev.append({"entry": r["entry"], "status": r["status"], "paths": r["stats"].get("paths", 0),
                         "wall_s": round(r["wall"], 2)})
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in r["reached"].items():
            reached[k] = reached.get(k, 0) + v
        for k, v in r.get("check_sites", {}).items():
            sites[k] = sites.get(k, 0) + (v if isinstance(v, int) else 1)
        funcs.update(r["functions"])
        unmod.update(r["unmodelled"])
        if r["status"] == "incomplete":
            incomplete.append(r["entry"])
            for e in r.get("errors", [])[-2:]:
                notes.append("%s: %s" % (r["entry"], e.strip().splitlines()[-1][:300]))
        for e in r.get("unsure", ()):
            notes.append("%s: not decided: %s" % (r["entry"], e))
        for v in r["violations"]:
            v["entry"] = r["entry"]
            viol.append(v)
    # reach obligations: a named outcome the analysis can no longer find any path to
    missing = [l for l in P.get("reach", ()) if l not in reached]
    if missing and not incomplete and not viol and not unmod:
        for l in missing:
            viol.append({"kind": "unreachable", "msg": "no path reaches the required outcome '%s'" % l, "loc": "", "trace": [],
                         "stack": [], "entry": ""})
    elif missing:
        notes.append("outcomes not reached: %s" % ", ".join(missing))
    fresh, old = [], []
    for v in viol:
        k = suppressed(prop, v, kn)
        (old if k else fresh).append((v, k))
    for k in {json.dumps(k, sort_keys=True) for _, k in old}:
        k = json.loads(k)
        print("KNOWN-FINDING: property=%s %s" % (prop, k.get("what", "")))
    rp = os.path.join(HERE, "evidence", "%s.violations.txt" % prop)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if os.path.exists(rp):
        os.unlink(rp)
    if fresh:
        with open(rp, "w") as f:
            for v, _ in fresh:
                f.write("%s: %s\n  at %s   (analysis entry %s)\n" % (v["kind"], v["msg"], v["loc"], v["entry"]))
                for s in v.get("stack") or []:
                    f.write("  in %s\n" % s)
                f.write("  path conditions:\n")
                for t in v.get("trace") or []:
                    f.write("    %s\n" % t)
                f.write("\n")
        for v, _ in fresh[:6]:
            print("%s: %s at %s" % (v["kind"], v["msg"], v["loc"]))
            for s in (v.get("stack") or [])[-4:]:
                print("    in %s" % s)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    obl = {"bounds": [tot.get("bounds_checked", 0), tot.get("bounds_proved", 0)],
           "assertions": [tot.get("checks", 0), tot.get("checks_proved", 0)]}
    cov = {
        "explanation": P.get("explanation", "Path-sensitive abstract interpretation of the LLVM IR of the current source. ") +
        " Each entry is a driver that fixes nothing but the shape of the call; all input bytes, lengths, options and the answers of "
        "libmtbl/libwdns/libc are unknowns. Every reported number is counted by this run.",
        "rule": P["rule"],
        "entries": units_ev,
        "obligations": int(tot.get("bounds_checked", 0) + tot.get("checks", 0) + tot.get("rule_sites", 0)),
        "discharged": int(tot.get("bounds_proved", 0) + tot.get("checks_proved", 0) + tot.get("rule_ok", 0)),
        "memory_accesses_checked": int(tot.get("bounds_checked", 0)),
        "assertion_instances": int(tot.get("checks", 0)),
        "abstract_paths": int(tot.get("paths", 0)),
        "loop_widenings": int(tot.get("widenings", 0)),
        "assertion_sites": sorted(sites),
        "outcomes_reached": sorted(reached),
        "functions_analysed": sorted(f for f in funcs if not f.startswith(("drv_", "abs_", "mdl_"))),
        "unmodelled_externals": sorted(unmod),
        "notes": notes,
        "known_findings_seen": len(old),
    }
    for r in results:
        if r.get("detail"):
            cov.setdefault("detail", []).extend(r["detail"])
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "other",
          "coverage": cov, "assumptions": P.get("assumptions", []) + checks.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d entries, %d/%d obligations discharged, %d incomplete, %.1fs" % (
        prop, len(results), cov["discharged"], cov["obligations"], len(incomplete), time.time() - t0))
    for n in notes:
        print("  note: %s" % n)
    return 1 if fresh else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
