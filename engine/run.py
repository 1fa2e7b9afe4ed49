"""Build the IR of /repo's current sources plus analysis drivers and run the analyser."""
import json
import multiprocessing
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

import absint  # noqa
import interp  # noqa
import models  # noqa
import models_dns  # noqa

CLANG = "clang-18"
OPT = "opt-18"


class BuildError(Exception):
    pass


def irdump_path():
    p = os.path.join(VERIF, "build", "irdump")
    src = os.path.join(HERE, "irdump.cpp")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        cfg = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
        ld = subprocess.check_output(["llvm-config-18", "--ldflags", "--libs"], text=True).split()
        tmp = "%s.%d" % (p, os.getpid())
        subprocess.check_call(["clang++-18", "-O1"] + cfg + [os.path.join(HERE, "irdump.cpp"), "-o", tmp] + ld)
        os.rename(tmp, p)
    return p


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def compile_tu(args):
    src, out, flags = args
    base = [CLANG, "-std=gnu11", "-D_GNU_SOURCE", "-w", "-g", "-O0", "-Xclang", "-disable-O0-optnone",
            "-fno-builtin", "-fno-discard-value-names", "-emit-llvm", "-c", "-I" + REPO, "-I" + os.path.join(VERIF, "stubs"),
            "-I" + os.path.join(VERIF, "drivers"), "-I" + os.path.join(VERIF, "models"), "-I" + os.path.join(REPO, "dnstable"),
            "-include", os.path.join(VERIF, "stubs", "config.h")]
    sh(base + list(flags) + [src, "-o", out + ".0"])
    sh([OPT, "-passes=mem2reg", out + ".0", "-o", out])
    return out


def build(srcs, drivers, flags=(), srcflags=None):
    """-> Module"""
    with tempfile.TemporaryDirectory(prefix="absint") as d:
        jobs = []
        for i, s in enumerate(list(srcs) + list(drivers) + ["models/libc.c"]):
            p = s if s.startswith("/") else os.path.join(REPO if i < len(srcs) else VERIF, s)
            fl = list(flags) + list((srcflags or {}).get(s, ()))
            jobs.append((p, os.path.join(d, "m%d.bc" % i), fl))
        with multiprocessing.pool.ThreadPool(8) as tp:
            outs = tp.map(compile_tu, jobs)
        r = subprocess.run([irdump_path()] + outs, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode:
            raise BuildError("irdump: " + r.stderr.decode()[-2000:])
    return absint.Module(json.loads(r.stdout))


def run_entry(a):
    mod, entry, opts, setup = a
    t0 = time.time()
    res = {"entry": entry, "violations": [], "status": "complete"}
    tries = [dict(opts)]
    if opts.get("fallback", True) and not opts.get("cut"):
        o2 = dict(opts)
        o2["cut"] = opts.get("fallback_cut", 3)
        o2["timeout"] = opts.get("fallback_timeout", 60)
        tries.append(o2)
    for i, o in enumerate(tries):
        it = interp.Interp(mod, o)
        for k in ("malloc_fail", "clock_fail", "sepmax"):
            if k in o:
                setattr(it, k, o[k])
        if o.get("intr"):
            it.intr.update(o["intr"])
        if o.get("endhooks"):
            it.endhooks.extend(o["endhooks"])
        try:
            it.run(entry, setup=setup)
            res["status"] = "complete" if i == 0 else "bounded (loop iterations <= %d)" % o["cut"]
            err = None
        except absint.Budget as b:
            err = "budget: %s" % b
        except Exception:
            err = "internal: " + traceback.format_exc()
        for v in it.viol.values():
            d = {"kind": v.kind, "msg": v.msg, "loc": v.loc, "trace": v.trace[-60:], "stack": v.stack}
            if not any((d["kind"], d["msg"], d["loc"]) == (x["kind"], x["msg"], x["loc"]) for x in res["violations"]):
                res["violations"].append(d)
        if it.forkhist:
            for k, n in sorted(it.forkhist.items(), key=lambda x: -x[1])[:12]:
                print("fork", n, k, file=sys.stderr)
        res["stats"] = dict(it.stats)
        res["functions"] = sorted(it.funcs_seen)
        res["reached"] = dict(it.reached)
        res["check_sites"] = dict(it.check_sites)
        res["unmodelled"] = sorted(it.unmodelled)
        res["unsure"] = sorted(it.unsure)[:10]
        if err is None:
            break
        res.setdefault("errors", []).append(err)
        res["status"] = "incomplete"
        if res["violations"]:
            break
    res["wall"] = time.time() - t0
    return res


_MOD = None


def _child(a):
    return run_entry((_MOD[a[0]],) + a[1:])


def _spawn(a, q):
    try:
        q.put((a, _child(a)))
    except Exception:
        q.put((a, {"entry": a[1], "violations": [], "status": "incomplete", "errors": ["internal: " + traceback.format_exc()],
                   "stats": {}, "functions": [], "reached": {}, "check_sites": {}, "unmodelled": [], "wall": 0}))


def run_units(units, only=None, procs=8):
    """units: list of dict(name, srcs, drivers, opts, entries, setup)"""
    global _MOD
    _MOD = []
    jobs = []
    for ui, u in enumerate(units):
        mod = build(u.get("srcs", ()), u["drivers"], u.get("flags", ()), u.get("srcflags"))
        _MOD.append(mod)
        ents = u.get("entries") or sorted(n for n in mod.byname if n.startswith(u.get("prefix", "drv_")))
        for e in ents:
            if only and only not in e:
                continue
            o = dict(u.get("opts", {}))
            o.update(u.get("entry_opts", {}).get(e, {}))
            jobs.append((ui, e, o, u.get("setup")))
    out = []
    if procs == 1:
        for j in jobs:
            out.append(_child(j))
        return out
    ctx = multiprocessing.get_context("fork")
    running = {}
    pend = list(enumerate(jobs))
    results = {}
    conns = {}
    while pend or running:
        while pend and len(running) < procs:
            i, j = pend.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_pipe, args=(j, w))
            p.start()
            w.close()
            running[i] = (p, r, j)
        ready = multiprocessing.connection.wait([x[1] for x in running.values()])
        for i in list(running):
            p, r, j = running[i]
            if r in ready:
                try:
                    results[i] = r.recv()
                except EOFError:
                    results[i] = {"entry": j[1], "violations": [], "status": "incomplete", "errors": ["analyser process died"],
                                  "stats": {}, "functions": [], "reached": {}, "check_sites": {}, "unmodelled": [], "wall": 0}
                r.close()
                p.join()
                del running[i]
    return [results[i] for i in sorted(results)]


def _pipe(j, w):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3584 << 20, 3584 << 20))
    except Exception:
        pass
    try:
        w.send(_child(j))
    except Exception:
        w.send({"entry": j[1], "violations": [], "status": "incomplete", "errors": ["internal: " + traceback.format_exc()],
                "stats": {}, "functions": [], "reached": {}, "check_sites": {}, "unmodelled": [], "wall": 0})
    w.close()


import multiprocessing.pool  # noqa
import multiprocessing.connection  # noqa
