"""Instruction semantics, abstract memory, loop widening and the exploration driver."""
import re
import time

from absint import *
from absint import eqord, notc, cmp, _NB
from terms import *

SBITS = (1 << 64) - 1


def inner(e):
    """e as a function of one indexing atom: (atom, [functions to apply, innermost first])"""
    fs = []
    while True:
        if e.k == "lin" and len(e.a[1]) == 1:
            c, ((t, k),) = e.a
            fs.append(lambda x, c=c, k=k: c + k * x)
            e = t
        elif e.k == "app" and e.a[0] == "tbl":
            fs.append(lambda x, t=e.a[1]: t[x])
            e = e.a[2]
        else:
            return e, fs[::-1]


def feasible(st, at):
    """possible values of an indexing atom (sorted)"""
    lo, hi = st.interval(at)
    b = base(at)
    if b is None or b is _NB:
        return range(lo, hi + 1)
    m = st.vmask(b)
    out = set()
    for v in range(b.lo, b.hi + 1):
        if (m >> v) & 1:
            try:
                x = evalv(at, v)
            except IndexError:
                continue
            if lo <= x <= hi:
                out.add(x)
    return sorted(out) or range(lo, hi + 1)


def maptbl(st, e, fn):
    """fn applied to a small expression over one atom"""
    at, fs = inner(e)
    idx = feasible(st, at)
    if idx[0] < 0 or idx[-1] > 4096:
        return None
    vals = []
    for i in idx:
        x = i
        for g in fs:
            x = g(x)
        vals.append(fn(x))
    if len(set(vals)) == 1:
        return vals[0]
    i0, i1 = idx[0], idx[1]
    d = vals[1] - vals[0]
    if d % (i1 - i0) == 0:
        k = d // (i1 - i0)
        if all(x == vals[0] + (i - i0) * k for i, x in zip(idx, vals)):
            return ladd(lmul(at, k), vals[0] - i0 * k)
    tab = [0] * (idx[-1] + 1)
    for i, x in zip(idx, vals):
        tab[i] = x
    return app("tbl", (tuple(tab), at), min(vals), max(vals))


def mktbl(st, tab, at):
    """value number of tab[at]"""
    if isinstance(at, int):
        return tab[at]
    return maptbl(st, at, lambda x: tab[x])


def hastbl(e):
    return e.k == "app" and e.a[0] == "tbl" or e.k == "lin" and any(t.k == "app" and t.a[0] == "tbl" for t, _ in e.a[1])


def cbin(op, w, a, b):
    M = (1 << w) - 1
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & M if b < w else 0
    if op == "lshr":
        return a >> b if b < w else 0
    h = 1 << (w - 1)
    sa, sb = (a ^ h) - h, (b ^ h) - h
    if op == "ashr":
        return (sa >> min(b, w - 1)) & M
    if op == "udiv":
        return a // b if b else 0
    if op == "urem":
        return a % b if b else 0
    if b == 0:
        return 0
    q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
    return (q if op == "sdiv" else sa - q * sb) & M


class Violation(object):
    def __init__(self, kind, msg, loc, trace, stack):
        self.kind = kind
        self.msg = msg
        self.loc = loc
        self.trace = trace
        self.stack = stack

    def key(self):
        return (self.kind, self.msg, self.loc)


class Interp(object):
    def __init__(self, mod, opts=None):
        o = opts or {}
        self.m = mod
        self.models = dict(MODELS)
        self.watch = False
        self.viol = {}
        self.stats = {"paths": 0, "steps": 0, "forks": 0, "aborts": 0, "cut": 0, "subsumed": 0, "widenings": 0,
                      "bounds_checked": 0, "bounds_proved": 0, "checks": 0, "checks_proved": 0, "deref": 0}
        self.funcs_seen = set()
        self.reached = {}
        self.check_sites = {}
        self.maxsteps = o.get("maxsteps", 6000000)
        self.deadline = time.time() + o.get("timeout", 600)
        self.unroll = o.get("unroll", 2)
        self.rounds = o.get("rounds", 3000)
        self.endless = o.get("endless")      # with small known data, a decided loop this long never ends
        self.cut = o.get("cut", None)         # bounded unrolling: cut paths after N forking iterations
        self.usevec = o.get("vec", True)
        self.abort_ok = o.get("abort_ok", False)
        self.want_aborts = []
        self.leaks = o.get("leaks", True)
        self.forkhist = {} if o.get("forkhist") else None
        self.unmodelled = set()
        self.unsure = set()
        self.gobj = {}
        self.endhooks = []
        self.intr = {}
        self.noinline = o.get("noinline", {})
        self.shiftub = o.get("shiftub", False)
        self.collect = []
        self.trusted_abort = o.get("trusted_abort", ())
        self.debug = o.get("debug", False)

    # ---- reporting ------------------------------------------------------------------------
    def trace(self, st):
        r = []
        c = st.trace
        while c is not None:
            r.append(c[0])
            c = c[1]
        r.reverse()
        return r

    def report(self, st, kind, msg):
        loc = self.m.locstr(st.loc())
        if st.user.get("opaque"):       # the path ran through a function nothing is known about: no alarm
            self.unsure.add("%s at %s after a call of %s" % (msg, loc, st.user["opaque"]))
            return
        k = (kind, msg, loc)
        if k not in self.viol:
            stack = ["%s (%s)" % (f.fn["name"], self.m.locstr(curloc(f))) for f in st.frames]
            self.viol[k] = Violation(kind, msg, loc, ["%s: %s is %s" % (self.m.locstr(l), show(c), t) for (l, c, t) in self.trace(st)], stack)

    # ---- running ----------------------------------------------------------------------------
    def initial(self):
        st = State()
        st.frames = []
        st.objs = {}
        st.rng = {}
        st.vset = {}
        st.ne = {}
        st.memo = {}
        st.facts = ()
        st.bitf = {}
        st.trace = None
        st.events = None
        st.tok = object()
        st.jmp = {}
        st.user = {}
        st.nfork = 0
        st.steps = 0
        st.objn = 0
        st.an = self
        # globals
        for g, d in self.m.globals.items():
            o = st.new("@" + g.split(":")[-1], "const" if d["const"] else "global", d["size"], "zero")
            self.gobj[g] = o.id
        for g, d in self.m.globals.items():
            o = st.objs[self.gobj[g]]
            for off, c in d["init"]:
                if c[0] == "str":
                    o.meta = o.meta or {}
                    if off == 0 and len(c[1]) == d["size"]:
                        o.meta["bytes"] = bytes(c[1])
                    for i, b in enumerate(c[1]):
                        o.cells[off + i] = (1, b)
                else:
                    v = self.const(st, c)
                    sz = 8
                    if c[0] == "c":
                        sz = max(1, c[1] // 8)
                    o.cells[off] = (sz, v)
        return st

    def const(self, st, c):
        k = c[0]
        if k == "c":
            return int(c[2])
        if k == "null":
            return 0
        if k == "g":
            o = self.gobj.get(c[1])
            if o is None:
                # external data: one object per path
                o = st.user.get(("extern", c[1]))
                if o is None:
                    o = st.new("@" + c[1], "ext", PTRMAX, "lazy").id
                    st.user[("extern", c[1])] = o
            return ptr(o, 0)
        if k == "f":
            return fnptr(c[1])
        if k == "gep":
            b = self.const(st, c[1])
            if isptr(b):
                return ptr(b.a[0], ladd(b.a[1], c[2]))
            return b
        if k in ("undef",):
            return self.undef(c[1])
        if k == "zero":
            return self.zero(c[1])
        if k == "agg":
            return tuple(self.const(st, x) for x in c[2])
        if k == "fp":
            return app("fp:" + c[1], (), 0, SBITS)
        if k == "ce":
            a = [self.const(st, x) for x in c[3:]]
            if c[1] in ("ptrtoint", "inttoptr", "bitcast"):
                return a[0]
        return UNDEF

    def undef(self, t):
        if isinstance(t, dict):
            if "s" in t:
                return tuple(self.undef(x[1]) for x in t["s"])
            return tuple(self.undef(t["e"]) for _ in range(t["a"]))
        return UNDEF

    def zero(self, t):
        if isinstance(t, dict):
            if "s" in t:
                return tuple(self.zero(x[1]) for x in t["s"])
            return tuple(self.zero(t["e"]) for _ in range(t["a"]))
        return 0

    def val(self, st, f, o):
        if isinstance(o, int):
            return f.regs[o]
        if o[0] == "c":
            return int(o[2])
        return self.const(st, o)

    def enter(self, st, q, args, dest=None, callloc=0, va=None):
        fn = self.m.funcs[q]
        self.funcs_seen.add(q)
        f = Frame()
        f.q = q
        f.fn = fn
        f.bb = 0
        f.ip = 0
        f.regs = {}
        f.dest = dest
        f.allocas = []
        f.prev = None
        f.loop = {}
        f.va = va
        f.callloc = callloc
        st.objn += 1
        f.id = st.objn
        for i, a in enumerate(args[:len(fn["args"])]):
            f.regs[i] = a
        if len(st.frames) > 200:
            raise Budget("call depth exceeded in %s" % q)
        st.frames.append(f)

    def run(self, entry, args=(), setup=None):
        st = self.initial()
        q = self.m.byname[entry][0]
        if setup:
            setup(self, st)
        self.enter(st, q, list(args))
        return self.explore([st])

    def explore(self, work):
        done = []
        self.nwork = 0
        while work:
            st = work.pop()
            try:
                while True:
                    self.stats["steps"] += 1
                    if self.stats["steps"] > self.maxsteps:
                        raise Budget("step budget exhausted (%d)" % self.maxsteps)
                    if (self.stats["steps"] & 1023) == 0 and time.time() > self.deadline:
                        raise Budget("time budget exhausted")
                    if not st.frames:
                        self.stats["paths"] += 1
                        self.finish(st)
                        done.append(st)
                        break
                    try:
                        self.step(st)
                    except NeedFork as nf:
                        self.stats["forks"] += 1
                        if self.forkhist is not None:
                            k = self.m.locstr(st.loc())
                            self.forkhist[k] = self.forkhist.get(k, 0) + len(nf.conds)
                        succ = []
                        loc = st.loc()
                        for conds in nf.conds:
                            s2 = st.fork()
                            ok = True
                            for c, t in conds:
                                s2.trace = ((loc, c, t), s2.trace)
                                if not s2.assume(c, t):
                                    ok = False
                                    break
                            if ok:
                                s2.nfork += 1
                                succ.append(s2)
                        if not succ:
                            break
                        st = succ[-1]
                        work.extend(succ[:-1])
            except Abort as a:
                if a.kind == "abort":
                    self.stats["aborts"] += 1
                    self.on_abort(st, a.msg)
                elif a.kind == "cut":
                    self.stats["cut"] += 1
                elif a.kind == "subsumed":
                    self.stats["subsumed"] += 1
                elif a.kind == "exit":
                    self.stats["paths"] += 1
                    self.finish(st, exited=True)
        return done

    def on_abort(self, st, msg):
        if self.abort_ok:
            return
        for f in reversed(st.frames):
            if f.fn["name"] in self.trusted_abort:
                return
        self.report(st, "abort", msg)

    def finish(self, st, exited=False):
        for h in self.endhooks:
            h(self, st, exited)
        if self.leaks and not exited and not st.user.get("noleak"):
            for o in st.objs.values():
                if o.kind == "heap" and o.alive and not (o.meta and o.meta.get("leakok")):
                    loc = self.m.locstr(o.loc)
                    k = ("leak", "object allocated here is never released on a path", loc)
                    if k not in self.viol:
                        self.viol[k] = Violation(k[0], "%s (%s)" % (k[1], o.name), loc, ["%s: %s is %s" % (self.m.locstr(l), show(c), t) for (l, c, t) in self.trace(st)], [])

    # ---- memory --------------------------------------------------------------------------------
    def deref(self, st, p, size, what):
        """check an access of `size` bytes; returns (obj, off) or None"""
        self.stats["deref"] += 1
        if not isptr(p):
            if p == 0:
                self.report(st, "null-deref", "%s through a null pointer" % what)
                raise Abort("infeasible")
            if p is UNDEF:
                self.report(st, "uninit", "%s through an uninitialised pointer" % what)
                raise Abort("infeasible")
            if isinstance(p, E) and p.k == "sym":
                # opaque pointer: may it be null?
                c = cmp("eq", 64, p, 0)
                d = st.decide(c)
                if d is None:
                    raise NeedFork([[(c, True)], [(c, False)]])
                if d:
                    self.report(st, "null-deref", "%s through a null pointer" % what)
                    raise Abort("infeasible")
            self.report(st, "wild-deref", "%s through %s" % (what, show(p)))
            raise Abort("infeasible")
        o = st.objs.get(p.a[0])
        off = p.a[1]
        if o is None:
            raise Abort("infeasible")
        if not o.alive:
            self.report(st, "use-after-free", "%s of released object %s" % (what, o.name))
            raise Abort("infeasible")
        if self.watch and "watch" in st.user:
            st.event("acc", o.id, o.kind, what, off)
        if o.kind == "ext":
            return o, off
        self.stats["bounds_checked"] += 1
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(size, int):
            if 0 <= off and off + size <= o.size:
                self.stats["bounds_proved"] += 1
                return o, off
            self.report(st, "out-of-bounds", "%s at offset %d+%d of %s (size %d)" % (what, off, size, o.name, o.size))
            raise Abort("infeasible")
        if size == 0:
            self.stats["bounds_proved"] += 1
            return o, off
        ok = st.prove(off) and st.prove(ladd(ladd(o.size, off, -1), size, -1))
        if not ok and isinstance(size, E) and st.decide(cmp("eq", 64, size, 0)) is True:
            ok = True
        if not ok and isinstance(size, E) and st.interval(size)[0] <= 0:
            # zero-length accesses touch nothing
            c = cmp("eq", 64, size, 0)
            if st.decide(c) is None:
                raise NeedFork([[(c, True)], [(c, False)]])
        if ok:
            self.stats["bounds_proved"] += 1
        else:
            self.report(st, "out-of-bounds", "%s of %s bytes at offset %s of %s (size %s) is not within bounds" % (
                what, gen(size), gen(off), o.name, gen(o.size)))
        return o, off

    def width_of(self, t):
        if isinstance(t, int):
            return t
        if t == "p":
            return 64
        if t == "f64":
            return 64
        if t == "f32":
            return 32
        return None

    def sizeof(self, t):
        if isinstance(t, dict):
            return t["z"]
        return max(1, (self.width_of(t) + 7) // 8)

    def load(self, st, p, t, what="read"):
        if isinstance(t, dict):
            if "s" in t:
                return tuple(self.load(st, padd(p, off), et) for off, et in t["s"])
            es = self.sizeof(t["e"])
            return tuple(self.load(st, padd(p, i * es), t["e"]) for i in range(t["a"]))
        sz = self.sizeof(t)
        o, off = self.deref(st, p, sz, what)
        v = self.loadraw(st, o, off, sz)
        if t == 1 and isinstance(v, E) and v is not UNDEF:
            v = self.trunc(st, v, 8, 1)
        if isinstance(v, E) and v.k == "app" and v.a[0] == "opq" and t in ("p", 64):
            # an element of a summarised pointer array: some live object of unknown extent
            k = ("opq", v)
            oid = st.user.get(k)
            if oid is None:
                oid = st.new("element", "ext", PTRMAX, "lazy").id
                st.user = dict(st.user)
                st.user[k] = oid
            return ptr(oid, 0)
        return v

    def loadraw(self, st, o, off, sz):
        if o.log is None and isinstance(off, int):
            c = o.cells.get(off)
            if c is not None:
                if c[0] == sz:
                    return st.canon(c[1]) if isinstance(c[1], E) else c[1]
            return self.loadparts(st, o, off, sz)
        return self.loadlog(st, o, o.log, o.cells, o.default, off, sz)

    def loadlog(self, st, o, log, cells, default, off, sz):
        node = log
        while node is not None:
            (woff, wsz, v), node = node
            d = ladd(off, woff, -1)
            if isinstance(d, int) and isinstance(wsz, int):
                if d == 0 and wsz == sz and not isinstance(v, tuple):
                    return v
                if d >= wsz or d + sz <= 0:
                    continue
                if 0 <= d and d + sz <= wsz:
                    return self.subval(st, v, d, sz, wsz)
                if sz > 1 and default != "opaque":
                    bs = [self.loadlog(st, o, log, cells, default, ladd(off, i), 1) for i in range(sz)]
                    return self.joinbytes(st, bs)
                return self.opaque(st, o, off, sz)
            # disjoint?
            if st.prove(ladd(d, wsz, -1)) or st.prove(ladd(ladd(0, d, -1), -sz)):
                continue
            # contained?
            if isinstance(v, tuple) and st.prove(d) and st.prove(ladd(ladd(wsz, d, -1), -sz)):
                return self.subval(st, v, d, sz, wsz)
            if isinstance(d, E) and wsz == sz and st.decide(cmp("eq", 64, d, 0)) is True:
                return v if not isinstance(v, tuple) else self.subval(st, v, 0, sz, wsz)
            # unknown aliasing: decide by cases when the write is a scalar of the same size
            if wsz == sz and isinstance(d, E) and not isinstance(v, tuple):
                c = cmp("eq", 64, d, 0)
                if st.decide(c) is None:
                    raise NeedFork([[(c, True)], [(c, False)]])
                if st.decide(c) is False and isinstance(sz, int) and sz == 1:
                    continue
                # multiples of the element size
                if st.decide(c) is False and all(k % sz == 0 for _, k in lin(d)[1]) and lin(d)[0] % sz == 0:
                    continue
            elif isinstance(v, tuple):
                # is the read inside the range write?
                c1 = cmp("slt", 64, d, 0)
                c2 = cmp("slt", 64, d, wsz)
                r1 = st.decide(c1)
                if r1 is None:
                    raise NeedFork([[(c1, True)], [(c1, False)]])
                if r1 is False:
                    r2 = st.decide(c2)
                    if r2 is None:
                        raise NeedFork([[(c2, True)], [(c2, False)]])
                    if r2 is False:
                        continue
                    if sz == 1:
                        return self.subval(st, v, d, sz, wsz)
                elif sz == 1:
                    continue
            return self.opaque(st, o, off, sz)
        if not isinstance(off, int):
            iv = st.canon(off)
            if isinstance(iv, int):
                off = iv
        if isinstance(off, int):
            c = cells.get(off)
            if c is not None and c[0] == sz:
                return c[1]
            return self.loadparts(st, o, off, sz, cells, default, log)
        return self.symload(st, o, off, sz, cells, default)

    def opaque(self, st, o, off, sz):
        return sym("%s[%s]" % (o.name, gen(off)), 0, (1 << (8 * sz)) - 1)

    def subval(self, st, v, d, sz, wsz):
        """part of a stored value"""
        if isinstance(v, tuple):
            k = v[0]
            if k == "copy":
                _, name, so, slog, scells, sdef, soff = v
                o2 = Obj()
                o2.id = so
                o2.name = name
                o2.kind = "snap"
                o2.size = PTRMAX
                o2.log = slog
                o2.cells = scells
                o2.default = sdef
                o2.meta = None
                return self.loadlog(st, o2, slog, scells, sdef, ladd(soff, d), sz)
            if k == "fill":
                b = v[1]
                if isinstance(b, int):
                    r = 0
                    for i in range(sz):
                        r |= (b & 255) << (8 * i)
                    return r
                return b if sz == 1 else app("fill", (b, sz), 0, (1 << (8 * sz)) - 1)
            if k == "content":
                # opaque content named v[1]
                if isinstance(d, int) or True:
                    if sz == 1:
                        lo, hi = (v[2], v[3]) if len(v) > 2 else (0, 255)
                        return app("byte", (v[1], d), lo, hi)
                    return self.joinbytes(st, [self.subval(st, v, ladd(d, i), 1, wsz) for i in range(sz)])
        # scalar: extract bytes
        if not isinstance(d, int):
            return UNDEF if v is UNDEF else sym("part", 0, (1 << (8 * sz)) - 1)
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * d)) & ((1 << (8 * sz)) - 1)
        if isptr(v) or v.k == "fn":
            if d == 0 and sz == 8:
                return v
            return app("ptrpart", (v, d, sz), 0, (1 << (8 * sz)) - 1)
        f = st.bits(v, 8 * (d + sz))
        return mkbits(f[8 * d:8 * (d + sz)])

    def joinbytes(self, st, bs):
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        f = []
        for b in bs:
            if isinstance(b, E) and b.k in ("ptr", "fn"):
                return sym("join", 0, (1 << (8 * len(bs))) - 1)
            f += st.bits(b, 8)
        return mkbits(f)

    def loadparts(self, st, o, off, sz, cells=None, default=None, log=None):
        cells = o.cells if cells is None else cells
        default = o.default if default is None else default
        # containing cell?
        for d in range(1, 8):
            c = cells.get(off - d)
            if c is not None and c[0] > d:
                if c[0] >= d + sz:
                    return self.subval(st, c[1], d, sz, c[0])
                break
        c = cells.get(off)
        if c is not None and c[0] > sz:
            return self.subval(st, c[1], 0, sz, c[0])
        if sz > 1:
            any_ = c is not None or any((off + i) in cells for i in range(sz)) or any(
                (off - d) in cells and cells[off - d][0] > d for d in range(1, 8))
            if any_ or default in ("lazy", "content"):
                return self.joinbytes(st, [self.loadparts1(st, o, off + i, cells, default) for i in range(sz)])
        return self.deflt(st, o, off, sz, default)

    def loadparts1(self, st, o, off, cells, default):
        c = cells.get(off)
        if c is not None:
            return c[1] if c[0] == 1 else self.subval(st, c[1], 0, 1, c[0])
        for d in range(1, 8):
            c = cells.get(off - d)
            if c is not None and c[0] > d:
                return self.subval(st, c[1], d, 1, c[0])
        return self.deflt(st, o, off, 1, default)

    def deflt(self, st, o, off, sz, default):
        if default == "zero":
            return 0
        if default == "undef":
            return UNDEF
        if default == "lazyopaque":
            # contents summarised by widening: any initialised value
            return app("opq", (o.name, off, sz), 0, (1 << (8 * sz)) - 1)
        if isinstance(default, tuple) and default[0] == "str":
            # NUL-terminated input string: bytes before the terminator are non-zero
            ln = default[2]
            c = cmp("eq", 64, off if isinstance(off, E) else ln, ln if isinstance(off, E) else off)
            if sz != 1:
                return self.joinbytes(st, [self.deflt(st, o, ladd(off, i), 1, default) for i in range(sz)])
            r = st.branch(c)
            if r:
                return 0
            return app("byte", (default[1], off), 1, 255)
        # lazy bytes
        if sz != 1:
            return self.joinbytes(st, [self.deflt(st, o, ladd(off, i), 1, default) for i in range(sz)])
        return app("byte", (o.name, off), 0, 255)

    def symload(self, st, o, off, sz, cells, default):
        """load at a symbolic offset of an object whose log does not cover it"""
        if default == "lazy" or (isinstance(default, tuple) and not cells):
            return self.deflt(st, o, off, sz, default)
        if o.kind in ("const", "global") or (cells and isinstance(o.size, int)):
            c, ts = lin(off)
            # table of constants indexed by one unknown
            if len(ts) == 1 and ts[0][1] > 0 and ts[0][1] % sz == 0 and c % sz == 0 and isinstance(o.size, int):
                at = ts[0][0]
                stp = ts[0][1] // sz
                lo, hi = st.interval(at)
                n = o.size // sz
                base = c // sz
                if lo >= 0 and base + lo * stp >= 0 and base + hi * stp < n and hi <= 4096:
                    tab = []
                    for i in range(hi + 1):
                        cc = cells.get((base + i * stp) * sz) if i >= lo else (sz, 0)
                        tab.append(cc[1] if cc is not None and cc[0] == sz else
                                   (0 if cc is None and default in ("zero", None) and (o.kind == "const" or default == "zero") else None))
                    if all(isinstance(x, int) for x in tab):
                        if len(set(tab[lo:])) == 1:
                            return tab[lo]
                        nb = hi.bit_length()
                        if len(tab) == 1 << nb and nb >= 5 and sz >= 4:
                            idxb = st.bits(at, max(nb, 1))
                            T0 = tab[0]
                            # GF(2)-affine?
                            if all(tab[i] == tab[i & (i - 1)] ^ tab[i & -i] ^ T0 for i in range(1, len(tab))):
                                w = 8 * sz
                                out = [ONE if (T0 >> k) & 1 else ZERO for k in range(w)]
                                for j in range(nb):
                                    basis = tab[1 << j] ^ T0
                                    for k in range(w):
                                        if (basis >> k) & 1:
                                            out[k] = bxor(out[k], idxb[j])
                                return mkbits(out)
                        return mktbl(st, tuple(tab), at)
            # enumerate feasible offsets
            cand = sorted(k for k, v in cells.items() if v[0] == sz)
            if cand and o.kind in ("const", "global", "stack", "heap") and len(cand) <= 80:
                lo, hi = st.interval(off)
                cand = [k for k in cand if lo <= k <= hi]
                conds = []
                neg = []
                for k in cand:
                    e = cmp("eq", 64, off, k)
                    d = st.decide(e)
                    if d is True:
                        return cells[k][1]
                    if d is None:
                        conds.append([(e, True)])
                        neg.append((e, False))
                if conds:
                    conds.append(neg)
                    raise NeedFork(conds)
            if default == "zero":
                return 0 if not cand else self.opaque(st, o, off, sz)
            if default == "undef":
                return UNDEF if not cand else self.opaque(st, o, off, sz)
            return self.opaque(st, o, off, sz)
        return self.deflt(st, o, off, sz, default)

    def store(self, st, p, v, t, what="write"):
        if isinstance(t, dict):
            if "s" in t:
                for (off, et), x in zip(t["s"], v):
                    self.store(st, padd(p, off), x, et)
            else:
                es = self.sizeof(t["e"])
                for i, x in enumerate(v):
                    self.store(st, padd(p, i * es), x, t["e"])
            return
        sz = self.sizeof(t)
        o, off = self.deref(st, p, sz, what)
        if o.kind == "const":
            self.report(st, "const-write", "write to constant object %s" % o.name)
            return
        if t == 1 and isinstance(v, E):
            v = self.zext(st, v, 1, 8)
        self.storeraw(st, o.id, off, sz, v)

    def storeraw(self, st, oid, off, sz, v):
        o = st.w(oid)
        if isinstance(off, E):
            off = st.canon(off)
        if o.log is None and isinstance(off, int):
            self.kill(st, o.cells, off, sz)
            o.cells[off] = (sz, v)
            return
        if isinstance(off, int) and o.log is not None:
            # drop an exactly overwritten newest entry
            (wo, ws, wv), rest = o.log
            if wo == off and ws == sz:
                o.log = ((off, sz, v), rest)
                return
        elif o.log is not None:
            (wo, ws, wv), rest = o.log
            if ws == sz and ladd(wo, off, -1) == 0:
                o.log = ((off, sz, v), rest)
                return
        o.log = ((off, sz, v), o.log)

    def kill(self, st, cells, off, sz):
        c = cells.get(off)
        if c is not None and c[0] == sz:
            return
        for x in range(off - 7, off + sz):
            c = cells.get(x)
            if c is None:
                continue
            cs = c[0]
            if x + cs <= off or x >= off + sz:
                continue
            del cells[x]
            # keep uncovered bytes
            for b in range(x, x + cs):
                if b < off or b >= off + sz:
                    cells[b] = (1, self.subval(st, c[1], b - x, 1, cs))

    def memcpy(self, st, d, s, n, what="memcpy"):
        n = st.canon(n) if isinstance(n, E) else n
        if n == 0:
            return
        do, doff = self.deref(st, d, n, what + " destination")
        so, soff = self.deref(st, s, n, what + " source")
        if isinstance(n, int) and n <= 4096 and isinstance(soff, int) and isinstance(doff, int) and so.log is None and do.log is None and (
                so.default in ("zero", "undef") or n <= 64):
            items = []
            covered = 0
            for k in (sorted(so.cells) if len(so.cells) < n else [k for k in range(soff - 7, soff + n) if k in so.cells]):
                cs, v = so.cells[k]
                if k + cs <= soff or k >= soff + n:
                    continue
                if k >= soff and k + cs <= soff + n:
                    items.append((k - soff, cs, v))
                    covered += cs
                else:
                    for b in range(max(k, soff), min(k + cs, soff + n)):
                        items.append((b - soff, 1, self.subval(st, v, b - k, 1, cs)))
                        covered += 1
            if covered == n or n <= 64 or so.default in ("zero", "undef"):
                have = set()
                for x, cs, v in items:
                    have.update(range(x, x + cs))
                if covered != n and so.default not in ("undef",) and n > 64 and do.default != so.default:
                    pass
                else:
                    w = st.w(do.id)
                    for x in range(n):
                        if x not in have:
                            self.kill(st, w.cells, doff + x, 1)
                            dv = self.deflt(st, so, soff + x, 1, so.default)
                            w.cells[doff + x] = (1, dv)
                    for x, cs, v in items:
                        self.kill(st, w.cells, doff + x, cs)
                        w.cells[doff + x] = (cs, v)
                    return
        # range entry with a snapshot of the source
        ent = ("copy", so.name, so.id, so.log, dict(so.cells), so.default, soff)
        # collapse: source range is exactly one older range entry
        src = self.rangeof(st, so, soff, n)
        if src is not None:
            ent = src
        w = st.w(do.id)
        w.log = ((doff, n, ent), w.log)

    def rangeof(self, st, so, soff, n):
        """if [soff, soff+n) of so is a sub-range of one stored range, name that range"""
        node = so.log
        while node is not None:
            (woff, wsz, v), node = node
            d = ladd(soff, woff, -1)
            if isinstance(v, tuple):
                if d == 0:
                    dd = ladd(wsz, n, -1)
                    if dd == 0 or v[0] == "content" and st.prove(dd) and st.prove(ladd(0, dd, -1)):
                        return v
                if st.prove(d) and st.prove(ladd(ladd(wsz, d, -1), n, -1)):
                    if v[0] == "copy":
                        return v[:6] + (ladd(v[6], d),)
                    if v[0] == "fill":
                        return v
                    return None
            if st.prove(ladd(d, wsz, -1)) or st.prove(ladd(ladd(0, d, -1), n, -1)):
                continue
            return None
        return None

    def memset(self, st, d, b, n):
        n = st.canon(n) if isinstance(n, E) else n
        if n == 0:
            return
        o, off = self.deref(st, d, n, "memset")
        w = st.w(o.id)
        if off == 0 and (n == o.size or isinstance(n, E) and isinstance(o.size, E) and ladd(n, o.size, -1) == 0) and b == 0:
            w.cells = {}
            w.log = None
            w.default = "zero"
            return
        if isinstance(n, int) and isinstance(off, int) and w.log is None and n <= 64:
            for i in range(n):
                self.kill(st, w.cells, off + i, 1)
                w.cells[off + i] = (1, b & 255 if isinstance(b, int) else b)
            return
        w.log = ((off, n, ("fill", b)), w.log)

    # ---- arithmetic --------------------------------------------------------------------------------
    def unsigned_in(self, st, e, w):
        return isinstance(e, int) or st.inrange(e, 0, (1 << w) - 1)

    def zext(self, st, v, sw, dw):
        if isinstance(v, int):
            return v & ((1 << sw) - 1)
        if v is UNDEF:
            return v
        if sw == 1:
            if v.k in ("cmp", "not", "andb", "orb", "xorb"):
                d = st.decide(v)
                if d is not None:
                    return int(d)
                return mk("b2i", (v,), 0, 1)
            return v
        if v.k in ("ptr", "fn"):
            return v
        if self.unsigned_in(st, v, sw):
            return v
        r = mkbits(st.bits(v, sw))
        return r

    def sext(self, st, v, sw, dw):
        if isinstance(v, int):
            v &= (1 << sw) - 1
            if v >> (sw - 1):
                v -= 1 << sw
            return v & ((1 << dw) - 1)
        if v is UNDEF:
            return v
        if sw == 1:
            d = st.branch(v)
            return ((1 << dw) - 1) if d else 0
        if v.k in ("ptr", "fn"):
            return v
        if st.inrange(v, -(1 << (sw - 1)), (1 << (sw - 1)) - 1):
            return v
        if sw == 8 and base(v) is not None:
            return maptbl(st, v, lambda x: ((x & 255) ^ 128) - 128)
        f = st.bits(v, sw)
        if f[-1] is ZERO:
            return mkbits(f)
        # value is v or v - 2^sw: split on the sign
        if self.unsigned_in(st, v, sw):
            c = cmp("ult", sw, v, 1 << (sw - 1))
            if st.branch(c):
                return v
            return wrapc(ladd(v, -(1 << sw)), dw)
        return app("sext", (v, sw, dw), 0, (1 << dw) - 1) if dw <= 64 else v

    def trunc(self, st, v, sw, dw):
        if isinstance(v, int):
            return v & ((1 << dw) - 1)
        if v is UNDEF:
            return v
        if dw == 1:
            if v.k == "b2i":
                return v.a[0]
            lo, hi = st.interval(v) if v.k != "ptr" else (0, 2)
            if lo >= 0 and hi <= 1:
                return v
            f = st.bits(v, 1)[0]
            if f is ZERO:
                return 0
            if f is ONE:
                return 1
            return mkbits([f])
        if v.k in ("ptr", "fn"):
            return app("ptrunc", (v, dw), 0, (1 << dw) - 1)
        if st.inrange(v, 0, (1 << dw) - 1) or st.inrange(v, -(1 << (dw - 1)), (1 << (dw - 1)) - 1):
            return v
        if v.k == "lin":
            # reduce coefficients
            r = wrapc(v, dw)
            if r is not v:
                return self.trunc(st, r, sw, dw)
            if all(st.inrange(t, 0, (1 << dw) - 1) for t, _ in v.a[1]):
                return v           # same residue mod 2^dw
        return mkbits(st.bits(v, dw))

    def p2i(self, st, v):
        if isptr(v):
            o = st.objs[v.a[0]]
            if o.kind == "heap":        # malloc aligns to 16
                return ladd(lmul(nsym("addr:%d" % o.id, 1 << 12, PTRMAX >> 4), 16), v.a[1])
            b = nsym("addr:%d" % o.id, 1 << 16, PTRMAX)
            return ladd(b, v.a[1])
        if isinstance(v, E) and v.k == "fn":
            return nsym("addr:" + v.a[0], 1 << 16, PTRMAX)
        return v

    def i2p(self, st, v):
        if isinstance(v, int) or v.k in ("ptr", "fn"):
            return v
        c, ts = lin(v)
        bases = [(t, k) for t, k in ts if t.k == "sym" and len(t.a) == 3 and t.a[0].startswith("addr:")]
        if len(bases) == 1:
            t, k = bases[0]
            oid = t.a[0][5:]
            if oid.isdigit() and int(oid) in st.objs and k == (16 if st.objs[int(oid)].kind == "heap" else 1):
                return ptr(int(oid), ladd(v, t, -k))
        return v

    def binop(self, st, op, w, a, b, fl=0):
        if isptr(a) or isptr(b) or (isinstance(a, E) and a.k == "fn") or (isinstance(b, E) and b.k == "fn"):
            a = self.p2i(st, a)
            b = self.p2i(st, b)
        M = (1 << w) - 1
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            if isinstance(a, int) and isinstance(b, int):
                return {"and": a & b, "or": a | b, "xor": a ^ b, "add": a ^ b, "sub": a ^ b}[op] & 1
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                b &= 1
                if op == "and":
                    return a if b else 0
                if op == "or":
                    return 1 if b else a
                if op in ("xor", "add", "sub"):
                    return notc(a) if b else a
            if op in ("and", "or", "xor"):
                if a.id > b.id:
                    a, b = b, a
                return mk(op + "b", (a, b), 0, 1)
        ia, ib = isinstance(a, int), isinstance(b, int)
        if (ia or ib) and op not in ("add", "sub", "mul"):
            e = b if ia else a
            if isinstance(e, E) and (hastbl(e)) and base(e) is not None:
                r = maptbl(st, e, lambda x: cbin(op, w, a & M if ia else x & M, b & M if ib else x & M))
                if r is not None:
                    return r
        if op == "add":
            r = ladd(a, b)
            return r & M if isinstance(r, int) else wrapc(r, w)
        if op == "sub":
            r = ladd(a, b, -1)
            return r & M if isinstance(r, int) else wrapc(r, w)
        if op == "mul":
            if ia and ib:
                return (a * b) & M
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib:
                if b > M >> 1:
                    b -= 1 << w
                r = lmul(a, b)
                return r & M if isinstance(r, int) else wrapc(r, w)
            a, b = eqord(a, b)
            (l1, h1), (l2, h2) = st.interval(a), st.interval(b)
            hi = h1 * h2
            if l1 >= 0 and l2 >= 0 and hi <= M:
                return st.rapp("mul", (a, b), l1 * l2, hi, 0, M)
            return app("mulw", (a, b, w), 0, M)
        if op in ("and", "or", "xor"):
            if ia and ib:
                return {"and": a & b, "or": a | b, "xor": a ^ b}[op]
            if ia:
                a, b, ia, ib = b, a, ib, ia
            if ib:
                if op == "and":
                    if b == 0:
                        return 0
                    if b & (b + 1) == 0:
                        if st.inrange(a, 0, b):
                            return a
                        if a.k == "lin" and w == 64 and b < 4096 and self.unsigned_in(st, a, 62) and any(
                                abs(t.hi or 0) >= 1 << 12 and abs(q) == 1 for t, q in a.a[1]):
                            return self.binop(st, "urem", w, a, b + 1)
                        self.slices(st, a, b.bit_length())
                elif b == 0:
                    return a
            elif a is b:
                return 0 if op == "xor" else a
            fa, fb = st.bits(a, w), st.bits(b, w)
            out = []
            for x, y in zip(fa, fb):
                if op == "xor":
                    out.append(bxor(x, y))
                elif op == "and":
                    if x is ZERO or y is ZERO:
                        out.append(ZERO)
                    elif x is ONE:
                        out.append(y)
                    elif y is ONE or x == y:
                        out.append(x)
                    else:
                        out = None
                        break
                else:
                    if x is ONE or y is ONE:
                        out.append(ONE)
                    elif x is ZERO:
                        out.append(y)
                    elif y is ZERO or x == y:
                        out.append(x)
                    else:
                        out = None
                        break
            if out is not None:
                return mkbits(out)
            a, b = eqord(a, b)
            (l1, h1), (l2, h2) = st.interval(a), st.interval(b)
            if op == "and":
                if ib:
                    hi = b if b >= 0 else M
                    r = st.rapp("and", (a, b), 0, hi, 0, M)
                else:
                    hs = [h for l, h in ((l1, h1), (l2, h2)) if l >= 0]
                    r = st.rapp("and", (a, b), 0, min(hs + [M]), 0, M)
                    if self.unsigned_in(st, a, w):
                        st.addfact(ladd(a, r, -1))
                    if self.unsigned_in(st, b, w):
                        st.addfact(ladd(b, r, -1))
                return r
            hi = M
            if l1 >= 0 and l2 >= 0:
                hi = min(M, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
            return st.rapp(op, (a, b), 0, hi, 0, M)
        if op in ("shl", "lshr", "ashr"):
            if ib:
                if b >= w:
                    if self.shiftub:
                        self.report(st, "shift", "shift by %d of a %d-bit value" % (b, w))
                    return sym("shift-ub", 0, M)
                if ia:
                    if op == "shl":
                        return (a << b) & M
                    if op == "lshr":
                        return a >> b
                    s = a - (1 << w) if a >> (w - 1) else a
                    return (s >> b) & M
                if b == 0:
                    return a
                if op == "shl":
                    if self.unsigned_in(st, lmul(a, 1 << b), w):
                        return lmul(a, 1 << b)
                    f = st.bits(a, w)
                    return mkbits(([ZERO] * b + f)[:w])
                if op == "lshr" or self.unsigned_in(st, a, w - 1):
                    if not self.unsigned_in(st, a, w) or a.k == "bits":
                        f = st.bits(a, w)
                        return mkbits(f[b:])
                    return self.divpow(st, a, b)
                f = st.bits(a, w)
                return mkbits(f[b:] + [f[-1]] * b)
            if not ib and self.shiftub:
                if not self.unsigned_in(st, b, w) or not st.inrange(b, 0, w - 1):
                    c = cmp("ult", w, b, w)
                    if not st.branch(c):
                        self.report(st, "shift", "shift amount may reach the operand width (%d bits)" % w)
                        return sym("shift-ub", 0, M)
            lo, hi = st.interval(b)
            if 0 <= lo and hi < w and hi - lo < 64:
                # enumerate the amount
                conds = [[(cmp("eq", w, b, k), True)] for k in range(lo, hi + 1) if st.decide(cmp("eq", w, b, k)) is not False]
                if len(conds) == 1:
                    return self.binop(st, op, w, a, conds[0][0][0].a[3] if isinstance(conds[0][0][0], E) else lo)
                raise NeedFork(conds)
            return app(op, (a, b, w), 0, M)
        if op in ("udiv", "urem", "sdiv", "srem"):
            if ib and b == 0:
                self.report(st, "div0", "division by zero")
                raise Abort("infeasible")
            if ia and ib:
                if op[0] == "s":
                    sa = a - (1 << w) if a >> (w - 1) else a
                    sb = b - (1 << w) if b >> (w - 1) else b
                    q = abs(sa) // abs(sb)
                    if (sa < 0) != (sb < 0):
                        q = -q
                    return (q if op == "sdiv" else sa - q * sb) & M
                return a // b if op == "udiv" else a % b
            if not ib:
                c = cmp("eq", w, b, 0)
                d = st.decide(c)
                if d is not False:
                    if d is None:
                        raise NeedFork([[(c, True)], [(c, False)]])
                    self.report(st, "div0", "division by zero")
                    raise Abort("infeasible")
            if op[0] == "s":
                if self.unsigned_in(st, a, w - 1) and self.unsigned_in(st, b, w - 1):
                    op = "u" + op[1:]
                else:
                    lo, hi = st.interval(a) if not ia else (a, a)
                    if ib and st.inrange(a, -(1 << (w - 1)), (1 << (w - 1)) - 1):
                        c = cmp("slt", w, a, 0)
                        if not st.branch(c):
                            return self.binop(st, "u" + op[1:], w, a, b)
                        h = 1 << (w - 1)
                        r = app(op, (a, b), -h, h - 1)
                        return r
                    return app(op + "w", (a, b, w), 0, M)
            if self.unsigned_in(st, a, w) and ib:
                lo, hi = st.interval(a)
                if b & (b - 1) == 0 and (not isinstance(a, E) or a.k in ("bits",)):
                    n = b.bit_length() - 1
                    f = st.bits(a, w)
                    return mkbits(f[n:]) if op == "udiv" else mkbits(f[:n])
                if op == "udiv":
                    # exact linear division
                    c0, ts = lin(a)
                    if c0 % b == 0 and all(k % b == 0 for _, k in ts):
                        return mklin(c0 // b, [(t, k // b) for t, k in ts])
                    return self.divc(st, a, b)
                c0, ts = lin(a)
                if all(k % b == 0 for _, k in ts):
                    return c0 % b
                lo, hi = st.interval(a)
                if lo >= 0 and hi < b:
                    return a
                if b & (b - 1) == 0:
                    return mkbits(st.bits(a, b.bit_length() - 1)) if b > 1 else 0
                q = self.divc(st, a, b)
                return ladd(a, lmul(q, b), -1) if isinstance(q, E) else ladd(a, -q * b)
            r = app(op, (a, b, w), 0, M)
            if self.unsigned_in(st, a, w) and self.unsigned_in(st, b, w):
                if op == "urem":
                    st.addfact(ladd(ladd(b, r, -1), -1))
                st.addfact(ladd(a, r, -1))
            return r
        return sym(op, 0, M)

    def divc(self, st, a, b):
        lo, hi = st.interval(a)
        q = st.rapp("udiv", (a, b), max(0, lo) // b, hi // b, 0, SBITS // b)
        if isinstance(q, E):
            st.addfact(ladd(a, lmul(q, b), -1))
            st.addfact(ladd(ladd(lmul(q, b), a, -1), b - 1))
        return q

    def divpow(self, st, a, k):
        c0, ts = lin(a)
        b = 1 << k
        if c0 % b == 0 and all(q % b == 0 for _, q in ts):
            return mklin(c0 >> k, [(t, q >> k) for t, q in ts])
        if a.k in ("sym", "app"):
            lo, hi = st.r1(a)
            self.slices(st, a, k)
            f = st.bits(a, max(hi.bit_length(), 1))
            return mkbits(f[k:])
        return self.divc(st, a, b)

    def slices(self, st, a, k):
        """relate an unknown size to its quotient and remainder by 2^k"""
        if a.k not in ("sym", "app") or ("slice", a, k) in st.user:
            return
        lo, hi = st.r1(a)
        if lo < 0 or a.hi < 1 << 12 or hi < 1 << k or hi > 1 << 62 or not 0 < k < 12:
            return
        st.user[("slice", a, k)] = 1
        f = st.bits(a, hi.bit_length())
        e = ladd(ladd(a, lmul(mkbits(f[k:]), 1 << k), -1), mkbits(f[:k]), -1)
        st.addfact(e)
        st.addfact(lmul(e, -1))
        e = ladd(ladd(a, lmul(self.divc(st, a, 1 << k), 1 << k), -1), mkbits(f[:k]), -1)
        st.addfact(e)
        st.addfact(lmul(e, -1))

    # ---- step -----------------------------------------------------------------------------------
    def step(self, st):
        f = st.frames[-1]
        ins = f.fn["blocks"][f.bb][f.ip]
        op = ins[0]
        d = ins[1]
        regs = f.regs
        if op == "load":
            regs[d] = self.load(st, self.val(st, f, ins[4]), ins[3])
        elif op == "store":
            self.store(st, self.val(st, f, ins[5]), self.val(st, f, ins[4]), ins[3])
        elif op == "gep":
            b = self.val(st, f, ins[3])
            off = ins[4]
            for ix, sc, w in ins[5]:
                v = self.val(st, f, ix)
                if v is UNDEF:
                    self.report(st, "uninit", "uninitialised index")
                    raise Abort("infeasible")
                if isinstance(v, int):
                    if v >> (w - 1):
                        v -= 1 << w
                elif isptr(v):
                    v = self.p2i(st, v)
                elif w < 64:
                    v = self.sext(st, v, w, 64)
                off = ladd(off, lmul(v, sc))
            if isptr(b):
                regs[d] = ptr(b.a[0], ladd(b.a[1], off))
            elif off == 0:
                regs[d] = b
            else:
                regs[d] = self.i2p(st, ladd(b, off)) if b is not UNDEF else UNDEF
        elif op == "br":
            if ins[3] is None:
                return self.goto(st, f, ins[4])
            c = self.val(st, f, ins[3])
            if c is UNDEF:
                self.report(st, "uninit", "branch on an uninitialised value")
                raise Abort("infeasible")
            if isinstance(c, int):
                r = bool(c & 1)
            else:
                r = st.decide(c)
                if r is None:
                    raise NeedFork([[(c, True)], [(c, False)]])
            return self.goto(st, f, ins[4] if r else ins[5])
        elif op == "icmp":
            w = self.width_of(ins[4])
            a = self.val(st, f, ins[5])
            b = self.val(st, f, ins[6])
            regs[d] = self.icmp(st, ins[3], w, a, b)
        elif op == "call":
            return self.call(st, f, ins)
        elif op == "bin":
            regs[d] = self.binop(st, ins[3], ins[4], self.val(st, f, ins[5]), self.val(st, f, ins[6]), ins[7]) if isinstance(ins[4], int) else self.fbin(st, ins[3], self.val(st, f, ins[5]), self.val(st, f, ins[6]))
        elif op == "cast":
            k = ins[3]
            v = self.val(st, f, ins[6])
            if k == "zext":
                v = self.zext(st, v, ins[4], ins[5])
            elif k == "sext":
                v = self.sext(st, v, ins[4], ins[5])
            elif k == "trunc":
                v = self.trunc(st, v, ins[4], ins[5])
            elif k == "ptrtoint":
                v = self.p2i(st, v)
            elif k == "inttoptr":
                v = self.i2p(st, v)
            elif k == "bitcast":
                pass
            else:
                w = self.width_of(ins[5]) or 64
                v = app(k, (v,) if isinstance(v, (int, E)) else (), 0, (1 << w) - 1)
            regs[d] = v
        elif op == "phi":
            # handled in goto
            pass
        elif op == "alloca":
            n = self.val(st, f, ins[4])
            size = ins[3] * n if isinstance(n, int) else lmul(n, ins[3])
            o = st.new(self.allocname(f, d), "stack", size, "undef", ins[2])
            f.allocas.append(o.id)
            regs[d] = ptr(o.id, 0)
        elif op == "switch":
            w = ins[3]
            v = self.val(st, f, ins[4])
            if v is UNDEF:
                self.report(st, "uninit", "switch on an uninitialised value")
                raise Abort("infeasible")
            if isinstance(v, E):
                v = st.canon(v)
            if isinstance(v, int):
                v &= (1 << w) - 1
                for cv, t in ins[6]:
                    if int(cv) == v:
                        return self.goto(st, f, t)
                return self.goto(st, f, ins[5])
            conds = []
            neg = []
            for cv, t in ins[6]:
                e = cmp("eq", w, v, int(cv))
                r = st.decide(e)
                if r is True:
                    return self.goto(st, f, t)
                if r is None:
                    conds.append([(e, True)])
                    neg.append((e, False))
            if not conds:
                return self.goto(st, f, ins[5])
            conds.append(neg)
            raise NeedFork(conds)
        elif op == "ret":
            v = self.val(st, f, ins[4]) if ins[4] is not None else None
            return self.ret(st, v)
        elif op == "select":
            c = self.val(st, f, ins[4])
            if c is UNDEF:
                self.report(st, "uninit", "select on an uninitialised value")
                raise Abort("infeasible")
            regs[d] = self.val(st, f, ins[5] if st.branch(c) else ins[6])
        elif op == "unreachable":
            raise Abort("infeasible")
        elif op == "extractvalue":
            v = self.val(st, f, ins[3])
            for i in ins[4]:
                v = v[i]
            regs[d] = v
        elif op == "insertvalue":
            v = self.val(st, f, ins[4])
            regs[d] = setidx(v, ins[6], self.val(st, f, ins[5]))
        elif op == "freeze":
            regs[d] = self.val(st, f, ins[3])
        elif op == "atomicrmw":
            p = self.val(st, f, ins[5])
            v = self.val(st, f, ins[6])
            old = self.load(st, p, ins[4])
            w = self.width_of(ins[4])
            new = v if ins[3] == "xchg" else self.binop(st, ins[3], w, old, v)
            self.store(st, p, new, ins[4])
            regs[d] = old
        elif op == "cmpxchg":
            p = self.val(st, f, ins[4])
            old = self.load(st, p, ins[3])
            e = self.val(st, f, ins[5])
            c = self.icmp(st, "eq", self.width_of(ins[3]), old, e)
            if st.branch(c):
                self.store(st, p, self.val(st, f, ins[6]), ins[3])
                regs[d] = (old, 1)
            else:
                regs[d] = (old, 0)
        elif op == "fence":
            st.event("fence")
        elif op == "fcmp":
            a, b = self.val(st, f, ins[4]), self.val(st, f, ins[5])
            regs[d] = app("fcmp:" + ins[3], tuple(x for x in (a, b)), 0, 1)
        elif op == "fneg":
            regs[d] = app("fneg", (self.val(st, f, ins[3]),), 0, SBITS)
        else:
            raise Budget("unsupported instruction %s at %s" % (op, self.m.locstr(ins[2])))
        f.ip += 1

    def fbin(self, st, op, a, b):
        return app(op, (a, b), 0, SBITS)

    def allocname(self, f, d):
        return "%s:local%d" % (f.fn["name"], d)

    def icmp(self, st, pred, w, a, b):
        if isinstance(a, E) and a.k in ("ptr", "fn") or isinstance(b, E) and b.k in ("ptr", "fn"):
            pa, pb = isptr(a), isptr(b)
            if pred in ("eq", "ne"):
                return cmp(pred, w, a, b)
            if pa and pb and a.a[0] == b.a[0]:
                return cmp(pred.replace("u", "s", 1) if pred[0] == "u" else pred, w, a.a[1], b.a[1])
            a = self.p2i(st, a)
            b = self.p2i(st, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return cmp(pred, w, a, b)

    def goto(self, st, f, t):
        prev = f.bb
        blk = f.fn["blocks"][t]
        # phis evaluated in parallel
        new = None
        n = 0
        for ins in blk:
            if ins[0] != "phi":
                break
            n += 1
            for b, o in ins[4]:
                if b == prev:
                    if new is None:
                        new = []
                    new.append((ins[1], self.val(st, f, o)))
                    break
        if new:
            for r, v in new:
                f.regs[r] = v
        f.prev = prev
        f.bb = t
        f.ip = n
        loops = self.m.loops(f.q)
        body = loops.get(t)
        if body is not None:
            if prev in body and f.loop.get(t) is not None:
                self.backedge(st, f, t, body, new or [])
            else:
                f.loop[t] = None
                self.loopentry(st, f, t, new or [])
        return

    # ---- loops: widening ---------------------------------------------------------------------------
    def snapshot(self, st, f, phis):
        return {
            "phis": {r: f.regs[r] for r, _ in phis},
            "objs": dict(st.objs),
            "nfork": st.nfork,
        }

    def sameloop(self, a, b):
        """nothing a further iteration could see has changed between two visits of a loop head"""
        if a["nfork"] != b["nfork"] or a["phis"] != b["phis"] or a["user"] != b["user"]:
            return False
        for i, o in b["objs"].items():
            p = a["objs"].get(i)
            if p is o:
                continue
            if p is None:
                if o.alive and o.kind != "const":
                    return False
                continue
            if p.alive != o.alive or p.size is not o.size and p.size != o.size or p.meta != o.meta or p.cells != o.cells or p.log is not o.log and p.log != o.log:
                return False
        return all(i in b["objs"] for i in a["objs"])

    def loopentry(self, st, f, h, phis):
        st.tok = object()     # freeze current objects so that the snapshot stays intact
        f.loop[h] = {"n": 0, "prev": self.snapshot(st, f, phis), "wide": None, "iters": 0}

    def backedge(self, st, f, h, body, phis):
        L = dict(f.loop[h])
        f.loop[h] = L
        L["iters"] += 1
        if L["iters"] > max(20000, self.rounds):
            raise Budget("loop iterates too often at %s" % self.m.locstr(curloc(f)))
        prev = L["prev"]
        if st.nfork == prev["nfork"] and L["wide"] is None:
            # fully decided iteration: keep going concretely
            if L["iters"] >= 64:
                cur = self.snapshot(st, f, phis)
                cur["user"] = dict(st.user)
                old = L.get("ref")
                if old is not None and self.sameloop(old, cur):
                    self.report(st, "endless-loop", "a loop comes back to the very same state and never ends")
                    raise Abort("endless")
                if L["iters"] & (L["iters"] - 1) == 0:      # Brent: a reference at every power of two
                    L["ref"] = cur
            if self.endless is not None and L["iters"] > self.endless:
                self.report(st, "endless-loop", "a loop over a handful of known entries has not ended after %d rounds" % self.endless)
                raise Abort("endless")
            if L["iters"] > self.rounds:
                raise Budget("decided loop exceeds %d iterations at %s" % (self.rounds, self.m.locstr(curloc(f))))
            st.tok = object()
            L["prev"] = self.snapshot(st, f, phis)
            return
        L["n"] += 1
        if self.cut is not None:
            if L["n"] > self.cut:
                raise Abort("cut")
            st.tok = object()
            L["prev"] = self.snapshot(st, f, phis)
            return
        if L["n"] < self.unroll and L["wide"] is None:
            st.tok = object()
            L["prev"] = self.snapshot(st, f, phis)
            return
        self.widen(st, f, h, body, phis, L)

    def changed(self, st, f, prev, phis):
        """locations whose value differs from the previous arrival"""
        out = []
        for r, _ in phis:
            a, b = prev["phis"].get(r), f.regs[r]
            if a is not b and a != b:
                out.append((("r", r), a, b))
        po = prev["objs"]
        # buffers of growing vectors are summarised as a whole
        vd = set()
        for oid, o in st.objs.items():
            q = po.get(oid)
            if q is None or not (o.meta and q.meta and "vec" in o.meta and "vec" in q.meta) or not o.alive:
                continue
            d1, d0 = o.meta["vec"]["data"], q.meta["vec"]["data"]
            if not isptr(d1) or not isptr(d0):
                continue
            b1, b0 = st.objs.get(d1.a[0]), po.get(d0.a[0])
            if d1 != d0 or b1 is not b0 and b1 is not None and b0 is not None and (b1.cells is not b0.cells or b1.log is not b0.log or b1.alive != b0.alive):
                out.append((("vec", oid, "data"), d0, d1))
            vd.add(d1.a[0])
            vd.add(d0.a[0])
        for oid, o in st.objs.items():
            q = po.get(oid)
            if q is None or q is o or oid in vd:
                continue
            if q.alive != o.alive and o.kind != "vol":
                out.append((("alive", oid), q.alive, o.alive))
            if q.log is not o.log:
                out.append((("log", oid), q.log, o.log))
            if q.size is not o.size and q.size != o.size:
                out.append((("size", oid), q.size, o.size))
            if q.meta != o.meta:
                if o.meta and q.meta and "vec" in o.meta and "vec" in q.meta:
                    for i in ("n", "cap"):
                        if q.meta["vec"][i] != o.meta["vec"][i]:
                            out.append((("vec", oid, i), q.meta["vec"][i], o.meta["vec"][i]))
            if q.cells is not o.cells:
                for k, (sz, v) in o.cells.items():
                    c = q.cells.get(k)
                    if c is None or c[1] is not v and c[1] != v:
                        out.append((("c", oid, k, sz), c[1] if c is not None else None, v))
                for k, (sz, v) in q.cells.items():
                    if k not in o.cells:
                        out.append((("c", oid, k, sz), v, None))
        return out

    def widen(self, st, f, h, body, phis, L):
        ch = self.changed(st, f, L["prev"], phis)
        wide = L["wide"]
        if wide is not None:
            ok = True
            for key, a, b in ch:
                w = wide.get(key)
                if w is None:
                    ok = False
                    break
            if ok:
                # verify the template invariants for the widened locations
                bad = self.verify(st, f, L, ch)
                if not bad:
                    raise Abort("subsumed")
                L["dropped"] = L.get("dropped", frozenset()) | bad
            L["rounds"] = L.get("rounds", 0) + 1
            if L["rounds"] > 12:
                raise Budget("loop widening does not stabilise at %s" % self.m.locstr(curloc(f)))
        self.stats["widenings"] += 1
        dropped = L.get("dropped", frozenset())
        first = L["prev"]
        wide = dict(wide or {})
        # induction variable shared by all constant-step locations
        kvar = None
        keys = dict((k, (a, b)) for k, a, b in ch)
        for k in list(wide):
            if k not in keys:
                keys[k] = (self.at(st, f, k), self.at(st, f, k))
        invs = []
        bounds = self.loopbounds(st, f, body)
        vecdone, vecnew = set(), []
        for key, (a, b) in keys.items():
            inv = {"key": key}
            if key[0] == "alive":
                raise Budget("object lifetime changes around the loop at %s" % self.m.locstr(curloc(f)))
            if key[0] == "log":
                self.havoclog(st, key[1], a)
                wide[key] = ("log",)
                continue
            if key[0] == "vec" and key[2] == "data":
                # fresh buffer object standing for any later reallocation
                if isptr(b) and ("vec", key[1]) not in vecdone:
                    vecdone.add(("vec", key[1]))
                    o0 = st.objs[b.a[0]]
                    o1 = st.new(o0.name, o0.kind, o0.size, "lazyopaque", o0.loc)
                    o1.name = "%s.%d" % (o0.name, o1.id)
                    for sz0, v0 in list(o0.cells.values()):
                        if isptr(v0) and v0.a[0] in st.objs and st.objs[v0.a[0]].kind == "heap":
                            # owned by the summarised array from here on
                            ow = st.w(v0.a[0])
                            ow.meta = dict(ow.meta or {}, leakok=True)
                    st.w(o0.id).alive = 0
                    self.setat(st, f, key, ptr(o1.id, 0))
                    vecnew.append((key[1], o1.id))
                wide[key] = ("data",)
                continue
            base = None
            if isptr(b):
                if isptr(a) and a.a[0] == b.a[0]:
                    base = b.a[0]
                    av, bv = a.a[1], b.a[1]
                else:
                    self.setat(st, f, key, self.freshptr(st, key, b))
                    wide[key] = ("freshptr",)
                    continue
            else:
                av, bv = a, b
            if isinstance(av, tuple) or isinstance(bv, tuple):
                raise Budget("aggregate widening")
            if bv is None or bv is UNDEF or av is None or av is UNDEF or (isinstance(bv, E) and bv.k in ("fn",)):
                if bv is None:
                    wide[key] = ("drop",)
                    continue
                sz = key[3] if key[0] == "c" else 8
                if key in dropped or av is None or av is UNDEF or bv is UNDEF:
                    nv = UNDEF if bv is UNDEF else sym("w", 0, (1 << (8 * sz)) - 1)
                self.setat(st, f, key, nv)
                wide[key] = ("fresh",)
                continue
            if isptr(av) and not isptr(bv):
                # pointer became null (or the converse): may be either
                self.setat(st, f, key, sym("wptr", 0, PTRMAX))
                wide[key] = ("fresh",)
                continue
            width = self.keywidth(f, key, phis)
            if width == 1 or (isinstance(bv, E) and bv.k in ("cmp", "not", "andb", "orb", "xorb")):
                nv = sym("wb", 0, 1)
                self.setat(st, f, key, nv)
                wide[key] = ("fresh",)
                continue
            dlt = ladd(bv, av, -1)
            if ("step", key) not in dropped and isinstance(dlt, int) and dlt != 0:
                if isinstance(av, int) and isinstance(bv, int):
                    m = 1 << width
                    if dlt > m // 2:
                        dlt -= m
                    elif dlt < -(m // 2):
                        dlt += m
                if kvar is None:
                    kvar = sym("iter", 0, 1 << 40)
                nv = ladd(bv, lmul(kvar, dlt))
                inv["step"] = dlt
                inv["val"] = nv
                if base is None:
                    # mathematical value stays in the type's range
                    M = (1 << width) - 1
                    lo, hi = st.interval(bv)
                    if lo >= 0 and st.prove(bv):
                        if dlt > 0:
                            inv["wrapguard"] = True
                        st.addfact(nv) if dlt < 0 else None
            elif self.relinv(key, av, bv, base, width, invs, dropped, inv):
                nv = inv["val"]
            else:
                if base is None:
                    lo0, hi0 = 0, (1 << width) - 1
                    for v in (av, bv):
                        l, h2 = st.interval(v)
                        if l < 0:
                            lo0, hi0 = -(1 << (width - 1)), (1 << (width - 1)) - 1
                    nv = sym("w", lo0, hi0)
                else:
                    nv = sym("woff", -PTRMAX, PTRMAX)
                inv["val"] = nv
            # template bounds
            inv["tb"] = []
            for nm, B in [("init", first["phis"].get(key[1]) if key[0] == "r" else None), ("a", av), ("zero", 0 if base is None else None)] + bounds:
                if B is None:
                    continue
                if isptr(B):
                    if base is None or B.a[0] != base:
                        continue
                    B = B.a[1]
                elif base is not None and nm not in ("init", "a"):
                    continue
                if not isinstance(B, (int, E)) or isinstance(B, E) and B.k not in ("sym", "app", "lin", "bits", "b2i"):
                    continue
                for s in (1, -1):
                    tk = ("tb", key, nm, s)
                    if tk in dropped:
                        continue
                    ea = lmul(ladd(B, av, -1), s)
                    eb = lmul(ladd(B, bv, -1), s)
                    if st.prove(ea) and st.prove(eb):
                        inv["tb"].append((tk, B, s))
            inv["ab"] = (av, bv)
            invs.append((inv, base, nv))
            self.setat(st, f, key, ptr(base, nv) if base is not None else nv)
            wide[key] = ("inv", inv)
        for inv, base, nv in invs:
            for tk, B, s in inv["tb"]:
                if not st.addfact(lmul(ladd(B, nv, -1), s)):
                    raise Abort("infeasible")
        for vo, do in vecnew:
            v = st.objs[vo].meta["vec"]
            cap = v["cap"]
            es = v.get("es", 1)
            if not isinstance(cap, int) or not st.prove(ladd(cap, v["n"], -1)):
                cap = sym("cap", 0, PTRMAX)
                self.setat(st, f, ("vec", vo, "cap"), cap)
                if not st.addfact(ladd(cap, v["n"], -1)):
                    raise Abort("infeasible")
            st.w(do).size = lmul(cap, es)
            wide[("vec", vo, "cap")] = ("cap",)
            wide[("vec", vo, "data")] = ("data",)
        st.tok = object()
        L["wide"] = wide
        L["n"] = 0
        L["prev"] = self.snapshot(st, f, phis)
        L["memo_n"] = None
        st.nfork += 1

    def relinv(self, key, av, bv, base, width, invs, dropped, inv):
        """a location whose sum or difference with an already widened one is the same on both arrivals"""
        if width != 64 and base is None:
            return False
        for o, b0, nv0 in invs:
            if "step" in o or o.get("w") != 64 and b0 is None:
                continue
            a0, c0 = o["ab"]
            for s in (1, -1):
                if ("rel", key, o["key"], s) in dropped:
                    continue
                d = ladd(av, a0, -s)
                if a0 != c0 and d == ladd(bv, c0, -s) and isinstance(d, (int, E)) and not (isinstance(d, E) and d.k not in ("sym", "app", "lin", "bits")):
                    inv["rel"] = (o["key"], s)
                    inv["val"] = ladd(d, lmul(nv0, s))
                    return True
        inv["w"] = width
        return False

    def verify(self, st, f, L, ch):
        bad = set()
        cur = {k: b for k, a, b in ch}
        old = {k: a for k, a, b in ch}
        for key, w in L["wide"].items():
            if w[0] != "inv":
                if w[0] == "freshptr" and key in cur:
                    pass
                continue
            inv = w[1]
            a = old.get(key)
            b = cur.get(key)
            if key not in cur:
                continue
            if isptr(b) != isptr(a):
                bad.add(("step", key))
                for tk, B, s in inv["tb"]:
                    bad.add(tk)
                continue
            if isptr(b):
                if not isptr(a) or a.a[0] != b.a[0]:
                    bad.add(("base", key))
                    for tk, B, s in inv["tb"]:
                        bad.add(tk)
                    continue
                a, b = a.a[1], b.a[1]
            if b is None or b is UNDEF:
                continue
            if "step" in inv:
                if ladd(b, a, -1) != inv["step"]:
                    bad.add(("step", key))
            if "rel" in inv:
                k2, s2 = inv["rel"]
                a2, b2 = old.get(k2, None), cur.get(k2, None)
                if k2 not in cur:
                    a2 = b2 = self.at(st, f, k2)
                if isptr(a2) and isptr(b2) and a2.a[0] == b2.a[0]:
                    a2, b2 = a2.a[1], b2.a[1]
                if not isinstance(a2, (int, E)) or not isinstance(b2, (int, E)) or isptr(a2) or isptr(b2) or a2 is UNDEF or b2 is UNDEF or \
                        ladd(a, a2, -s2) != ladd(b, b2, -s2):
                    bad.add(("rel", key, k2, s2))
            for tk, B, s in inv["tb"]:
                if not st.prove(lmul(ladd(B, b, -1), s)):
                    bad.add(tk)
        return frozenset(bad)

    def at(self, st, f, key):
        if key[0] == "r":
            return f.regs[key[1]]
        o = st.objs[key[1]]
        if key[0] == "c":
            c = o.cells.get(key[2])
            return c[1] if c is not None else None
        if key[0] == "vec":
            return o.meta["vec"][key[2]]
        if key[0] == "size":
            return o.size
        return None

    def setat(self, st, f, key, v):
        if key[0] == "r":
            f.regs[key[1]] = v
            return
        o = st.w(key[1])
        if key[0] == "c":
            o.cells[key[2]] = (key[3], v)
        elif key[0] == "vec":
            m = dict(o.meta)
            m["vec"] = dict(m["vec"])
            m["vec"][key[2]] = v
            o.meta = m
            if key[2] == "cap":
                pass
        elif key[0] == "size":
            o.size = v

    def keywidth(self, f, key, phis):
        if key[0] == "c":
            return 8 * key[3]
        if key[0] in ("vec", "size"):
            return 64
        for ins in f.fn["blocks"][f.bb]:
            if ins[0] == "phi" and ins[1] == key[1]:
                return self.width_of(ins[3]) or 64
        return 64

    def freshptr(self, st, key, b):
        """the location may point to some other object later: keep the current object as representative"""
        return b

    def havoclog(self, st, oid, oldlog):
        o = st.w(oid)
        o.log = None
        o.cells = {}
        o.default = ("content", "widened%d" % oid) if o.default != "undef" else ("content", "widened%d" % oid)

    def loopbounds(self, st, f, body):
        """loop-invariant operands of comparisons inside the loop: template bounds"""
        defs = set()
        blocks = f.fn["blocks"]
        for b in body:
            for ins in blocks[b]:
                if ins[1] >= 0:
                    defs.add(ins[1])
        out = []
        for b in body:
            for ins in blocks[b]:
                if ins[0] != "icmp":
                    continue
                for o in (ins[5], ins[6]):
                    if isinstance(o, int):
                        if o not in defs and o in f.regs:
                            out.append(("b%d" % o, f.regs[o]))
                        elif o in defs and isinstance(f.regs.get(o), E) and f.regs[o].k in ("app", "bits", "lin"):
                            out.append(("b%d" % o, f.regs[o]))
                    elif o[0] == "c":
                        w = ins[4] if isinstance(ins[4], int) else 64
                        v = int(o[2])
                        out.append(("c%s" % o[2], v))
        return out

    # ---- calls ---------------------------------------------------------------------------------------
    def call(self, st, f, ins):
        callee = ins[4]
        args = []
        for a in ins[5]:
            if a[0] == "md":
                args.append(None)
                continue
            v = self.val(st, f, a[1])
            if len(a) > 2 and a[2] == "byval":
                o = st.new("byval", "stack", a[3], "undef", ins[2])
                self.memcpy(st, ptr(o.id, 0), v, a[3])
                f.allocas.append(o.id)
                v = ptr(o.id, 0)
            args.append(v)
        if isinstance(callee, list) and callee[0] == "asm":
            r = self.asm(st, callee, args, ins)
            if ins[1] >= 0:
                f.regs[ins[1]] = r
            f.ip += 1
            return
        tgt = self.val(st, f, callee) if isinstance(callee, int) else self.const(st, callee)
        if isinstance(tgt, E) and tgt.k == "fn":
            name = tgt.a[0]
        else:
            if tgt == 0:
                self.report(st, "null-call", "call through a null function pointer")
                raise Abort("infeasible")
            if isinstance(tgt, E) and tgt.k == "sym":
                r = self.opaque_call(st, tgt, args, ins)
                if ins[1] >= 0:
                    f.regs[ins[1]] = r
                f.ip += 1
                return
            self.report(st, "wild-call", "call through %s" % show(tgt))
            raise Abort("infeasible")
        return self.docall(st, f, name, args, ins)

    def docall(self, st, f, name, args, ins):
        short = name.split(":")[-1]
        m = self.intr.get(short)
        if m is None and name not in self.m.funcs:
            m = self.models.get(short)
        if m is None and self.usevec:
            m = self.vecmodel(short)
        if m is None and name not in self.m.funcs and "lc_" + short in self.m.funcs:
            name = "lc_" + short        # models/libc.c
        if m is None and name in self.m.funcs:
            f.ip += 1           # return address
            self.enter(st, name, args, ins[1], ins[2], args[len(self.m.funcs[name]["args"]):])
            return
        if m is None:
            r = self.unknown(st, short, args, ins)
            if ins[1] >= 0:
                f.regs[ins[1]] = r
            f.ip += 1
            return
        n = len(st.frames)
        self.curname = short
        r = m(self, st, args, ins)
        if r is INLINED:
            return
        if len(st.frames) != n or st.frames[-1] is not f:
            return
        if ins[1] >= 0:
            f.regs[ins[1]] = r
        f.ip += 1

    def opaque_call(self, st, tgt, args, ins):
        st.event("callback", tgt, tuple(args))
        return self.freshret(st, "callback", ins[3])

    def freshret(self, st, nm, t):
        if t == "v":
            return None
        if isinstance(t, dict):
            return tuple(self.freshret(st, nm, x[1]) for x in t["s"])
        w = self.width_of(t)
        return sym(nm + "()", 0, (1 << w) - 1)

    def unknown(self, st, name, args, ins):
        """external function without a model: arbitrary result, arbitrary contents behind pointer arguments"""
        self.unmodelled.add(name)
        st.user["opaque"] = name
        for a in args:
            if isptr(a):
                o = st.objs[a.a[0]]
                if o.kind not in ("const", "ext") and o.alive and o.meta is None:
                    o = st.w(o.id)
                    st.user["havoc"] = st.user.get("havoc", 0) + 1
                    o.log = ((0, o.size, ("content", "%s:%d" % (name, st.user["havoc"]))), o.log)
        st.event("ext", name, tuple(args))
        return self.freshret(st, name, ins[3])

    def asm(self, st, callee, args, ins):
        txt = callee[1]
        h = self.intr.get("asm")
        if h:
            r = h(self, st, callee, args, ins)
            if r is not None:
                return r
        r = self.crcasm(st, txt, callee[2], args)
        if r is not None:
            return r
        st.event("asm", txt, callee[2])
        return self.freshret(st, "asm", ins[3])

    def crcasm(self, st, txt, cons, args):
        """the SSE4.2 crc32 instruction: reflected CRC-32C over GF(2)"""
        m = re.match(r"\s*crc32([bwlq])\s+\$(\{?)(\d+)\S*,\s*\$(\{?)(\d+)", txt)
        if not m:
            return None
        cs = cons.split(",")
        src, dst = int(m.group(3)), int(m.group(5))
        if dst != 0 or not cs[0].startswith("=") or len(args) != 2:
            return None
        ins_ = [i for i, c in enumerate(cs) if not c.startswith(("=", "~"))]
        if src not in ins_:
            return None
        val = args[ins_.index(src)]
        old = args[[k for k, i in enumerate(ins_) if i != src][0]]
        n = {"b": 8, "w": 16, "l": 32, "q": 64}[m.group(1)]
        v = st.bits(val, 64)[:n]
        c = list(st.bits(old, 64)[:32])
        if len(v) < n or any(x is None for x in v) or any(x is None for x in c):
            return None
        for i in range(n):
            fb = bxor(c[0], v[i])
            c = c[1:] + [ZERO]
            for k in range(32):
                if (0x82f63b78 >> k) & 1:
                    c[k] = bxor(c[k], fb)
        return mkbits(c)

    def ret(self, st, v):
        f = st.frames.pop()
        for oid in f.allocas:
            o = st.objs.get(oid)
            if o is not None:
                o = st.w(oid)
                o.alive = 0
        if st.frames:
            g = st.frames[-1]
            if f.dest is not None and f.dest >= 0:
                g.regs[f.dest] = v
        else:
            st.user["ret"] = v
        h = f.va if isinstance(f.va, dict) else None
        if h and "onret" in h:
            h["onret"](self, st, v)

    # vectors ------------------------------------------------------------------------------------------------
    def vecmodel(self, short):
        i = short.rfind("_")
        if i <= 0:
            return None
        vn, op = short[:i], short[i + 1:]
        es = self.m.vecs.get(vn)
        if es is None:
            return None
        h = VECOPS.get(op)
        if h is None:
            return None
        return lambda it, st, args, ins: h(it, st, args, ins, vn, es)


def gen(e):
    s = show(e)
    return s if len(s) < 160 else s[:157] + "..."


def curloc(f):
    b = f.fn["blocks"][f.bb]
    for i in range(min(f.ip, len(b) - 1), -1, -1):
        if b[i][2] and b[i][2][1]:
            return b[i][2]
    for x in b:
        if x[2] and x[2][1]:
            return x[2]
    return 0


def setidx(v, idx, x):
    l = list(v) if isinstance(v, tuple) else v
    if len(idx) == 1:
        l[idx[0]] = x
    else:
        l[idx[0]] = setidx(l[idx[0]], idx[1:], x)
    return tuple(l)


def padd(p, off):
    if isptr(p):
        return ptr(p.a[0], ladd(p.a[1], off))
    if off == 0:
        return p
    return p


INLINED = object()
MODELS = {}
VECOPS = {}


def model(*names):
    def d(fn):
        for n in names:
            MODELS[n] = fn
        return fn
    return d
