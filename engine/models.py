"""Models of the environment: libc, the driver intrinsics (abs.h), libmy vectors, and the
parts of libmtbl/libwdns whose contract dnstable relies on."""
from interp import *
from interp import model, MODELS, VECOPS, INLINED

SZMAX = 1 << 40


def fresh(name, lo, hi):
    return sym(name, lo, hi)


def cstr_literal(it, st, p):
    """bytes of a constant C string, or None"""
    if not isptr(p):
        return None
    o = st.objs[p.a[0]]
    if not isinstance(p.a[1], int):
        return None
    out = bytearray()
    i = p.a[1]
    if isinstance(o.default, tuple):
        return None
    if o.log is not None:
        n = st.canon(o.size) if isinstance(o.size, E) else o.size
        if not isinstance(n, int):
            return None
        while i < n and len(out) <= 1000:
            v = it.loadraw(st, o, i, 1)
            if not isinstance(v, int):
                return None
            if v == 0:
                return bytes(out)
            out.append(v)
            i += 1
        return None
    while True:
        c = o.cells.get(i)
        if c is None:
            if o.default == "zero":
                return bytes(out)
            return None
        if c[0] != 1 or not isinstance(c[1], int):
            return None
        if c[1] == 0:
            return bytes(out)
        out.append(c[1])
        i += 1
        if len(out) > 5000:
            return None


def contentid(it, st, p):
    """value number naming the NUL-terminated content at p"""
    o = st.objs[p.a[0]]
    lit = cstr_literal(it, st, p)
    if lit is not None:
        return ("lit", lit)
    if isinstance(o.default, tuple) and o.default[0] == "str" and o.log is None and not o.cells:
        return (o.default[1], p.a[1])
    return ("obj%d" % o.id, id(o.log), tuple(sorted((k, v) for k, v in o.cells.items() if isinstance(v, int))), p.a[1])


def strlen_of(it, st, p, what="strlen"):
    it.deref(st, p, 1, what)
    lit = cstr_literal(it, st, p)
    if lit is not None:
        return len(lit)
    o = st.objs[p.a[0]]
    if isinstance(o.default, tuple) and o.default[0] == "str" and o.log is None and not o.cells:
        return ladd(o.default[2], p.a[1], -1)
    # known length recorded by a model
    k = ("strlen", o.id, p.a[1])
    m = o.meta or {}
    if "strlen" in m and m["strlen"][1] == p.a[1]:
        return m["strlen"][0]
    if isinstance(p.a[1], int) and isinstance(o.size, int) and o.log is None and o.default != "lazyopaque":
        # a small buffer of individually known bytes: walk it
        for i in range(p.a[1], o.size):
            b = it.loadraw(st, o, i, 1)
            if b is UNDEF or isinstance(b, E) and b.k in ("ptr", "fn"):
                break
            d = (b == 0) if isinstance(b, int) else st.decide(cmp("eq", 8, b, 0))
            if d is None:
                if o.size > 80:
                    break
                d = st.branch(cmp("eq", 8, b, 0))
            if d:
                return i - p.a[1]
        else:
            it.report(st, "out-of-bounds", "%s reads past the end of an unterminated string" % what)
            raise Abort("infeasible")
    # look for a NUL written explicitly after a content range: (off,1,0)
    node = o.log
    if node is not None and node[0][1] == 1 and node[0][2] == 0 and not isinstance(node[0][2], tuple):
        if isinstance(o.size, (int, E)):
            n = ladd(node[0][0], p.a[1], -1)
            # content before must be NUL free: bounded by the terminator
            r = nsym("strlen:%d:%s" % (o.id, show(n)), 0, SZMAX)
            if isinstance(n, int):
                r = nsym("strlen:%d:%d" % (o.id, n), 0, max(0, n))
            else:
                st.addfact(ladd(n, r, -1))
            return r
    # an array with some NUL somewhere: bounded by the object
    r = nsym("strlen:%d:%d" % (o.id, id(o.log)), 0, SZMAX)
    st.addfact(ladd(ladd(ladd(o.size, p.a[1], -1), -1), r, -1))
    return r


# ---- driver intrinsics ------------------------------------------------------------------------------
def lit(it, st, p):
    s = cstr_literal(it, st, p)
    return s.decode() if s is not None else "?"


@model("abs_u64")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, (1 << 64) - 1)


@model("abs_u32")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, (1 << 32) - 1)


@model("abs_u16")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, (1 << 16) - 1)


@model("abs_u8")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, 255)


@model("abs_bool")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, 1)


@model("abs_choice")
def _(it, st, a, ins):
    """non-deterministic boolean, resolved immediately"""
    return int(st.branch(cmp("eq", 8, nsym(lit(it, st, a[0]), 0, 1), 1)))


@model("abs_nondet")
def _(it, st, a, ins):
    k = "nd:" + lit(it, st, a[0])
    n = st.user.get(k, 0)
    v = nsym("%s.%d" % (lit(it, st, a[0]), n), 0, 1)
    r = int(st.branch(cmp("eq", 8, v, 1)))
    st.user[k] = n + 1
    return r


@model("abs_i32")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), -(1 << 31), (1 << 31) - 1)


@model("abs_i64")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), -(1 << 63), (1 << 63) - 1)


@model("abs_range")
def _(it, st, a, ins):
    lo, hi = a[1], a[2]

    def s(x):
        return x - (1 << 64) if x >> 63 else x
    lo, hi = s(lo), s(hi)
    return nsym(lit(it, st, a[0]), lo, hi)


@model("abs_fresh")
def _(it, st, a, ins):
    lo, hi = a[1], a[2]
    n = st.user.get("fresh", 0)
    st.user["fresh"] = n + 1
    return nsym("%s.%d" % (lit(it, st, a[0]), n), lo, hi)


@model("abs_size")
def _(it, st, a, ins):
    return nsym(lit(it, st, a[0]), 0, SZMAX)


@model("abs_buf")
def _(it, st, a, ins):
    o = st.new(lit(it, st, a[0]), "input", a[1], "lazy", ins[2])
    return ptr(o.id, 0)


@model("abs_robuf")
def _(it, st, a, ins):
    o = st.new(lit(it, st, a[0]), "const", a[1], "lazy", ins[2])
    return ptr(o.id, 0)


@model("abs_str")
def _(it, st, a, ins):
    n = lit(it, st, a[0])
    ln = nsym("strlen(%s)" % n, 0, SZMAX)
    o = st.new(n, "const", ladd(ln, 1), ("str", n, ln), ins[2])
    return ptr(o.id, 0)


@model("abs_ptr")
def _(it, st, a, ins):
    """opaque non-null pointer to an external object"""
    o = st.new(lit(it, st, a[0]), "ext", PTRMAX, "lazy", ins[2])
    return ptr(o.id, 0)


@model("abs_fn")
def _(it, st, a, ins):
    """opaque non-null callback"""
    v = nsym("fn:" + lit(it, st, a[0]), 1, PTRMAX)
    return v


@model("abs_assume")
def _(it, st, a, ins):
    c = a[0]
    w = it.width_of(ins[5][0][0]) or 32
    e = notc(cmp("eq", w, c, 0))
    if not st.branch(e):
        raise Abort("infeasible")


@model("abs_check")
def _(it, st, a, ins):
    c = a[0]
    msg = lit(it, st, a[1])
    w = it.width_of(ins[5][0][0]) or 32
    loc = it.m.locstr(ins[2])
    if c is UNDEF:
        it.report(st, "check", msg + " (uninitialised)")
        raise Abort("infeasible")
    e = notc(cmp("eq", w, c, 0))
    r = st.decide(e)
    if r is None:
        raise NeedFork([[(e, True)], [(e, False)]])
    it.stats["checks"] += 1
    it.check_sites[loc] = it.check_sites.get(loc, 0) + 1
    if r:
        it.stats["checks_proved"] += 1
    else:
        it.report(st, "check", msg)
        raise Abort("infeasible")


@model("abs_reach")
def _(it, st, a, ins):
    m = lit(it, st, a[0])
    it.reached[m] = it.reached.get(m, 0) + 1


@model("abs_stop")
def _(it, st, a, ins):
    raise Abort("infeasible")


@model("abs_note")
def _(it, st, a, ins):
    st.event("note", lit(it, st, a[0]), a[1] if len(a) > 1 else None)


@model("abs_event_ptr")
def _(it, st, a, ins):
    st.event("ptr", lit(it, st, a[0]), a[1], a[2] if len(a) > 2 else None)


@model("abs_leak_ok")
def _(it, st, a, ins):
    if isptr(a[0]):
        o = st.w(a[0].a[0])
        o.meta = dict(o.meta or {})
        o.meta["leakok"] = True


@model("abs_noleak")
def _(it, st, a, ins):
    pass    # leaks are looked for at the end of every path


@model("abs_same")
def _(it, st, a, ins):
    """pointer/value identity as decided by value numbers"""
    r = st.decide(cmp("eq", 64, a[0], a[1]))
    return int(bool(r))


@model("abs_alive")
def _(it, st, a, ins):
    return st.objs[a[0].a[0]].alive if isptr(a[0]) else 0


@model("abs_objsize")
def _(it, st, a, ins):
    o = st.objs[a[0].a[0]]
    return ladd(o.size, a[0].a[1], -1)


@model("abs_make_const")
def _(it, st, a, ins):
    o = st.w(a[0].a[0])
    o.kind = "const"


@model("abs_print")
def _(it, st, a, ins):
    print("ABS", lit(it, st, a[0]), [show(x) if isinstance(x, (int, E)) else x for x in a[1:]])


@model("abs_eqbytes")
def _(it, st, a, ins):
    """1 iff the n bytes at p and q have identical abstract content"""
    p, q, n = a
    return int(same_content(it, st, p, q, n))


def desc_range(it, st, p, n):
    o = st.objs[p.a[0]]
    off = p.a[1]
    v = it.rangeof(st, o, off, n) if o.log is not None else None
    if v is not None and v[0] == "copy":
        # chase
        name, so, slog, scells, sdef, soff = v[1:7]
        if slog is None and not scells and sdef == "lazy":
            return ("src", name, soff)
        return ("snap", so, id(slog), soff)
    if v is not None:
        return ("val",) + tuple(v)
    if o.log is None and not o.cells and o.default == "lazy":
        return ("src", o.name, off)
    if o.log is None and not o.cells and isinstance(o.default, tuple):
        return ("src", o.default[1], off)
    return None


def same_content(it, st, p, q, n):
    if n == 0:
        return True
    n = st.canon(n) if isinstance(n, E) else n
    if isinstance(n, int) and n <= 700:
        for i in range(n):
            x = it.load(st, padd(p, i), 8)
            y = it.load(st, padd(q, i), 8)
            if x is y or x == y:
                continue
            if st.decide(cmp("eq", 8, x, y)) is not True:
                return False
        return True
    a, b = desc_range(it, st, p, n), desc_range(it, st, q, n)
    if a is not None and b is not None:
        if a == b:
            return True
        if sim(st, a, b):
            return True
    return segments_equal(it, st, p, q, n)


def segments_equal(it, st, p, q, n):
    """compare piecewise: cut both ranges where either one was written"""
    cuts = [n]
    for x in (p, q):
        o = st.objs[x.a[0]]
        lg = o.log
        while lg is not None:
            (off, ln, _v), lg = lg
            cuts += [ladd(off, lmul(x.a[1], -1)), ladd(ladd(off, ln), lmul(x.a[1], -1))]
        for k, v in o.cells.items():
            cuts += [ladd(k, lmul(x.a[1], -1))]
    uniq = []
    for c in cuts:
        c = st.canon(c) if isinstance(c, E) else c
        if c not in uniq:
            uniq.append(c)
    if len(uniq) > 40:
        return False
    pos = 0
    for _ in range(80):
        left = ladd(n, lmul(pos, -1))
        left = st.canon(left) if isinstance(left, E) else left
        if left == 0 or isinstance(left, E) and st.decide(cmp("eq", 64, left, 0)) is True:
            return True
        pp, qq = padd(p, pos), padd(q, pos)
        for c in uniq:
            ln = ladd(c, lmul(pos, -1))
            ln = st.canon(ln) if isinstance(ln, E) else ln
            if isinstance(ln, int) and ln <= 0 or not st.prove(ladd(ln, -1)) or not st.prove(ladd(left, lmul(ln, -1))):
                continue
            a, b = desc_range(it, st, pp, ln), desc_range(it, st, qq, ln)
            if a is not None and b is not None and (a == b or sim(st, a, b)):
                pos = c
                break
        else:
            if not st.prove(ladd(left, -1)):
                return False
            x, y = it.load(st, pp, 8), it.load(st, qq, 8)
            if not (x is y or x == y or st.decide(cmp("eq", 8, x, y)) is True):
                return False
            pos = ladd(pos, 1)
    return False


def sim(st, x, y, d=0):
    """structural equality of two content descriptions, up to integer terms proved equal"""
    if x is y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(sim(st, p, q, d + 1) for p, q in zip(x, y))
    if isinstance(x, (int, E)) and isinstance(y, (int, E)) and not isinstance(x, bool):
        if x == y:
            return True
        if isinstance(x, int) and isinstance(y, int):
            return False
        if isinstance(x, E) and isinstance(y, E) and x.k == y.k == "app" and x.a[0] == y.a[0] and sim(st, x.a[1:], y.a[1:], d + 1):
            return True
        if any(isinstance(z, E) and z.k in ("ptr", "fn", "undef", "cmp", "not") for z in (x, y)):
            return False
        return st.decide(cmp("eq", 64, x, y)) is True
    return x == y


from interp import padd, maptbl, mktbl  # noqa


# ---- allocation ------------------------------------------------------------------------------------
NM = [0]


def alloc(it, st, size, default, ins, name="heap"):
    if size is UNDEF:
        it.report(st, "uninit", "allocation of uninitialised size")
        raise Abort("infeasible")
    o = st.new(name, "heap", size, default, st.loc())
    return ptr(o.id, 0)


def maybe_fail(it, st, ins):
    if it.opts_malloc_fail(st):
        k = "malloc"
        n = st.user.get(k, 0)
        v = nsym("alloc-fails.%d" % n, 0, 1)
        r = st.branch(cmp("eq", 8, v, 1))
        st.user[k] = n + 1
        return r
    return False


def opts_malloc_fail(self, st):
    return getattr(self, "malloc_fail", False)


Interp.opts_malloc_fail = opts_malloc_fail


@model("malloc")
def _(it, st, a, ins):
    if maybe_fail(it, st, ins):
        return 0
    return alloc(it, st, a[0], "undef", ins)


@model("calloc")
def _(it, st, a, ins):
    if maybe_fail(it, st, ins):
        return 0
    n = it.binop(st, "mul", 64, a[0], a[1])
    return alloc(it, st, n, "zero", ins)


@model("realloc")
def _(it, st, a, ins):
    p, n = a
    if maybe_fail(it, st, ins):
        return 0
    if p == 0:
        return alloc(it, st, n, "undef", ins)
    o = st.objs[p.a[0]]
    if not o.alive:
        it.report(st, "use-after-free", "realloc of released object")
        raise Abort("infeasible")
    if o.kind != "heap" or p.a[1] != 0:
        it.report(st, "bad-free", "realloc of a pointer that was not returned by the allocator")
        raise Abort("infeasible")
    q = st.new(o.name, "heap", n, o.default, st.loc())
    q.cells = dict(o.cells)
    q.log = o.log
    o = st.w(o.id)
    o.alive = 0
    return ptr(q.id, 0)


@model("free")
def _(it, st, a, ins):
    p = a[0]
    if p == 0:
        return None
    if p is UNDEF:
        it.report(st, "uninit", "free of an uninitialised pointer")
        raise Abort("infeasible")
    if not isptr(p):
        if isinstance(p, E) and (p.k == "sym" or p.k == "app" and p.a[0] == "opq"):
            return None
        it.report(st, "bad-free", "free of %s" % show(p))
        raise Abort("infeasible")
    o = st.objs[p.a[0]]
    if not o.alive:
        it.report(st, "double-free", "object %s released twice" % o.name)
        raise Abort("infeasible")
    if o.kind == "ext" and o.name == "element":
        return None
    if o.kind != "heap" or p.a[1] != 0:
        it.report(st, "bad-free", "free of a pointer that was not returned by the allocator (%s)" % o.name)
        raise Abort("infeasible")
    if o.meta and o.meta.get("handle"):
        it.report(st, "bad-free", "free of library handle %s" % o.name)
        raise Abort("infeasible")
    o = st.w(o.id)
    o.alive = 0
    return None


@model("strdup", "__strdup")
def _(it, st, a, ins):
    p = a[0]
    n = strlen_of(it, st, p)
    if maybe_fail(it, st, ins):
        return 0
    o0 = st.objs[p.a[0]]
    o = st.new("strdup", "heap", ladd(n, 1), "undef", st.loc())
    q = ptr(o.id, 0)
    if isinstance(n, int):
        it.memcpy(st, q, p, ladd(n, 1))
    else:
        if isinstance(o0.default, tuple) and o0.default[0] == "str" and o0.log is None and not o0.cells:
            o.default = o0.default if p.a[1] == 0 else ("str", "%s+%s" % (o0.default[1], show(p.a[1])), n)
        else:
            it.memcpy(st, q, p, ladd(n, 1))
            w = st.w(o.id)
            w.meta = {"strlen": (n, 0)}
    return q


# ---- memory / strings --------------------------------------------------------------------------------
def _memcpy(it, st, a, ins):
    it.memcpy(st, a[0], a[1], a[2])
    return a[0]


for _n in ("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "__memcpy_chk"):
    MODELS[_n] = _memcpy


def _memset(it, st, a, ins):
    it.memset(st, a[0], a[1], a[2])
    return a[0]


for _n in ("memset", "llvm.memset.p0.i64"):
    MODELS[_n] = _memset


@model("bzero")
def _(it, st, a, ins):
    it.memset(st, a[0], 0, a[1])


@model("strlen")
def _(it, st, a, ins):
    return strlen_of(it, st, a[0])


def _cmpres(it, st, key, ins):
    return app("cmpres", (key,), -(1 << 31), (1 << 31) - 1)


@model("memcmp", "bcmp")
def _(it, st, a, ins):
    p, q, n = a
    n = st.canon(n) if isinstance(n, E) else n
    if n == 0:
        return 0
    it.deref(st, p, n, "memcmp")
    it.deref(st, q, n, "memcmp")
    if same_content(it, st, p, q, n):
        return 0
    if isinstance(n, int) and n <= 1024:
        for i in range(n):
            x = it.load(st, padd(p, i), 8)
            y = it.load(st, padd(q, i), 8)
            c = cmp("eq", 8, x, y)
            if n > 16 and st.decide(c) is None:
                break  # undecided bytes of long strings: compared as a whole
            if not st.branch(c):
                lt = cmp("ult", 8, x, y)
                return (1 << 32) - 1 if st.branch(lt) else 1
        else:
            return 0
    k1 = desc_range(it, st, p, n) or ("p", p)
    k2 = desc_range(it, st, q, n) or ("q", q)
    if repr(k1) > repr(k2):
        # antisymmetry: canonical orientation
        r = app("memcmp", (k2, k1, n), -(1 << 31) + 1, (1 << 31) - 1)
        return lmul(r, -1)
    return app("memcmp", (k1, k2, n), -(1 << 31) + 1, (1 << 31) - 1)


@model("strcmp", "strcasecmp")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "string compare")
    it.deref(st, a[1], 1, "string compare")
    l0, l1 = cstr_literal(it, st, a[0]), cstr_literal(it, st, a[1])
    ci = it.curname == "strcasecmp"
    if l0 is not None and l1 is not None:
        if ci:
            l0, l1 = l0.lower(), l1.lower()
        return 0 if l0 == l1 else (1 if l0 > l1 else (1 << 32) - 1)
    k0, k1 = contentid(it, st, a[0]), contentid(it, st, a[1])
    if ci:
        k0 = ("lit", k0[1].lower()) if k0[0] == "lit" else k0
        k1 = ("lit", k1[1].lower()) if k1[0] == "lit" else k1
    if k0 == k1:
        return 0
    # one unknown string: at most one literal may match it
    if (k0[0] == "lit") != (k1[0] == "lit"):
        u, l = (k1, k0) if k0[0] == "lit" else (k0, k1)
        known = st.user.get(("streq", ci, u))
        if known is not None:
            return 0 if known == l[1] else 1
        neq = st.user.get(("strne", ci, u), frozenset())
        if l[1] in neq:
            return 1
        # the empty string is decided by the first byte
        c = cmp("eq", 8, nsym("streq%d:%s:%s" % (ci, u, l[1]), 0, 1), 1)
        r = st.branch(c)
        if r:
            st.user[("streq", ci, u)] = l[1]
            return 0
        st.user[("strne", ci, u)] = neq | {l[1]}
        return 1
    if repr(k0) > repr(k1):
        return lmul(app("strcmp%d" % ci, (k1, k0), -(1 << 31) + 1, (1 << 31) - 1), -1)
    return app("strcmp%d" % ci, (k0, k1), -(1 << 31) + 1, (1 << 31) - 1)


@model("strncmp", "strncasecmp")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "string compare")
    it.deref(st, a[1], 1, "string compare")
    l0, l1 = cstr_literal(it, st, a[0]), cstr_literal(it, st, a[1])
    n = st.canon(a[2]) if isinstance(a[2], E) else a[2]
    if l0 is not None and l1 is not None and isinstance(n, int):
        l0, l1 = l0[:n], l1[:n]
        if it.curname == "strncasecmp":
            l0, l1 = l0.lower(), l1.lower()
        return 0 if l0 == l1 else (1 if l0 > l1 else (1 << 32) - 1)
    k0, k1 = contentid(it, st, a[0]), contentid(it, st, a[1])
    if k0 == k1:
        return 0
    return app(it.curname, (k0, k1, n), -(1 << 31), (1 << 31) - 1)


@model("strchr", "strrchr", "strstr")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "strchr")
    n = strlen_of(it, st, a[0])
    k = contentid(it, st, a[0])
    nm = it.curname
    s_ = cstr_literal(it, st, a[0])
    if s_ is not None and nm != "strstr":
        f = s_.find if nm == "strchr" else s_.rfind
        find = lambda x: (f(bytes([x & 255])) if x & 255 else len(s_)) + 1
        i = None
        if isinstance(a[1], int):
            i = find(a[1])
        elif base(a[1]) is not None:
            i = maptbl(st, a[1], find)
        if i is not None:
            if i == 0 or not isinstance(i, int) and st.branch(cmp("eq", 64, i, 0)):
                return 0
            return ptr(a[0].a[0], ladd(ladd(a[0].a[1], i), -1))
    if s_ is not None and nm == "strstr":
        t_ = cstr_literal(it, st, a[1])
        if t_ is not None:
            i = s_.find(t_)
            return ptr(a[0].a[0], ladd(a[0].a[1], i)) if i >= 0 else 0
    key = app(nm, (k, a[1] if not isptr(a[1]) else contentid(it, st, a[1])), 0, 1)
    if st.branch(cmp("eq", 8, key, 1)):
        off = app(nm + "off", (k, a[1] if not isptr(a[1]) else contentid(it, st, a[1])), 0, SZMAX)
        st.addfact(ladd(ladd(n, off, -1), -1))
        return ptr(a[0].a[0], ladd(a[0].a[1], off))
    return 0


@model("memchr")
def _(it, st, a, ins):
    p, c, n = a
    it.deref(st, p, n, "memchr")
    o = st.objs[p.a[0]]
    if isinstance(n, int) and isinstance(p.a[1], int) and n <= 256:
        c8 = it.trunc(st, c, 32, 8)
        for i in range(n):
            x = it.load(st, padd(p, i), 8)
            if st.branch(cmp("eq", 8, x, c8)):
                return padd(p, i)
        return 0
    k = nsym("memchr", 0, 1)
    if st.branch(cmp("eq", 8, k, 1)):
        off = sym("memchroff", 0, SZMAX)
        st.addfact(ladd(ladd(n, off, -1), -1))
        return padd(p, off)
    return 0


@model("tolower", "toupper")
def _(it, st, a, ins):
    c = a[0]
    up = it.curname == "toupper"
    lo, hi = (97, 122) if up else (65, 90)
    if isinstance(c, int):
        return c + (-32 if up else 32) if lo <= c <= hi else c
    if base(c) is not None:
        return maptbl(st, c, lambda x: x + (-32 if up else 32) if lo <= x <= hi else x)
    if st.branch(cmp("ult", 32, c, lo)):
        return c
    if st.branch(cmp("ult", 32, hi, c)):
        return c
    return ladd(c, -32 if up else 32)


CT = {  # glibc bits (little endian)
    "upper": 0x100, "lower": 0x200, "alpha": 0x400, "digit": 0x800, "xdigit": 0x1000, "space": 0x2000,
    "print": 0x4000, "graph": 0x8000, "blank": 0x1, "cntrl": 0x2, "punct": 0x4, "alnum": 0x8}


def ctype_bits(c):
    ch = chr(c)
    r = 0
    if c < 128:
        if ch.isupper(): r |= CT["upper"]
        if ch.islower(): r |= CT["lower"]
        if ch.isalpha(): r |= CT["alpha"]
        if ch.isdigit(): r |= CT["digit"]
        if ch in "0123456789abcdefABCDEF": r |= CT["xdigit"]
        if ch in " \t\n\v\f\r": r |= CT["space"]
        if 32 <= c < 127: r |= CT["print"]
        if 33 <= c < 127: r |= CT["graph"]
        if ch in " \t": r |= CT["blank"]
        if c < 32 or c == 127: r |= CT["cntrl"]
        if 33 <= c < 127 and not ch.isalnum(): r |= CT["punct"]
        if ch.isalnum(): r |= CT["alnum"]
    return r


@model("__ctype_b_loc")
def _(it, st, a, ins):
    o = st.user.get("ctype_b")
    if o is None:
        t = st.new("ctype", "const", 384 * 2, "zero")
        for c in range(-128, 256):
            t.cells[(c + 128) * 2] = (2, ctype_bits(c) if c >= 0 else 0)
        p = st.new("ctype_p", "const", 8, "zero")
        p.cells[0] = (8, ptr(t.id, 256))
        st.user["ctype_b"] = p.id
        o = p.id
    return ptr(o, 0)


def _ctype(cls):
    def h(it, st, a, ins):
        c = a[0]
        m = CT[cls]
        if isinstance(c, int):
            return 1 if c < 256 and ctype_bits(c) & m else 0
        if base(c) is not None:
            return maptbl(st, c, lambda x: 1 if 0 <= x < 256 and ctype_bits(x) & m else 0)
        # fork on class ranges
        rs = []
        cur = None
        for x in range(256):
            if ctype_bits(x) & m:
                if cur is None:
                    cur = x
            elif cur is not None:
                rs.append((cur, x - 1))
                cur = None
        for lo, hi in rs:
            if st.branch(notc(cmp("slt", 32, c, lo))) and st.branch(notc(cmp("slt", 32, hi, c))):
                return 1
        return 0
    return h


for _c in ("upper", "lower", "alpha", "digit", "xdigit", "space", "print", "graph", "blank", "cntrl", "punct", "alnum"):
    MODELS["is" + _c] = _ctype(_c)


# ---- process / stdio ------------------------------------------------------------------------------------
@model("abort")
def _(it, st, a, ins):
    raise Abort("abort", "abort() reached")


@model("__assert_fail")
def _(it, st, a, ins):
    raise Abort("abort", "assertion may fail: %s" % lit(it, st, a[0]))


@model("exit", "_exit")
def _(it, st, a, ins):
    st.event("exit", a[0])
    raise Abort("exit")


@model("perror", "fflush", "fclose", "usleep", "setlocale", "puts", "putchar", "fputc", "fputs", "fwrite", "putc")
def _(it, st, a, ins):
    st.event("stdio", it.curname, tuple(a))
    return fresh(it.curname, 0, (1 << 31) - 1) if ins[3] != "v" else None


@model("printf", "fprintf", "vfprintf")
def _(it, st, a, ins):
    st.event("stdio", it.curname, tuple(a))
    return fresh("printf", 0, 1000)


def pieces_fmt(it, st, fmt, args):
    """format string -> list of pieces ('lit', bytes) / ('str', ptr, len) / ('num', conv, value)"""
    out = []
    i = 0
    args = list(args)
    while i < len(fmt):
        c = fmt[i:i + 1]
        if c != b"%":
            j = fmt.find(b"%", i)
            j = len(fmt) if j < 0 else j
            out.append(("lit", fmt[i:j]))
            i = j
            continue
        j = i + 1
        while j < len(fmt) and fmt[j:j + 1] in b"#0- +'123456789.hlzjt*":
            j += 1
        conv = fmt[i:j + 1]
        i = j + 1
        if conv.endswith(b"%"):
            out.append(("lit", b"%"))
            continue
        v = args.pop(0) if args else None
        if conv == b"%s":
            s = cstr_literal(it, st, v) if isptr(v) else None
            if s is not None:
                out.append(("lit", s))
            else:
                out.append(("str", v))
        else:
            t = fmtint(conv, v)
            if t is not None:
                out.append(("lit", t))
            else:
                out.append(("num", conv, v))
    res = []
    for p in out:
        if p[0] == "lit" and res and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + p[1])
        else:
            res.append(p)
    return res


def fmtint(conv, v):
    """the text of a known integer"""
    c = conv.decode()
    if isinstance(v, bool) or not isinstance(v, int) or c[-1] not in "udixXc" or "*" in c:
        return None
    w = 64 if ("l" in c or "z" in c or "j" in c) else {0: 32, 1: 16}.get(c.count("h"), 8)
    v &= (1 << w) - 1
    if c[-1] in "di" and v >> (w - 1):
        v -= 1 << w
    if "'" in c:
        if abs(v) > 999:
            return None
        c = c.replace("'", "")
    if c[-1] == "c":
        return bytes([v & 255]) if len(c) == 2 else None
    c = "".join(x for x in c if x not in "hlzj")
    return (c[:-1] + c[-1].replace("u", "d").replace("i", "d")) .encode() % v


MAXW = {"u": 20, "d": 20, "i": 20, "x": 16, "X": 16, "c": 1}


def conv_maxlen(it, st, conv, v):
    """(min,max) printed length of a numeric conversion"""
    c = conv.decode()
    w = 64 if ("l" in c or "z" in c or "j" in c) else 32
    hh = c.count("h")
    if hh == 1:
        w = 16
    elif hh == 2:
        w = 8
    lo, hi = 0, (1 << w) - 1
    if isinstance(v, int):
        lo = hi = v & ((1 << w) - 1)
    elif isinstance(v, E) and v.k not in ("ptr", "fn"):
        a, b = st.interval(v)
        if a >= 0 and b <= hi:
            lo, hi = a, b
    base = 16 if c[-1] in "xX" else 10
    minw = 0
    import re
    m = re.match(r"%[#0\- +']*(\d+)?", c)
    if m and m.group(1):
        minw = int(m.group(1))
    prec = re.search(r"\.(\d+)", c)
    if prec:
        minw = max(minw, int(prec.group(1)))

    def nd(x):
        n = 1
        while x >= base:
            x //= base
            n += 1
        return n
    a, b = max(nd(lo), minw), max(nd(hi), minw)
    if c[-1] in "di" and hi >> (w - 1):
        a, b = minw or 1, max(minw, nd(1 << (w - 1)) + 1)
    if c[-1] == "c":
        a = b = 1
    if "'" in c:
        # grouping: separators are locale dependent (LC_NUMERIC): at most MB_LEN_MAX-sized each
        sep = getattr(it, "sepmax", 1)
        b = b + sep * ((b - 1) // 3)
    return a, b


def conv_x(c):
    return c.endswith(b"x")


@model("snprintf")
def _(it, st, a, ins):
    buf, n, fmt = a[0], a[1], cstr_literal(it, st, a[2])
    if fmt is None:
        it.report(st, "format", "non-literal format string")
        raise Abort("infeasible")
    ps = pieces_fmt(it, st, fmt, a[3:])
    lo = hi = 0
    for p in ps:
        if p[0] == "lit":
            lo += len(p[1])
            hi += len(p[1])
        elif p[0] == "num":
            x, y = conv_maxlen(it, st, p[1], p[2])
            lo += x
            hi += y
        else:
            ln = strlen_of(it, st, p[1], "%s argument")
            l, h = st.interval(ln)
            lo += l
            hi += h
    key = tuple((p[0], p[1], p[2]) if p[0] == "num" else (p[0], p[1]) for p in ps)
    if lo == hi:
        ln = lo
    else:
        ln = st.rapp("fmtlen", (key,), lo, hi, 0, SZMAX)
    it.deref(st, buf, n, "snprintf destination") if buf != 0 else None
    if buf != 0 and len(ps) == 1 and ps[0][0] == "num" and ps[0][1] in (b"%02x", b"%.2x", b"%02X", b"%.2X") and \
            isinstance(n, int) and n >= 3 and isinstance(ps[0][2], E) and ps[0][2].k not in ("ptr", "fn"):
        v = ps[0][2]
        lo, hi = st.interval(v)
        if 0 <= lo and hi <= 255:
            t = [("%02x" if conv_x(ps[0][1]) else "%02X") % i for i in range(256)]
            c = [mktbl(st, [ord(x[i]) for x in t], v) for i in (0, 1)]
            if None not in c:
                it.store(st, buf, c[0], 8)
                it.store(st, padd(buf, 1), c[1], 8)
                it.store(st, padd(buf, 2), 0, 8)
                return 2
    if buf != 0:
        o = st.w(buf.a[0])
        lits = b"".join(p[1] for p in ps) if all(p[0] == "lit" for p in ps) else None
        if lits is not None and isinstance(buf.a[1], int) and isinstance(n, int) and n > 0:
            for i, b in enumerate(lits[:n - 1] + b"\0"):
                it.storeraw(st, o.id, ladd(buf.a[1], i), 1, b)
        else:
            o.log = ((buf.a[1], n, ("content", ("fmt", key), 0, 255)), o.log)
            o.meta = dict(o.meta or {})
            o.meta["strlen"] = (ln, buf.a[1])
            o.meta["fmt"] = (buf.a[1], ps)
    return ln


@model("sprintf")
def _(it, st, a, ins):
    fmt = cstr_literal(it, st, a[1])
    ln = MODELS["snprintf"](it, st, [0, 0, a[1]] + list(a[2:]), ins)
    if fmt is not None:
        MODELS["snprintf"](it, st, [a[0], ladd(ln, 1), a[1]] + list(a[2:]), ins)
    return ln


# time ------------------------------------------------------------------------------------------------
@model("clock_gettime")
def _(it, st, a, ins):
    n = st.user.get("clock", 0)
    r = nsym("clock_gettime_fails.%d" % n, 0, 1)
    if getattr(it, "clock_fail", False) and st.branch(cmp("eq", 8, r, 1)):
        st.user["clock"] = n + 1
        return (1 << 32) - 1
    st.user["clock"] = n + 1
    s = nsym("now.sec.%d" % n, 0, (1 << 40))
    ns = nsym("now.nsec.%d" % n, 0, 999999999)
    if n:
        ps = nsym("now.sec.%d" % (n - 1), 0, (1 << 40))
        st.addfact(ladd(s, ps, -1))
    it.store(st, a[1], s, 64)
    it.store(st, padd(a[1], 8), ns, 64)
    st.event("clock", a[0])
    return 0


@model("gmtime_r")
def _(it, st, a, ins):
    t = it.load(st, a[0], 64)
    it.deref(st, a[1], 56, "gmtime_r")
    k = app("gmtime-ok", (t,), 0, 1)
    # representable iff the year fits an int
    lim = 67768036191676799
    if isinstance(t, int):
        ok = t <= lim or t >= (1 << 64) - lim
    else:
        ok = not st.branch(cmp("ult", 64, lim, t)) or st.branch(notc(cmp("ult", 64, t, (1 << 64) - 67768040609740800)))
    if not ok:
        return 0
    names = [("sec", 0, 60), ("min", 0, 59), ("hour", 0, 23), ("mday", 1, 31), ("mon", 0, 11), ("year", -(1 << 31), (1 << 31) - 1)]
    for i, (n, lo, hi) in enumerate(names):
        it.store(st, padd(a[1], 4 * i), app("gm_" + n, (t,), lo, hi), 32)
    for i in range(6, 9):
        it.store(st, padd(a[1], 4 * i), app("gm%d" % i, (t,), 0, 366), 32)
    it.store(st, padd(a[1], 40), 0, 64)
    it.store(st, padd(a[1], 48), 0, 64)
    return a[1]


@model("strftime")
def _(it, st, a, ins):
    buf, n, fmt, tm = a
    it.deref(st, buf, n, "strftime")
    y = it.load(st, padd(tm, 20), 32)
    ln = sym("strftimelen", 0, (n - 1) if isinstance(n, int) else SZMAX)
    f = cstr_literal(it, st, fmt)
    o = st.w(buf.a[0])
    fields = tuple(it.load(st, padd(tm, 4 * i), 32) for i in range(6))
    o.log = ((buf.a[1], n, ("content", ("strftime", f, fields), 0, 255)), o.log)
    o.meta = dict(o.meta or {})
    o.meta["fmt"] = (buf.a[1], [("time", f, fields)])
    return ln


# pthread ---------------------------------------------------------------------------------------------
@model("pthread_mutex_init", "pthread_mutex_destroy")
def _(it, st, a, ins):
    it.deref(st, a[0], 40, "mutex")
    st.event("mutex", it.curname, a[0])
    return 0


@model("pthread_mutex_lock")
def _(it, st, a, ins):
    held = st.user.get(("lock", a[0]), 0)
    it.deref(st, a[0], 40, "mutex")
    if held:
        it.report(st, "lock", "lock acquired while already held")
        raise Abort("infeasible")
    st.user[("lock", a[0])] = 1
    st.event("mutex", "lock", a[0])
    return 0


@model("pthread_mutex_unlock")
def _(it, st, a, ins):
    it.deref(st, a[0], 40, "mutex")
    if not st.user.get(("lock", a[0]), 0):
        it.report(st, "lock", "unlock of a lock that is not held")
        raise Abort("infeasible")
    st.user[("lock", a[0])] = 0
    st.event("mutex", "unlock", a[0])
    return 0


# setjmp ----------------------------------------------------------------------------------------------
@model("_setjmp", "setjmp", "__sigsetjmp")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "setjmp")
    f = st.frames[-1]
    st.jmp[a[0]] = (tuple(fr.id for fr in st.frames), f.bb, f.ip, ins[1])
    st.event("setjmp", a[0])
    return 0


@model("longjmp", "_longjmp", "siglongjmp")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "longjmp")
    j = st.jmp.get(a[0])
    st.event("longjmp", a[0])
    if j is None:
        it.report(st, "longjmp", "longjmp through an environment that was never set")
        raise Abort("infeasible")
    ids, bb, ip, dest = j
    cur = tuple(fr.id for fr in st.frames)
    if cur[:len(ids)] != ids:
        it.report(st, "longjmp", "longjmp into a function that has already returned")
        raise Abort("infeasible")
    while len(st.frames) > len(ids):
        fr = st.frames.pop()
        for oid in fr.allocas:
            if oid in st.objs:
                st.w(oid).alive = 0
    f = st.frames[-1]
    f.bb, f.ip = bb, ip
    v = a[1]
    f.regs[dest] = v if v != 0 else 1
    f.ip += 1
    return INLINED


# varargs
@model("llvm.va_start", "llvm.va_start.p0", "llvm.va_end", "llvm.va_end.p0")
def _(it, st, a, ins):
    f = st.frames[-1]
    if "start" in it.curname:
        st.user[("va", a[0])] = tuple(f.va or ())
    return None


@model("abs_va")
def _(it, st, a, ins):
    """the i-th variable argument of the driver function which asks"""
    va = st.frames[-1].va or ()
    return va[a[0]] if isinstance(a[0], int) and a[0] < len(va) else 0


@model("llvm.va_copy", "llvm.va_copy.p0")
def _(it, st, a, ins):
    st.user[("va", a[0])] = st.user.get(("va", a[1]), ())
    return None


@model("vsnprintf")
def _(it, st, a, ins):
    va = st.user.get(("va", a[3]), ())
    if va == "used":
        it.report(st, "va-list", "argument list used again after it was consumed")
        raise Abort("infeasible")
    st.user[("va", a[3])] = "used"
    return MODELS["snprintf"](it, st, [a[0], a[1], a[2]] + list(va), ins)


@model("llvm.stacksave.p0", "llvm.stackrestore.p0", "llvm.stacksave", "llvm.stackrestore", "llvm.dbg.declare", "llvm.assume")
def _(it, st, a, ins):
    return 0 if ins[1] >= 0 else None


def _bswap(w):
    def h(it, st, a, ins):
        v = a[0]
        if isinstance(v, int):
            return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
        f = st.bits(v, w)
        out = []
        for i in range(w // 8 - 1, -1, -1):
            out += f[8 * i:8 * i + 8]
        return mkbits(out)
    return h


for _w in (16, 32, 64):
    MODELS["llvm.bswap.i%d" % _w] = _bswap(_w)
MODELS["htonl"] = MODELS["ntohl"] = _bswap(32)
MODELS["htons"] = MODELS["ntohs"] = _bswap(16)


def _sat(name):
    def h(it, st, a, ins):
        x, y = a
        w = it.width_of(ins[3])
        s = "s" in name
        lt = cmp(("s" if s else "u") + "lt", w, x, y)
        r = st.branch(lt)
        if name.endswith("max"):
            return y if r else x
        return x if r else y
    return h


for _k in ("umin", "umax", "smin", "smax"):
    for _w in (8, 16, 32, 64):
        MODELS["llvm.%s.i%d" % (_k, _w)] = _sat(_k)


@model("llvm.fshl.i32", "llvm.fshl.i64", "llvm.fshr.i32", "llvm.fshr.i64")
def _(it, st, a, ins):
    w = ins[3]
    n = a[2]
    if not isinstance(n, int):
        return sym("fsh", 0, (1 << w) - 1)
    n %= w
    hi, lo = st.bits(a[0], w), st.bits(a[1], w)
    allb = lo + hi
    if "fshl" in it.curname:
        return mkbits(allb[w - n:2 * w - n]) if n else a[0]
    return mkbits(allb[n:n + w])


@model("getenv")
def _(it, st, a, ins):
    k = lit(it, st, a[0])
    if st.branch(cmp("eq", 8, nsym("getenv-null:" + k, 0, 1), 1)):
        return 0
    return MODELS["abs_str"](it, st, [a[0]], ins)


@model("__errno_location")
def _(it, st, a, ins):
    o = st.user.get("errno")
    if o is None:
        o = st.new("errno", "global", 4, "zero").id
        st.user["errno"] = o
    return ptr(o, 0)


# ---- libmy vectors ----------------------------------------------------------------------------------------
# struct { type *_v; type *_p; size_t _n, _n_alloced, _hint; }
def vget(it, st, p, vn):
    if p == 0:
        it.report(st, "null-deref", "%s operation on a null vector" % vn)
        raise Abort("infeasible")
    it.deref(st, p, 1, "vector")
    o = st.objs[p.a[0]]
    if not o.meta or "vec" not in o.meta or p.a[1] != 0:
        it.report(st, "wild-deref", "%s operation on something that is not a vector" % vn)
        raise Abort("infeasible")
    return o


def vset(st, o, **kw):
    o = st.w(o.id)
    m = dict(o.meta)
    v = dict(m["vec"])
    v.update(kw)
    m["vec"] = v
    o.meta = m
    return o


def vop(name):
    def d(fn):
        VECOPS[name] = fn
        return fn
    return d


def vdata(st, v):
    return st.objs[v["data"].a[0]]


@vop("init")
def _(it, st, a, ins, vn, es):
    hint = a[0] if a else 64
    if a and isinstance(hint, E):
        hint = it.zext(st, hint, 32, 64)
    if hint == 0:
        hint = 1
    o = st.new(vn, "heap", 40, "undef", st.loc())
    d = st.new(vn + "-data", "heap", lmul(hint, es), "undef", st.loc())
    o.meta = {"vec": {"n": 0, "cap": hint, "data": ptr(d.id, 0), "hint": hint, "es": es}}
    return ptr(o.id, 0)


@vop("new")
def _(it, st, a, ins, vn, es):
    return VECOPS["init"](it, st, [], ins, vn, es)


@vop("reinit")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[1], vn)
    d = st.new(vn + "-data", "heap", lmul(a[0], es), "undef", st.loc())
    vset(st, o, n=0, cap=a[0], hint=a[0], data=ptr(d.id, 0))


@vop("detach")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = o.meta["vec"]
    it.store(st, a[1], v["data"], "p")
    it.store(st, a[2], v["n"], 64)
    d = st.new(vn + "-data", "heap", lmul(v["hint"], es), "undef", st.loc())
    vset(st, o, n=0, cap=v["hint"], data=ptr(d.id, 0))


@vop("destroy")
def _(it, st, a, ins, vn, es):
    p = it.load(st, a[0], "p")
    if p == 0:
        return None
    o = vget(it, st, p, vn)
    d = vdata(st, o.meta["vec"])
    if not d.alive:
        it.report(st, "double-free", "vector buffer released twice")
        raise Abort("infeasible")
    st.w(d.id).alive = 0
    st.w(o.id).alive = 0
    it.store(st, a[0], 0, "p")


def vreserve(it, st, o, k, es, vn):
    """make room for k more elements"""
    v = o.meta["vec"]
    need = ladd(v["n"], k)
    if st.prove(ladd(v["cap"], need, -1)):
        return v
    d = vdata(st, v)
    if st.prove(ladd(need, v["cap"], -1)):
        cap = need
    else:
        cap = sym("cap", 0, SZMAX)
        st.addfact(ladd(cap, need, -1))
        st.addfact(ladd(cap, v["cap"], -1))
    nd = st.new(vn + "-data", "heap", lmul(cap, es), d.default, d.loc)
    nd.cells = dict(d.cells)
    nd.log = d.log
    nd.meta = d.meta
    st.w(d.id).alive = 0
    vset(st, o, cap=cap, data=ptr(nd.id, 0))
    return st.objs[o.id].meta["vec"]


@vop("reserve")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    vreserve(it, st, o, a[1], es, vn)


@vop("add")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = vreserve(it, st, o, 1, es, vn)
    it.storeraw(st, v["data"].a[0], lmul(v["n"], es), es, a[1])
    vset(st, o, n=ladd(v["n"], 1))


@vop("append")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    n = a[2]
    if n is UNDEF:
        it.report(st, "uninit", "append of uninitialised length")
        raise Abort("infeasible")
    n = st.canon(n) if isinstance(n, E) else n
    if n == 0:
        return
    if isinstance(n, E) and st.interval(n)[0] <= 0 and not st.prove(ladd(n, -1)):
        if not st.branch(notc(cmp("eq", 64, n, 0))):
            return
    it.deref(st, a[1], lmul(n, es), "append source")
    v = vreserve(it, st, o, n, es, vn)
    dst = ptr(v["data"].a[0], lmul(v["n"], es))
    if isinstance(n, int) and n > (1 << 40):
        it.report(st, "out-of-bounds", "append of a negative length")
        raise Abort("infeasible")
    it.memcpy(st, dst, a[1], lmul(n, es), "append")
    vset(st, o, n=ladd(v["n"], n))


@vop("extend")
def _(it, st, a, ins, vn, es):
    o1 = vget(it, st, a[1], vn)
    v1 = o1.meta["vec"]
    return VECOPS["append"](it, st, [a[0], v1["data"], v1["n"]], ins, vn, es)


@vop("reset")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = o.meta["vec"]
    vset(st, o, n=0)
    if not st.prove(ladd(v["hint"], v["cap"], -1)):
        d = vdata(st, v)
        nd = st.new(vn + "-data", "heap", lmul(v["hint"], es), "undef", d.loc)
        st.w(d.id).alive = 0
        vset(st, o, cap=v["hint"], data=ptr(nd.id, 0))


@vop("clip")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = o.meta["vec"]
    n = a[1]
    if st.branch(cmp("ult", 64, n, v["n"])):
        vset(st, o, n=n)


@vop("bytes")
def _(it, st, a, ins, vn, es):
    return lmul(vget(it, st, a[0], vn).meta["vec"]["n"], es)


@vop("size")
def _(it, st, a, ins, vn, es):
    return vget(it, st, a[0], vn).meta["vec"]["n"]


@vop("value")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = o.meta["vec"]
    if not st.branch(cmp("ult", 64, a[1], v["n"])):
        raise Abort("abort", "vector index out of range (%s_value)" % vn)
    return it.load(st, ptr(v["data"].a[0], lmul(a[1], es)), 8 * es if es != 8 or ins[3] != "p" else "p")


@vop("ptr")
def _(it, st, a, ins, vn, es):
    v = vget(it, st, a[0], vn).meta["vec"]
    return ptr(v["data"].a[0], lmul(v["n"], es))


@vop("data")
def _(it, st, a, ins, vn, es):
    return vget(it, st, a[0], vn).meta["vec"]["data"]


@vop("advance")
def _(it, st, a, ins, vn, es):
    o = vget(it, st, a[0], vn)
    v = o.meta["vec"]
    if not st.branch(notc(cmp("ult", 64, ladd(v["cap"], v["n"], -1), a[1]))):
        raise Abort("abort", "%s_advance past the reserved space" % vn)
    vset(st, o, n=ladd(v["n"], a[1]))


# ---- more driver intrinsics ---------------------------------------------------------------------------
@model("abs_pick")
def _(it, st, a, ins):
    n = a[1]
    k = "pick:" + lit(it, st, a[0])
    i = st.user.get(k, 0)
    v = nsym("%s.%d" % (lit(it, st, a[0]), i), 0, n - 1)
    lo, hi = st.interval(v)
    if lo != hi:
        raise NeedFork([[(cmp("eq", 32, v, x), True)] for x in range(lo, hi + 1)])
    st.user[k] = i + 1
    return lo


@model("abs_split")
def _(it, st, a, ins):
    v = a[0]
    v = st.canon(v) if isinstance(v, E) else v
    if isinstance(v, int):
        return v
    lo, hi = st.interval(v)
    lo, hi = max(lo, a[1]), min(hi, a[2])
    raise NeedFork([[(cmp("eq", 64, v, x), True)] for x in range(lo, hi + 1)])


@model("abs_samev")
def _(it, st, a, ins):
    return int(bool(st.decide(cmp("eq", 64, a[0], a[1]))))


@model("abs_end", "abs_endp")
def _(it, st, a, ins):
    h = it.hooks[lit(it, st, a[0])]
    return h(it, st, a[1:])


Interp.hooks = {}


def hook(name):
    def d(fn):
        Interp.hooks[name] = fn
        return fn
    return d


# ---- queues: order of payload access and publication, and what the mutex covers
@hook("queue_begin")
def _(it, st, a):
    it.watch = True
    st.user["watch"] = 1
    st.event("qbegin")


@hook("queue_end")
def _(it, st, a):
    """a: queue object, operation (0 insert, 1 remove)"""
    del st.user["watch"]
    q, op = a[0].a[0], a[1]
    ev = st.evlist()
    i = max(k for k, e in enumerate(ev) if e[0] == "qbegin")
    held, pend, pub = 0, None, None
    wr = set(st.user.get("qwr%d" % op, ()))
    acc = list(st.user.get("qacc", ()))
    for e in ev[i + 1:]:
        if e[0] == "mutex":
            held = e[1] == "lock"
        elif e[0] == "asm" and "~{memory}" in e[2]:
            pend = None
        elif e[0] == "acc" and e[2] == "heap" and e[3] != "mutex":
            if e[1] == q:
                acc.append((e[4], held))
                if e[3] == "write":
                    wr.add(e[4])
                    it.stats["checks"] += 1
                    if pend is not None and not held:
                        it.report(st, "order", "an index is published with no barrier after the element was copied")
                    else:
                        it.stats["checks_proved"] += 1
                    pub = e
            else:
                acc.append((None, held))
                it.stats["checks"] += 1
                if pub is not None and not held:
                    it.report(st, "order", "an element is copied after the index was published")
                else:
                    it.stats["checks_proved"] += 1
                pend = e
    if held:
        it.report(st, "lock", "the queue lock is still held when the operation returns")
    st.user["qwr%d" % op] = tuple(sorted(wr))
    st.user["qacc"] = tuple(acc)


@hook("queue_check")
def _(it, st, a):
    """a: queue object, 1 if the implementation must lock"""
    w0, w1 = st.user.get("qwr0", ()), st.user.get("qwr1", ())
    it.stats["checks"] += 1
    if a[1]:
        mut = set(w0) | set(w1) | {None}
        if any(off in mut and not h for off, h in st.user.get("qacc", ())):
            it.report(st, "lock", "shared queue state is accessed without holding the queue lock")
        else:
            it.stats["checks_proved"] += 1
    elif set(w0) & set(w1):
        it.report(st, "order", "the inserting and the removing side both write one index without a lock")
    else:
        it.stats["checks_proved"] += 1


@model("abs_debug")
def _(it, st, a, ins):
    print("DEBUG", show(a[0]), st.interval(a[0]))
    for f in st.facts:
        print("   fact", show(f), [(show(t), q, st.interval(t)) for t, q in f.a[1]])
    return None
