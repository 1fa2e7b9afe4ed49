"""Contracts of libwdns and of libmtbl's varint codec."""
from models import *
from models import desc_range, lit, hook
from interp import model, padd


def vol(it, st, name, size, ins):
    n = st.user.get("vol", 0)
    st.user["vol"] = n + 1
    o = st.new("%s.%d" % (name, n), "vol", size, "lazy", ins[2] if ins else None)
    return ptr(o.id, 0)


@model("abs_vol")
def _(it, st, a, ins):
    return vol(it, st, lit(it, st, a[0]), a[1], ins)


@model("abs_vol_free")
def _(it, st, a, ins):
    o = st.w(a[0].a[0])
    o.alive = 0


def dkey(it, st, p, n):
    """value number of n bytes at p"""
    d = desc_range(it, st, p, n)
    if d is not None:
        return d
    if isinstance(n, int) and n <= 300:
        return ("bytes",) + tuple(it.load(st, padd(p, i), 8) for i in range(n))
    o = st.objs[p.a[0]]
    return ("obj", o.id, id(o.log), tuple(sorted((k, v[1].id if isinstance(v[1], E) else v[1]) for k, v in o.cells.items() if not isinstance(v[1], tuple))), p.a[1], n)


def put_content(st, p, n, key, lo=0, hi=255):
    o = st.w(p.a[0])
    o.log = ((p.a[1], n, ("content", key, lo, hi)), o.log)


# ---- wdns ----------------------------------------------------------------------------------------
@model("wdns_len_uname")
def _(it, st, a, ins):
    p, eop, psz = a
    if not (isptr(p) and isptr(eop) and p.a[0] == eop.a[0]):
        it.report(st, "wild-deref", "wdns_len_uname: range does not lie in one buffer")
        raise Abort("infeasible")
    n = ladd(eop.a[1], p.a[1], -1)
    if isinstance(n, int) and n <= 0 or not st.branch(cmp("slt", 64, 0, n)):
        return 10        # wdns_res_out_of_bounds
    it.deref(st, p, n, "wdns_len_uname")
    d = desc_range(it, st, p, n)
    k = ("uname", p.a[0] if d is None or d[0] != "src" else d[1], p.a[1], n)
    ok = app("uname-ok", k, 0, 1)
    if not st.branch(cmp("eq", 8, ok, 1)):
        return 8
    ln = app("uname-len", k, 1, 255)
    if not st.addfact(ladd(n, ln, -1)):
        raise Abort("infeasible")
    it.store(st, psz, ln, 64)
    return 0


@model("wdns_reverse_name")
def _(it, st, a, ins):
    p, n, q = a
    if not st.prove(ladd(n, -1)):
        if not st.branch(cmp("ult", 64, 0, n)):
            it.report(st, "out-of-bounds", "wdns_reverse_name of an empty name")
            raise Abort("infeasible")
    it.deref(st, p, n, "wdns_reverse_name source")
    it.deref(st, q, n, "wdns_reverse_name destination")
    k = dkey(it, st, p, n)
    ok = app("reverse-ok", (k, n), 0, 1)
    if not st.branch(cmp("eq", 8, ok, 1)):
        put_content(st, q, n, ("revfail", k))
        return 9
    st.event("reverse_name", p, n)
    put_content(st, q, n, ("rev", k))
    return 0


@model("wdns_domain_to_str")
def _(it, st, a, ins):
    p, n, q = a
    if isinstance(n, int) and n == 0 or not st.branch(cmp("ult", 64, 0, n)):
        it.report(st, "out-of-bounds", "wdns_domain_to_str of an empty name")
        raise Abort("infeasible")
    it.deref(st, p, n, "wdns_domain_to_str source")
    o = st.objs[q.a[0]]
    # every wire byte expands to at most four characters plus one terminator
    it.deref(st, q, ladd(lmul(n, 4), 1), "wdns_domain_to_str destination (name of up to %s bytes)" % (st.interval(n)[1],))
    k = dkey(it, st, p, n)
    ln = app("domain-strlen", (k, n), 1, 1020)
    w = st.w(q.a[0])
    w.log = ((q.a[1], ladd(ln, 1), ("content", ("domain", k), 0, 255)), w.log)
    w.meta = dict(w.meta or {})
    w.meta["strlen"] = (ln, q.a[1])
    w.meta["str"] = ("domain", k, n)
    return ladd(ln, 1)


@model("wdns_rdata_to_str")
def _(it, st, a, ins):
    p, n, t, c = a
    it.deref(st, p, n, "wdns_rdata_to_str")
    k = dkey(it, st, p, n)
    ln = app("rdata-strlen", (k, n, t, c), 0, 1 << 20)
    o = st.new("rdata-str", "heap", ladd(ln, 1), ("str", ("rdatastr", k, n, t, c), ln), st.loc())
    o.meta = {"str": ("rdata", k, n, t, c)}
    return ptr(o.id, 0)


@model("wdns_rrtype_to_str")
def _(it, st, a, ins):
    t = a[0]
    k = app("rrtype-known", (t,), 0, 1)
    if not st.branch(cmp("eq", 8, k, 1)):
        return 0
    key = ("rrtype", t)
    oid = st.user.get(key)
    if oid is None:
        ln = app("rrtype-strlen", (t,), 1, 10)
        o = st.new("rrtype-str", "const", ladd(ln, 1), ("str", key, ln), st.loc())
        o.meta = {"str": key}
        st.user[key] = oid = o.id
    return ptr(oid, 0)


@model("wdns_str_to_rrtype")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, "wdns_str_to_rrtype")
    from models import contentid
    return app("str-rrtype", (contentid(it, st, a[0]),), 0, 65535)


@model("wdns_str_to_name", "wdns_str_to_name_case")
def _(it, st, a, ins):
    it.deref(st, a[0], 1, it.curname)
    from models import contentid
    k = contentid(it, st, a[0])
    cs = it.curname.endswith("_case")
    off_len, off_data = 0, 8
    ok = app("str-name-ok", (k,), 0, 1)
    if not st.branch(cmp("eq", 8, ok, 1)):
        it.store(st, padd(a[1], off_data), 0, "p")
        it.store(st, a[1], sym("badlen", 0, 65535), 16)
        return 12
    ln = app("str-name-len", (k,), 1, 255)
    o = st.new("wdns-name", "heap", ln, ("content", ("wirename", k, cs)), st.loc())
    o.default = "lazy"
    o.name = "wirename%s(%s)" % ("" if cs else "-lc", k)
    it.store(st, a[1], ln, 16)
    it.store(st, padd(a[1], off_data), ptr(o.id, 0), "p")
    return 0


@model("wdns_downcase_name")
def _(it, st, a, ins):
    ln = it.load(st, a[0], 16)
    p = it.load(st, padd(a[0], 8), "p")
    it.deref(st, p, ln, "wdns_downcase_name")
    k = dkey(it, st, p, ln)
    put_content(st, p, ln, ("downcase", k))
    return None


@model("wdns_res_to_str")
def _(it, st, a, ins):
    return MODELS["abs_str"](it, st, [0], ins)


@model("wdns_skip_name")
def _(it, st, a, ins):
    p = it.load(st, a[0], "p")
    eod = a[1]
    n = ladd(eod.a[1], p.a[1], -1)
    it.deref(st, p, n, "wdns_skip_name")
    r = sym("skip", 0, 1 << 40)
    st.addfact(ladd(n, r, -1))
    it.store(st, a[0], padd(p, r), "p")
    return r


# ---- libmtbl varints ---------------------------------------------------------------------------------
VMAX = (1 << 32) - 1


def vlen(v):
    n = 1
    while v >= 128:
        v >>= 7
        n += 1
    return n


def vlen_term(st, v, w):
    if isinstance(v, int):
        return vlen(v)
    lo, hi = st.interval(v)
    if lo < 0 or hi >> w:
        lo, hi = 0, (1 << w) - 1
    if vlen(lo) == vlen(hi):
        return vlen(lo)
    return st.rapp("varint-len", (v,), vlen(lo), vlen(hi), 1, 10)


def vkey(it, st, p):
    """the varint starting at p: (encoded value) or an opaque content name"""
    b = it.load(st, p, 8)
    if isinstance(b, int):
        if b < 128:
            return ("const", b)
        v = b & 127
        sh = 7
        for i in range(1, 10):
            o = st.objs[p.a[0]]
            if isinstance(o.size, int) and isinstance(p.a[1], int) and p.a[1] + i >= o.size:
                return ("bad", None)
            b = it.load(st, padd(p, i), 8)
            if not isinstance(b, int):
                return ("opaque", ("mixed", p))
            v |= (b & 127) << sh
            sh += 7
            if b < 128:
                return ("const", v)
        return ("bad", None)
    if b is UNDEF:
        it.report(st, "uninit", "varint decoded from uninitialised memory")
        raise Abort("infeasible")
    if isinstance(b, E) and b.k == "app" and b.a[0] == "byte":
        k, off = b.a[1], b.a[2]
        if isinstance(k, tuple) and k and k[0] == "varint" and off == 0:
            return ("enc", k[1], k[2])
        return ("opaque", (k, off))
    o = st.objs[p.a[0]]
    return ("opaque", ("v", b, o.id, id(o.log), p.a[1]))


def vdecode(it, st, p, pv, w):
    it.deref(st, p, 1, "varint decode")
    k = vkey(it, st, p)
    mx = 5 if w == 32 else 10
    if k[0] == "const":
        n, v = vlen(k[1]), k[1] & ((1 << w) - 1)
        if n > mx:
            n, v = 0, sym("badvarint", 0, (1 << w) - 1)
    elif k[0] == "bad":
        it.deref(st, p, mx, "varint decode")
        n, v = 0, sym("badvarint", 0, (1 << w) - 1)
    elif k[0] == "enc" and (k[2] == w or st.inrange(k[1], 0, (1 << w) - 1)):
        v = k[1]
        n = vlen_term(st, v, 64)
        it.deref(st, p, n, "varint decode")
    else:
        key = k[1:] if k[0] == "enc" else k[1]
        n = app("vplen", (key,), 1, VMAX)
        if st.branch(notc(cmp("ult", 64, mx, n))):
            it.deref(st, p, n, "varint decode")
            v = app("vval%d" % w, (key,), 0, (1 << w) - 1)
            if isinstance(n, E) and st.r1(n)[1] <= 1:
                st.setrng(v, 0, 127)
        else:
            it.deref(st, p, mx, "varint decode")
            n, v = 0, sym("badvarint", 0, (1 << w) - 1)
    it.store(st, pv, v, w)
    return n


@model("mtbl_varint_decode32")
def _(it, st, a, ins):
    return vdecode(it, st, a[0], a[1], 32)


@model("mtbl_varint_decode64")
def _(it, st, a, ins):
    return vdecode(it, st, a[0], a[1], 64)


@model("mtbl_varint_length_packed")
def _(it, st, a, ins):
    p, n = a
    n = st.canon(n) if isinstance(n, E) else n
    if n == 0 or isinstance(n, E) and not st.branch(notc(cmp("eq", 64, n, 0))):
        return 0
    it.deref(st, p, n, "mtbl_varint_length_packed")
    k = vkey(it, st, p)
    if k[0] == "const":
        ln = vlen(k[1])
    elif k[0] == "bad":
        return 0
    elif k[0] == "enc":
        ln = vlen_term(st, k[1], 64)
    else:
        ln = app("vplen", (k[1],), 1, VMAX)
    if st.branch(notc(cmp("ult", 64, n, ln))):
        return ln
    return 0


def vencode(w):
    def h(it, st, a, ins):
        p, v = a
        v = st.canon(v) if isinstance(v, E) else v
        if v is UNDEF:
            it.report(st, "uninit", "varint encoding of an uninitialised value")
            raise Abort("infeasible")
        if isinstance(v, int):
            n = vlen(v)
            it.deref(st, p, n, "varint encode")
            x = v
            for i in range(n):
                it.storeraw(st, p.a[0], ladd(p.a[1], i), 1, (x & 127) | (128 if i < n - 1 else 0))
                x >>= 7
            return n
        n = vlen_term(st, v, w)
        # the buffer must hold the longest encoding the value can have
        it.deref(st, p, n, "varint encode")
        put_content(st, p, n, ("varint", v, w))
        return n
    return h


MODELS["mtbl_varint_encode32"] = vencode(32)
MODELS["mtbl_varint_encode64"] = vencode(64)


@model("mtbl_varint_length")
def _(it, st, a, ins):
    return vlen_term(st, a[0], 64)
