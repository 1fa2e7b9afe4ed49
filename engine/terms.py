"""Value domain of the abstract interpreter.

Integers are Python ints (constants, always reduced modulo 2^w by their user) or interned
value numbers (class E).  An integer value number is a linear form over atoms; an atom is
an unknown with a mathematical range, an uninterpreted application, or a bit vector whose
bits are affine forms over input bits.  No solver is involved: equality is identity of
normal forms, ordering is decided by intervals and by single linear facts.
"""

_tab = {}
_ctr = [0]


class E(object):
    __slots__ = ("k", "a", "lo", "hi", "id", "_bits", "__weakref__")

    def __repr__(self):
        return show(self)


def mk(k, a, lo=None, hi=None):
    key = (k, a)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.k = k
        e.a = a
        e.lo = lo
        e.hi = hi
        e._bits = None
        _ctr[0] += 1
        e.id = _ctr[0]
        _tab[key] = e
    return e


_symn = [0]


def sym(name, lo, hi):
    """fresh unknown"""
    _symn[0] += 1
    return mk("sym", (name, _symn[0]), lo, hi)


def nsym(name, lo, hi):
    """unknown identified by its name (value-numbered)"""
    return mk("sym", (name, lo, hi), lo, hi)


def app(fn, args, lo, hi):
    return mk("app", (fn,) + tuple(args), lo, hi)


def show(e, d=0):
    if isinstance(e, int):
        return str(e) if abs(e) < 1 << 20 else hex(e)
    if e is None:
        return "?"
    if not isinstance(e, E):
        return repr(e)
    if d > 6:
        return "..."
    if e.k == "sym":
        return "%s#%d" % e.a if len(e.a) == 2 else e.a[0]
    if e.k == "app":
        return "%s(%s)" % (e.a[0], ",".join(show(x, d + 1) if isinstance(x, (E, int)) else str(x) for x in e.a[1:]))
    if e.k == "lin":
        c, ts = e.a
        s = "+".join((show(t, d + 1) if k == 1 else "%d*%s" % (k, show(t, d + 1))) for t, k in ts)
        return "(%s%s)" % (s, "+%d" % c if c > 0 else ("%d" % c if c < 0 else ""))
    if e.k == "ptr":
        return "&%s+%s" % (e.a[0], show(e.a[1], d + 1))
    if e.k == "fn":
        return "fn:" + e.a[0]
    if e.k == "cmp":
        return "%s(%s,%s)" % (e.a[0], show(e.a[1], d + 1), show(e.a[2], d + 1))
    if e.k == "bits":
        return "bits[%d]#%d" % (len(e.a), e.id)
    if e.k in ("not", "b2i"):
        return "%s(%s)" % (e.k, show(e.a[0], d + 1))
    return "%s(%s)" % (e.k, ",".join(show(x, d + 1) for x in e.a))


# ---- linear forms -------------------------------------------------------------------
# linear view: (const, {atom: coef})

def lin(e):
    if isinstance(e, int):
        return e, ()
    if e.k == "lin":
        return e.a
    return 0, ((e, 1),)


def mklin(c, terms):
    """terms: iterable of (atom, coef), combined; c int -> int or E (unwrapped, mathematical)"""
    ts = tuple(sorted(((t, k) for t, k in terms if k), key=lambda p: p[0].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk("lin", (c, ts))


def ladd(a, b, kb=1):
    if isinstance(b, int):
        if isinstance(a, int):
            return a + kb * b
        if b == 0:
            return a
        c, t = lin(a)
        return mklin(c + kb * b, t)
    ca, ta = lin(a)
    cb, tb = lin(b)
    d = dict(ta)
    for t, k in tb:
        d[t] = d.get(t, 0) + kb * k
    return mklin(ca + kb * cb, d.items())


def lmul(a, k):
    if isinstance(a, int):
        return a * k
    c, t = lin(a)
    return mklin(c * k, [(x, q * k) for x, q in t])


def wrapc(e, w):
    """normalise coefficients of a linear form modulo 2^w (signed residues)"""
    m = 1 << w
    if isinstance(e, int):
        return e & (m - 1)
    if e.k != "lin":
        return e
    c, t = e.a
    h = m >> 1

    def s(x):
        x &= m - 1
        return x - m if x >= h else x
    nc = s(c)
    nt = [(x, s(q)) for x, q in t]
    if nc == c and all(q == r for (_, q), (_, r) in zip(nt, t)):
        return e
    r = mklin(nc, nt)
    if isinstance(r, int):
        return r & (m - 1)
    return r


# ---- bits -----------------------------------------------------------------------------
# A bit form is (frozenset of (atom, i), parity).  ZERO/ONE are constants.
ZERO = (frozenset(), 0)
ONE = (frozenset(), 1)
_bv = {}


def bvar(atom, i):
    k = (atom, i)
    r = _bv.get(k)
    if r is None:
        r = _bv[k] = (frozenset((k,)), 0)
    return r


def bxor(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    s = a[0] ^ b[0]
    p = a[1] ^ b[1]
    if not s:
        return ONE if p else ZERO
    return (s, p)


def mkbits(forms):
    """forms: list (lsb first) -> int or E"""
    n = len(forms)
    while n and forms[n - 1] is ZERO:
        n -= 1
    forms = tuple(forms[:n])
    if all(f is ZERO or f is ONE for f in forms):
        v = 0
        for i, f in enumerate(forms):
            if f is ONE:
                v |= 1 << i
        return v
    # whole atom (times a power of two)?
    z = 0
    while forms[z] is ZERO:
        z += 1
    if z and len(forms[z][0]) == 1 and forms[z][1] == 0:
        (at, i0), = forms[z][0]
        if i0 == 0 and nbits(at) == n - z and all(f == bvar(at, i) for i, f in enumerate(forms[z:])):
            return lmul(at, 1 << z)
    f0 = forms[0]
    if len(f0[0]) == 1 and f0[1] == 0:
        (at, i0), = f0[0]
        if i0 == 0:
            top = nbits(at)
            if top == n and all(f == bvar(at, i) for i, f in enumerate(forms)):
                return at
    lo = sum(1 << i for i, f in enumerate(forms) if f is ONE)
    hi = sum(1 << i for i, f in enumerate(forms) if f is not ZERO)
    return mk("bits", forms, lo, hi)


def nbits(at):
    if at.k == "lin":
        return None
    if at.lo is not None and at.lo >= 0 and at.hi is not None:
        return at.hi.bit_length()
    return None


# pointers -------------------------------------------------------------------------------

def ptr(obj, off):
    return mk("ptr", (obj, off))


def fnptr(name):
    return mk("fn", (name,))


NULL = 0


def isptr(v):
    return isinstance(v, E) and v.k == "ptr"


UNDEF = mk("undef", ())
