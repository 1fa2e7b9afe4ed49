"""Path-sensitive abstract interpreter over LLVM IR (-O0 + mem2reg) dumped by irdump.

State = call stack + abstract memory (objects with offsets as linear forms) + ranges and
linear facts on value numbers.  Branches whose condition the domain cannot decide are
explored both ways; loops are widened (symbolic induction values, template invariants)
until the state at the loop head is subsumed, so the exploration terminates without bounding
input sizes.  Nothing is executed and no solver is called.
"""
import json
import sys
import time

from terms import *
import terms

sys.setrecursionlimit(100000)

PTRMAX = (1 << 47)


class NeedFork(Exception):
    def __init__(self, conds):
        self.conds = conds      # list of (cmpE, truth) lists: each successor's assumptions


class Abort(Exception):
    """path ends here (assertion failure, abort, exit, infeasible)"""
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Budget(Exception):
    pass


class Module(object):
    def __init__(self, js):
        self.funcs = js["functions"]
        self.globals = js["globals"]
        self.structs = js["structs"]
        self.enums = js["enums"]
        self.files = js["files"]
        self.vecs = {}
        for s in self.structs:
            if s.endswith("__vector"):
                self.vecs[s[:-8]] = None
        self.byname = {}
        for q, f in self.funcs.items():
            self.byname.setdefault(f["name"], []).append(q)
        for v in list(self.vecs):
            for q in self.byname.get(v + "_add", []):
                t = self.funcs[q]["args"][1][0]
                self.vecs[v] = 8 if t == "p" or t == "f64" else (t // 8 if isinstance(t, int) else (4 if t == "f32" else None))
        self._loops = {}

    def locstr(self, loc):
        if not loc:
            return "?"
        return "%s:%d" % (self.short(self.files[loc[0]]), loc[1])

    def short(self, f):
        for p in ("/repo/", "/verif/"):
            if f.startswith(p):
                return f[len(p):]
        return f

    def loops(self, q):
        """header -> set of body blocks (natural loops from DFS back edges)"""
        r = self._loops.get(q)
        if r is not None:
            return r
        blocks = self.funcs[q]["blocks"]
        succ = []
        for b in blocks:
            t = b[-1]
            if t[0] == "br":
                succ.append(t[4:] if t[3] is not None else [t[4]])
            elif t[0] == "switch":
                succ.append([t[5]] + [c[1] for c in t[6]])
            else:
                succ.append([])
        pred = [[] for _ in blocks]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        col = [0] * len(blocks)
        back = []
        stack = [(0, iter(succ[0]))] if blocks else []
        if blocks:
            col[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if col[s] == 1:
                    back.append((n, s))
                elif col[s] == 0:
                    col[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
            else:
                col[n] = 2
                stack.pop()
        r = {}
        for n, h in back:
            body = r.setdefault(h, {h})
            work = [n]
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(pred[x])
        self._loops[q] = r
        return r


class Obj(object):
    __slots__ = ("id", "name", "kind", "size", "alive", "cells", "log", "default", "meta", "tok", "loc")

    def clone(self, tok):
        o = Obj()
        o.id = self.id
        o.name = self.name
        o.kind = self.kind
        o.size = self.size
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.log = self.log
        o.default = self.default
        o.meta = dict(self.meta) if self.meta else None
        o.tok = tok
        o.loc = self.loc
        return o


class Frame(object):
    __slots__ = ("q", "fn", "bb", "ip", "regs", "dest", "allocas", "prev", "loop", "id", "va", "callloc")

    def clone(self):
        f = Frame()
        f.q = self.q
        f.fn = self.fn
        f.bb = self.bb
        f.ip = self.ip
        f.regs = dict(self.regs)
        f.dest = self.dest
        f.allocas = list(self.allocas)
        f.prev = self.prev
        f.loop = dict(self.loop)
        f.id = self.id
        f.va = self.va
        f.callloc = self.callloc
        return f


def unbits(t, st):
    """a concatenation of whole atoms as their weighted sum, other bit forms as they are"""
    f = st.simpbits(list(t.a))
    r, i, n = 0, 0, len(f)
    while i < n:
        if f[i] is ZERO or f[i] is ONE:
            r = ladd(r, (f[i] is ONE) << i)
            i += 1
            continue
        if len(f[i][0]) != 1 or f[i][1]:
            return t
        (at, j), = f[i][0]
        k = nbits(at)
        if j or i + k > n or any(f[i + x] != bvar(at, x) for x in range(k)):
            return t
        r = ladd(r, lmul(at, 1 << i))
        i += k
    return r


def ripple(x, y, w):
    """sum of two vectors of bit forms; None when a carry is not an affine form"""
    out = []
    c = ZERO
    for i in range(w):
        a, b = x[i], y[i]
        out.append(bxor(bxor(a, b), c))
        if a == b:
            c = a
        elif a == c:
            pass
        elif b == c:
            pass
        else:
            k = [z for z in (a, b, c) if z is ZERO or z is ONE]
            if len(k) >= 2:         # one zero, one one: the carry is the third
                c = [z for z in (a, b, c) if z is not ZERO and z is not ONE][0] if len(k) == 2 else c
            elif i == w - 1:
                pass
            else:
                return None
    return out


# ---- one-byte unknowns: finite value sets ---------------------------------------------------
_base = {}
_NB = ("none",)


def base(e):
    """the only one-byte atom e depends on, or None; ints have base _NB"""
    if isinstance(e, int):
        return _NB
    r = _base.get(e, 0)
    if r != 0:
        return r
    r = _base1(e)
    _base[e] = r
    return r


def _base1(e):
    k = e.k
    if k == "sym" or k == "app" and e.a[0] != "tbl":
        return e if e.lo is not None and e.lo >= 0 and e.hi <= 255 else None
    if k == "app":
        return base(e.a[2])
    if k == "lin":
        sub = [t for t, _ in e.a[1]]
    elif k == "bits":
        sub = set()
        for f in e.a:
            for at, _ in f[0]:
                sub.add(at)
    elif k in ("cmp",):
        sub = [x for x in e.a[2:] if isinstance(x, E)]
    elif k in ("b2i", "not", "andb", "orb", "xorb"):
        sub = [x for x in e.a if isinstance(x, E)]
    else:
        return None
    r = None
    for x in sub:
        b = base(x)
        if b is None or r is not None and b is not r:
            return None
        r = b
    return r


def evalv(e, v):
    """value of e when its base atom is v"""
    if isinstance(e, int):
        return e
    k = e.k
    if k == "lin":
        c, ts = e.a
        return c + sum(q * evalv(t, v) for t, q in ts)
    if k == "app" and e.a[0] == "tbl":
        i = evalv(e.a[2], v)
        if not 0 <= i < len(e.a[1]):
            raise IndexError
        return e.a[1][i]
    if k == "bits":
        r = 0
        for i, (s, p) in enumerate(e.a):
            for at, j in s:
                p ^= (evalv(at, v) >> j) & 1
            r |= p << i
        return r
    if k == "b2i":
        return int(evalc(e.a[0], v))
    return v


def evalc(c, v):
    k = c.k
    if k == "cmp":
        pred, w, a, b = c.a
        m = (1 << w) - 1
        x, y = evalv(a, v) & m, evalv(b, v) & m
        if pred == "eq":
            return x == y
        if pred == "slt":
            h = 1 << (w - 1)
            x, y = x ^ h, y ^ h
        return x < y
    if k == "not":
        return not evalc(c.a[0], v)
    if k == "andb":
        return all(bool(x & 1) if isinstance(x, int) else evalc(x, v) for x in c.a)
    if k == "orb":
        return any(bool(x & 1) if isinstance(x, int) else evalc(x, v) for x in c.a)
    if k == "xorb":
        x, y = (bool(x & 1) if isinstance(x, int) else evalc(x, v) for x in c.a)
        return x != y
    return bool(evalv(c, v) & 1)


_tm = {}


def truthmask(c, b):
    r = _tm.get(c)
    if r is None:
        r = d = 0
        for v in range(b.lo, b.hi + 1):
            try:
                if evalc(c, v):
                    r |= 1 << v
                d |= 1 << v
            except IndexError:
                pass
        r = _tm[c] = (r, d)
    return r


_tr = {}


DIFFADJ = {}


class State(object):
    __slots__ = ("vset", "frames", "objs", "rng", "ne", "memo", "facts", "bitf", "trace", "events", "tok", "jmp", "user", "nfork", "steps", "objn", "an")

    def fork(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.rng = dict(self.rng)
        s.vset = dict(self.vset)
        s.ne = dict(self.ne)
        s.memo = dict(self.memo)
        s.facts = self.facts
        s.bitf = dict(self.bitf)
        s.trace = self.trace
        s.events = self.events
        s.tok = object()
        self.tok = object()
        s.jmp = dict(self.jmp)
        s.user = dict(self.user)
        s.nfork = self.nfork
        s.steps = self.steps
        s.objn = self.objn
        s.an = self.an
        return s

    # ---- ranges & facts ---------------------------------------------------------------
    def r1(self, a):
        r = self.rng.get(a)
        if a.k == "bits":
            return self.slicerng(a, r)
        if a.k == "app" and a.a[0] == "tbl":
            return self.tblrng(a, r)
        if r is None:
            return a.lo, a.hi
        return r

    def vmask(self, b):
        """bit mask of the values the one-byte atom b may have"""
        lo, hi = self.rng.get(b) or (b.lo, b.hi)
        m = ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)
        v = self.vset.get(b)
        if v is not None:
            m &= v
        for x in self.ne.get(b, ()):
            if 0 <= x <= 255:
                m &= ~(1 << x)
        return m

    def tblrng(self, a, r):
        b = base(a)
        if b is None:
            return r or (a.lo, a.hi)
        m = self.vmask(b)
        k = (a, m)
        t = _tr.get(k)
        if t is None:
            vals = []
            for v in range(b.lo, b.hi + 1):
                if (m >> v) & 1:
                    try:
                        vals.append(evalv(a, v))
                    except IndexError:
                        pass
            t = _tr[k] = (min(vals), max(vals)) if vals else (a.lo, a.hi)
        if r is None:
            return t
        return max(t[0], r[0]), min(t[1], r[1])

    def vdecide(self, c):
        b = base(c)
        if b is None or b is _NB:
            return None
        t, d = truthmask(c, b)
        m = self.vmask(b)
        if m & ~d:
            return None
        if not m & ~t:
            return True
        if not m & t:
            return False
        return None

    def vassume(self, c, truth):
        b = base(c)
        if b is None or b is _NB:
            return True
        t, d = truthmask(c, b)
        m = self.vmask(b)
        if m & ~d:
            return True
        m &= t if truth else ~t
        if not m:
            return False
        self.vset[b] = m
        lo = (m & -m).bit_length() - 1
        hi = m.bit_length() - 1
        return self.setrng(b, lo, hi)

    def slicerng(self, a, r):
        """range of a bit vector; a top slice of an atom follows the atom's range"""
        if r is None:
            r = (a.lo, a.hi)
        if self.bitf and len(a.a) <= 16 and r[0] != r[1]:
            lo = hi = 0
            for i, f in enumerate(self.simpbits(list(a.a))):
                if f is ONE:
                    lo |= 1 << i
                    hi |= 1 << i
                elif f is not ZERO:
                    hi |= 1 << i
            r = max(r[0], lo), min(r[1], hi)
        sl = topslice(a)
        if sl:
            at, s, n = sl
            lo, hi = self.rng.get(at) or (at.lo, at.hi)
            if lo >= 0 and hi.bit_length() <= s + n:
                return max(r[0], lo >> s), min(r[1], hi >> s)
        return r

    def interval(self, e):
        """mathematical interval of a linear form (lo, hi)"""
        if isinstance(e, int):
            return e, e
        if e.k != "lin":
            return self.r1(e)
        c, ts = e.a
        lo = hi = c
        for t, k in ts:
            a, b = self.r1(t)
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi

    def prove(self, e, depth=3):
        """is e >= 0 mathematically, in this state?"""
        lo, hi = self.interval(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if isinstance(e, int) or depth == 0 or not self.facts:
            return False
        return self._prove(e, depth, self.facts) or len(self.facts) > 3 and self._diffprove(e)

    def _diffprove(self, e):
        """e = a - b + c0 >= 0 from a chain of difference facts of any length"""
        c0, ts = lin(e)
        if len(ts) != 2 or {k for _, k in ts} != {1, -1}:
            return False
        (a, ka), (b, _) = ts
        if ka != 1:
            a, b = b, a
        adj = DIFFADJ.get(self.facts)
        if adj is None:
            adj = {}
            for f in self.facts:
                c, fts = f.a
                if len(fts) != 2:
                    continue
                (x, kx), (y, ky) = fts
                if (kx, ky) == (-1, 1):
                    x, y = y, x
                elif (kx, ky) != (1, -1):
                    continue
                adj.setdefault(x, []).append((y, c))        # y <= x + c
            if len(DIFFADJ) > 2000:
                DIFFADJ.clear()
            DIFFADJ[self.facts] = adj
        if a not in adj:
            return False
        # upper bounds of (node - a)
        dist = {a: 0}
        work = [a]
        n = 0
        while work and n < 400:
            x = work.pop()
            d = dist[x]
            for y, c in adj.get(x, ()):
                n += 1
                if d + c < dist.get(y, 1 << 200):
                    dist[y] = d + c
                    if y is b and d + c <= c0:
                        return True
                    work.append(y)
        return False

    def _prove(self, e, depth, facts):
        c, ts = lin(e)
        for i, f in enumerate(facts):
            fc, fts = f.a
            fd = dict(fts)
            k = 0
            for t, q in ts:
                fq = fd.get(t)
                if fq is not None and (fq > 0) == (q > 0) and q % fq == 0:
                    k = q // fq
                    break
            if k <= 0:
                continue
            r = ladd(e, f, -k)
            lo, hi = self.interval(r)
            if lo >= 0:
                return True
            if depth > 1 and not isinstance(r, int) and hi >= 0:
                if self._prove(r, depth - 1, [x for x in facts if x is not f]):
                    return True
        return False

    def setrng(self, a, lo, hi):
        l0, h0 = self.r1(a)
        nl, nh = max(l0, lo), min(h0, hi)
        ne = self.ne.get(a)
        if ne:
            while nl in ne and nl <= nh:
                nl += 1
            while nh in ne and nl <= nh:
                nh -= 1
        if nl > nh:
            return False
        if (nl, nh) != (l0, h0):
            self.rng[a] = (nl, nh)
            if a.k == "bits":
                if nl == nh:
                    if not self.bits_eq(a, nl):
                        return False
                sl = topslice(a)
                if sl:
                    at, s, n = sl
                    if self.r1(at)[1].bit_length() <= s + n and self.r1(at)[0] >= 0:
                        if not self.setrng(at, nl << s, (nh << s) | ((1 << s) - 1)):
                            return False
            return self.propagate(a)
        return True

    def propagate(self, a, depth=0):
        if depth > 4:
            return True
        for f in self.facts:
            c, ts = f.a
            if not any(t is a for t, _ in ts):
                continue
            lo, hi = self.interval(f)
            if hi < 0:
                return False
            for t, k in ts:
                if t is a:
                    continue
                tl, th = self.r1(t)
                # f >= 0  =>  k*t >= -(rest)max
                resthi = hi - (k * th if k > 0 else k * tl)
                if k > 0:
                    nb = -((resthi) // k)    # t >= ceil(-resthi/k)
                    if nb > tl:
                        if nb > th:
                            return False
                        self.rng[t] = (nb, th)
                        if not self.propagate(t, depth + 1):
                            return False
                else:
                    nb = resthi // (-k)
                    if nb < th:
                        if nb < tl:
                            return False
                        self.rng[t] = (tl, nb)
                        if not self.propagate(t, depth + 1):
                            return False
        return True

    def addfact(self, e):
        """assume e >= 0; False if contradictory"""
        if isinstance(e, int):
            return e >= 0
        lo, hi = self.interval(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        c, ts = lin(e)
        if len(ts) == 1:
            t, k = ts[0]
            if k > 0:
                return self.setrng(t, -(c // k), self.r1(t)[1])
            return self.setrng(t, self.r1(t)[0], c // (-k))
        # normalise to a lin E
        if self.prove(ladd(-1, e, -1)):
            return False
        if e not in self.facts:
            self.facts = self.facts + (e,)
            for t, k in ts:
                if not self.propagate(t):
                    return False
                break
        return True

    def inrange(self, e, lo, hi):
        """lo <= e <= hi mathematically?"""
        l, h = self.interval(e)
        if l >= lo and h <= hi:
            return True
        if l < lo and not self.prove(ladd(e, -lo)):
            return False
        if h > hi and not self.prove(ladd(hi, e, -1)):
            return False
        return True

    # ---- bits ---------------------------------------------------------------------------
    def bits(self, e, w):
        """list of w affine bit forms of the low w bits"""
        if isinstance(e, int):
            return [ONE if (e >> i) & 1 else ZERO for i in range(w)]
        if e.k == "bits":
            f = list(e.a[:w])
            f += [ZERO] * (w - len(f))
            return self.simpbits(f)
        if e.k == "lin":
            c, ts = e.a
            acc = None
            g = c
            for _, k in ts:
                g |= k
            sh = (g & -g).bit_length() - 1
            if sh:
                if sh >= w:
                    return [ZERO] * w
                return [ZERO] * sh + self.bits(mklin(c >> sh, [(t, k >> sh) for t, k in ts]), w - sh)
            ok = all(k > 0 and (k & (k - 1)) == 0 for _, k in ts)
            if ok:
                acc = self.bits(c & ((1 << w) - 1), w)
                for t, k in ts:
                    sh = k.bit_length() - 1
                    tb = self.bits(t, max(w - sh, 0)) if sh < w else []
                    tb = ([ZERO] * sh + tb)[:w]
                    acc = ripple(acc, tb, w)
                    if acc is None:
                        break
            if acc is not None:
                return self.simpbits(acc)
            lo, hi = self.interval(e)
            n = hi.bit_length() if lo >= 0 else w
            if lo < 0 or n > w:         # only the residue matters: one name for all of its forms
                h = 1 << (w - 1)
                for t, k in ts:
                    if t.k == "bits":
                        e = ladd(ladd(e, t, -k), lmul(unbits(t, self), k))
                if isinstance(e, int) or e.k != "lin":
                    return self.bits(e & ((1 << w) - 1) if isinstance(e, int) else e, w)
                c, ts = e.a
                e = mklin(c & (2 * h - 1), [(t, ((k + h) & (2 * h - 1)) - h) for t, k in ts if k & (2 * h - 1)])
                if isinstance(e, int) or e.k != "lin":
                    return self.bits(e, w)
                n = w
            return self.simpbits([bvar(e, i) if i < n else ZERO for i in range(w)])
        lo, hi = self.r1(e)
        if lo == hi:
            return self.bits(lo & ((1 << w) - 1), w)
        if e.k == "b2i":
            return self.simpbits([bvar(e, i) if i < 1 else ZERO for i in range(w)])
        if lo < 0:
            return self.simpbits([bvar(e, i) for i in range(w)])
        n = (lo ^ hi).bit_length()      # bits above are common to the whole range
        return self.simpbits([bvar(e, i) if i < n else (ONE if (lo >> i) & 1 else ZERO) for i in range(w)])

    def simpbits(self, f):
        bf = self.bitf
        if not bf:
            return f
        out = []
        for x in f:
            if x is ZERO or x is ONE:
                out.append(x)
                continue
            s, p = x
            hit = [b for b in s if b in bf]
            if hit:
                for b in hit:
                    p ^= bf[b]
                s = s.difference(hit)
                if not s:
                    out.append(ONE if p else ZERO)
                else:
                    out.append((s, p))
            else:
                out.append(x)
        return out

    def canon(self, e):
        """normal form under the known bits of this state"""
        if isinstance(e, int) or e.k == "ptr":
            return e
        lo, hi = self.interval(e) if e.k in ("lin", "sym", "app", "bits", "b2i") else (0, 1)
        if lo == hi:
            return lo
        if e.k == "bits" and self.bitf:
            return mkbits(self.bits(e, len(e.a)))
        return e

    def bits_eq(self, e, v):
        """record e(bits) == const v ; False if contradictory"""
        for i, f in enumerate(self.simpbits(list(e.a))):
            b = (v >> i) & 1
            if f is ZERO or f is ONE:
                if (f is ONE) != bool(b):
                    return False
                continue
            s, p = f
            if len(s) == 1:
                (at, j), = s
                if not self.setbit(at, j, b ^ p):
                    return False
        if v >> len(e.a):
            return False
        return True

    def setbit(self, at, j, b):
        k = (at, j)
        o = self.bitf.get(k)
        if o is not None:
            return o == b
        self.bitf[k] = b
        if at.k in ("sym", "app") and at.lo is not None:
            lo, hi = self.r1(at)
            if lo >= 0:
                # range refinement through the top bit / lower bound
                n = hi.bit_length()
                if b == 0:
                    while n and self.bitf.get((at, n - 1)) == 0:
                        n -= 1
                    if hi >= (1 << n):
                        if not self.setrng(at, lo, (1 << n) - 1):
                            return False
                else:
                    if lo < (1 << j):
                        if not self.setrng(at, 1 << j, hi):
                            return False
        return True

    # ---- comparisons -----------------------------------------------------------------------
    def decide(self, c):
        if isinstance(c, int):
            return bool(c & 1)
        k = c.k
        if k == "not":
            r = self.decide(c.a[0])
            return None if r is None else not r
        if k == "cmp":
            m = self.memo.get(c)
            if m is not None:
                return m
            r = self.decide_cmp(*c.a)
            if r is None:
                r = self.vdecide(c)
            return r
        if k == "andb":
            r = self.decide(c.a[0])
            s = self.decide(c.a[1])
            if r is False or s is False:
                return False
            return True if r and s else None
        if k == "orb":
            r = self.decide(c.a[0])
            s = self.decide(c.a[1])
            if r or s:
                return True
            return False if r is False and s is False else None
        if k == "xorb":
            r = self.decide(c.a[0])
            s = self.decide(c.a[1])
            return None if r is None or s is None else (r != s)
        if k == "bits" or k == "sym" or k == "app":
            lo, hi = self.r1(c)
            if lo == hi:
                return bool(lo & 1)
            f = self.bits(c, 1)[0]
            if f is ZERO:
                return False
            if f is ONE:
                return True
            return self.memo.get(c)
        if c is UNDEF:
            return None
        return self.memo.get(c)

    def decide_cmp(self, pred, w, a, b):
        if pred == "eq":
            pa = isinstance(a, E) and a.k in ("ptr", "fn")
            pb = isinstance(b, E) and b.k in ("ptr", "fn")
            if pa or pb:
                if pa and pb:
                    if a.k != b.k:
                        return False
                    if a.k == "fn":
                        return a is b
                    if a.a[0] != b.a[0]:
                        return False
                    return self.decide_cmp("eq", 64, a.a[1], b.a[1])
                o = b if pa else a
                if o == 0:
                    return False
                return None
            if a is b:
                return True
            if a is UNDEF or b is UNDEF:
                return None
            d = ladd(a, b, -1)
            if isinstance(d, int):
                return (d & ((1 << w) - 1)) == 0
            m = (1 << w)
            lo, hi = self.interval(d)
            if lo == hi:
                return (lo & (m - 1)) == 0
            if lo > -m and hi < m:
                if lo > 0 or hi < 0:
                    return False
                c, ts = lin(d)
                if len(ts) == 1 and abs(ts[0][1]) == 1:
                    t, k = ts[0]
                    ne = self.ne.get(t)
                    if ne and (-c * k) in ne:
                        return False
                    if t.k == "app" and t.a[0] == "tbl":
                        l2, h2 = self.interval(t.a[2])
                        if -c * k not in t.a[1][l2:h2 + 1]:
                            return False
                p1 = self.prove(ladd(d, -1))
                if p1 or self.prove(ladd(-1, d, -1)):
                    return False
                if self.facts and self.prove(d) and self.prove(lmul(d, -1)):
                    return True
            xb = isinstance(a, E) and a.k == "bits" or isinstance(b, E) and b.k == "bits" or (
                self.bitf and (isinstance(a, int) or isinstance(b, int)))
            if xb:
                ba = self.bits(a, w)
                bb = self.bits(b, w)
                same = True
                for x, y in zip(ba, bb):
                    if x is y or x == y:
                        continue
                    same = False
                    z = bxor(x, y)
                    if z is ONE:
                        return False
                if same:
                    return True
            # orderings already known?
            return None
        if pred == "ult" or pred == "slt":
            pa = isptr(a)
            pb = isptr(b)
            if pa and pb and a.a[0] == b.a[0]:
                return self.dlt(a.a[1], b.a[1])
            if pa or pb:
                return None
            if a is b:
                return False
            if a is UNDEF or b is UNDEF:
                return None
            if pred == "ult":
                L, H = 0, (1 << w) - 1
            else:
                L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if isinstance(a, int) and a > H:
                    a -= 1 << w
                if isinstance(b, int) and b > H:
                    b -= 1 << w
            if self.inrange(a, L, H) and self.inrange(b, L, H):
                return self.dlt(a, b)
            if self.memo.get(mk("cmp", (pred, w, b, a))) is True:
                return False
            return None
        return None

    def dlt(self, a, b):
        d = ladd(b, a, -1)      # b - a
        lo, hi = self.interval(d)
        if lo >= 1:
            return True
        if hi <= 0:
            return False
        if self.facts:
            if self.prove(ladd(d, -1)):
                return True
            if self.prove(lmul(d, -1)):
                return False
        return None

    def assume(self, c, truth):
        """add c == truth; False if infeasible"""
        if isinstance(c, int):
            return bool(c & 1) == truth
        k = c.k
        if not self.assume1(c, truth):
            return False
        return k != "cmp" or self.vassume(c, truth)

    def assume1(self, c, truth):
        k = c.k
        if k == "not":
            return self.assume(c.a[0], not truth)
        d = self.decide(c)
        if d is not None:
            return d == truth
        if k == "cmp":
            self.memo[c] = truth
            pred, w, a, b = c.a
            if pred == "eq":
                if isptr(a) and isptr(b) and a.a[0] == b.a[0]:
                    a, b = a.a[1], b.a[1]
                elif isinstance(a, E) and a.k in ("ptr", "fn") or isinstance(b, E) and b.k in ("ptr", "fn"):
                    return True
                if a is UNDEF or b is UNDEF:
                    return True
                dd = ladd(a, b, -1)
                m = 1 << w
                lo, hi = self.interval(dd)
                if truth:
                    if isinstance(b, int) and isinstance(a, E) and a.k == "bits":
                        if not self.bits_eq(a, b):
                            return False
                        return self.setrng(a, b, b)
                    if isinstance(b, int) and isinstance(a, E) and a.k == "b2i":
                        return self.assume(a.a[0], bool(b))
                    if lo > -m and hi < m:
                        if not self.addfact(dd):
                            return False
                        return self.addfact(lmul(dd, -1))
                    return True
                if lo > -m and hi < m:
                    if isinstance(b, int) and isinstance(a, E) and a.k == "bits":
                        fs = [(f) for f in self.simpbits(list(a.a))]
                        unk = [(i, f) for i, f in enumerate(fs) if f is not ZERO and f is not ONE]
                        if len(unk) == 1 and len(unk[0][1][0]) == 1:
                            i, (s, p) = unk[0]
                            (at, j), = s
                            return self.setbit(at, j, (((b >> i) & 1) ^ 1) ^ p)
                    c0, ts = lin(dd)
                    if len(ts) == 1 and abs(ts[0][1]) == 1:
                        t, q = ts[0]
                        v = -c0 * q
                        self.ne[t] = self.ne.get(t, frozenset()) | {v}
                        l, h = self.r1(t)
                        if v == l or v == h:
                            return self.setrng(t, l, h)
                    else:
                        # strengthen one-sided knowledge
                        if self.prove(dd):
                            return self.addfact(ladd(dd, -1))
                        if self.prove(lmul(dd, -1)):
                            return self.addfact(ladd(-1, dd, -1))
                return True
            if pred in ("ult", "slt"):
                if isptr(a) and isptr(b):
                    if a.a[0] != b.a[0]:
                        return True
                    a, b = a.a[1], b.a[1]
                elif isptr(a) or isptr(b):
                    return True
                else:
                    if pred == "ult":
                        L, H = 0, (1 << w) - 1
                    else:
                        L, H = -(1 << (w - 1)), (1 << (w - 1)) - 1
                        if isinstance(a, int) and a > H:
                            a -= 1 << w
                        if isinstance(b, int) and b > H:
                            b -= 1 << w
                    if a is UNDEF or b is UNDEF:
                        return True
                    if not (self.inrange(a, L, H) and self.inrange(b, L, H)):
                        if truth:
                            self.memo[mk("cmp", (pred, w, c.a[3], c.a[2]))] = False
                            self.memo[mk("cmp", ("eq", w) + eqord(c.a[2], c.a[3]))] = False
                        return True
                if truth:
                    return self.addfact(ladd(ladd(b, a, -1), -1))
                if self.memo.get(mk("cmp", ("eq", w) + eqord(c.a[2], c.a[3]))) is False:
                    return self.addfact(ladd(ladd(a, b, -1), -1))
                return self.addfact(ladd(a, b, -1))
            return True
        if k == "andb":
            if truth:
                return self.assume(c.a[0], True) and self.assume(c.a[1], True)
            x = self.decide(c.a[0])
            if x is True:
                return self.assume(c.a[1], False)
            x = self.decide(c.a[1])
            if x is True:
                return self.assume(c.a[0], False)
            self.memo[c] = truth
            return True
        if k == "orb":
            if not truth:
                return self.assume(c.a[0], False) and self.assume(c.a[1], False)
            x = self.decide(c.a[0])
            if x is False:
                return self.assume(c.a[1], True)
            x = self.decide(c.a[1])
            if x is False:
                return self.assume(c.a[0], True)
            self.memo[c] = truth
            return True
        if k == "bits":
            f = self.bits(c, 1)[0]
            if len(f[0]) == 1:
                (at, j), = f[0]
                return self.setbit(at, j, int(truth) ^ f[1])
        if k in ("sym", "app"):
            lo, hi = self.r1(c)
            if lo >= 0 and hi <= 1:
                return self.setrng(c, int(truth), int(truth))
        self.memo[c] = truth
        return True

    # ---- fork helper for models --------------------------------------------------------------
    def branch(self, c):
        r = self.decide(c)
        if r is None:
            raise NeedFork([[(c, True)], [(c, False)]])
        return r

    def rapp(self, fn, args, lo, hi, slo, shi):
        """application whose range is only known in this state (slo..shi holds in every state)"""
        e = app(fn, args, slo, shi)
        if lo > slo or hi < shi:
            self.setrng(e, lo, hi)
        return e

    # ---- objects ---------------------------------------------------------------------------
    def new(self, name, kind, size, default, loc=None):
        self.objn += 1
        o = Obj()
        o.id = self.objn
        o.name = name
        o.kind = kind
        o.size = size
        o.alive = 1
        o.cells = {}
        o.log = None
        o.default = default
        o.meta = None
        o.tok = self.tok
        o.loc = loc
        self.objs[o.id] = o
        return o

    def w(self, oid):
        o = self.objs[oid]
        if o.tok is not self.tok:
            o = o.clone(self.tok)
            self.objs[oid] = o
        return o

    def loc(self):
        for f in reversed(self.frames):
            b = f.fn["blocks"][f.bb]
            if f.ip < len(b):
                l = b[f.ip][2]
                if l:
                    return l
        return 0

    def event(self, *ev):
        self.events = (ev + (self.loc(),), self.events)

    def evlist(self):
        r = []
        c = self.events
        while c is not None:
            r.append(c[0])
            c = c[1]
        r.reverse()
        return r


def topslice(e):
    """(atom, shift, n) when bit i of e is bit i+shift of one atom"""
    r = e._bits
    if r is None:
        r = False
        f0 = e.a[0]
        if f0 is not ZERO and f0 is not ONE and len(f0[0]) == 1 and f0[1] == 0:
            (at, i0), = f0[0]
            if at.k in ("sym", "app") and all(f == bvar(at, i + i0) for i, f in enumerate(e.a)):
                r = (at, i0, len(e.a))
        e._bits = r
    return r


def eqord(a, b):
    if isinstance(a, int):
        return (b, a)
    if isinstance(b, int):
        return (a, b)
    return (a, b) if a.id <= b.id else (b, a)


def notc(c):
    if isinstance(c, int):
        return 1 - (c & 1)
    if c.k == "not":
        return c.a[0]
    return mk("not", (c,), 0, 1)


SZ64 = (1 << 64) - 1


def cmp(pred, w, a, b):
    """normalised comparison term (i1)"""
    if pred == "ne":
        return notc(cmp("eq", w, a, b))
    if pred in ("ugt", "sgt"):
        return cmp(pred[0] + "lt", w, b, a)
    if pred in ("uge", "sge"):
        return notc(cmp(pred[0] + "lt", w, a, b))
    if pred in ("ule", "sle"):
        return notc(cmp(pred[0] + "lt", w, b, a))
    if isinstance(a, int) and isinstance(b, int):
        if pred == "eq":
            return int(((a - b) & ((1 << w) - 1)) == 0)
        m = (1 << w) - 1
        a &= m
        b &= m
        if pred == "slt":
            h = 1 << (w - 1)
            a = a - (1 << w) if a >= h else a
            b = b - (1 << w) if b >= h else b
        return int(a < b)
    if pred == "eq":
        if w == 1:
            if isinstance(b, int):
                return a if b & 1 else notc(a)
            if isinstance(a, int):
                return b if a & 1 else notc(b)
        a, b = eqord(a, b)
        if isinstance(b, int) and a.k in ("ptr", "fn") and (b & SZ64) >> 47:
            return 0
        if isinstance(b, int) and a.k == "b2i":
            bb = b & ((1 << w) - 1)
            if bb == 0:
                return notc(a.a[0])
            if bb == 1:
                return a.a[0]
            return 0
    return mk("cmp", (pred, w, a, b), 0, 1)
