"""Symbolic value domains.

R domain  - a float is the pair (exact real polynomial, bound on the accumulated
            rounding error) together with an interval enclosure of the exact
            value.  Every IEEE operation is replaced by the exact real operation
            plus the standard rounding-error bound.
B domain  - a float is a bit-precise z3 floating-point term.

SBool carries two formulas: `t` holds whenever the machine comparison can be
true, `f` whenever it can be false.  In B they are complementary, in R they
overlap by the rounding error, so exploring both over-approximates the machine.
"""
import ctypes
import math
import os
import sys, sys
import struct
from fractions import Fraction as Q

import z3

INF = float("inf")
NAN = float("nan")
U32, U64 = 2.0 ** -24, 2.0 ** -53
TINY32, TINY64 = 2.0 ** -149, 2.0 ** -1074
GROW = 1.0 + 2.0 ** -40


class Unsupported(Exception):
    pass


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


def f32(x):
    return ctypes.c_float(x).value


# ------------------------------------------------------------------ polynomials
class Vars:
    """Registry of real variables of one run (deterministic numbering)."""

    def __init__(self):
        self.names = []
        self.z = []
        self.sq = {}      # var -> polynomial equal to var^2
        self.pair = {}    # (v,w) v<w -> constant/polynomial equal to v*w
        self.trig = {}    # var -> (c,s,k): cos/sin of var/k
        self.unit = {}
        self.memo = {}
        self.isint = set()
        self.invs = {}    # var i = num/b -> (leading monomial of b, its coefficient, b minus it, num)
        self.rng = {}     # input var -> declared range

    def new(self, name, integer=False):
        i = len(self.names)
        self.names.append(name)
        n = "%s!%d" % (name, i)
        if integer:
            self.z.append(z3.ToReal(z3.Int(n)))
            self.isint.add(i)
        else:
            self.z.append(z3.Real(n))
        return i


class Poly:
    __slots__ = ("m", "_z", "_h")

    def __init__(self, m):
        self.m = m
        self._z = None
        self._h = None

    @staticmethod
    def const(c):
        c = Q(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def var(i):
        return Poly({((i, 1),): Q(1)})

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), Q(0))

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def __add__(self, o):
        if len(self.m) < len(o.m):
            self, o = o, self
        r = dict(self.m)
        for k, v in o.m.items():
            n = r.get(k)
            if n is None:
                r[k] = v
            else:
                n += v
                if n:
                    r[k] = n
                else:
                    del r[k]
        return Poly(r)

    def neg(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({k: v * c for k, v in self.m.items()})

    def vars(self):
        return {v for k in self.m for v, _ in k}

    def degree(self):
        return max([sum(e for _, e in k) for k in self.m] or [0])


MAXTERMS = 60000


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def mono_div(a, b):
    """a/b, or None"""
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) - e
        if n < 0:
            return None
        d[v] = n
    return tuple((v, e) for v, e in a if d[v] for e in (d[v],))


def reduce_poly(m, V):
    """Apply v^2 -> p and v*w -> p rules until none applies."""
    if not V.sq and not V.pair and not V.invs:
        return m
    out = {}
    work = list(m.items())
    sq = V.sq
    pair = V.pair
    invs = V.invs
    fuel = 400000
    while work:
        mono, c = work.pop()
        hit = None
        if invs and len(mono) > 1:
            for v, e in mono:
                if v in invs:
                    lead, lc, rest, num = invs[v]
                    d = mono_div(mono, lead)
                    if d is not None:
                        # lead*v*x = (num - rest*v)*x/lc
                        fuel -= 1
                        if fuel < 0:
                            raise Unsupported("polynomial reduction does not settle")
                        x = tuple((a, b - 1 if a == v else b) for a, b in d if a != v or b > 1)
                        work.append((mono_mul(x, num), c / lc))
                        for k, w in rest.m.items():
                            work.append((mono_mul(d, k), -c * w / lc))
                        hit = 0
                        break
        if hit == 0:
            continue
        for v, e in mono:
            if e >= 2 and v in sq:
                rest = tuple((a, b) if a != v else (a, b - 2) for a, b in mono if a != v or b > 2)
                hit = (rest, sq[v])
                break
        if hit is None and pair and len(mono) > 1:
            vs = [v for v, _ in mono]
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    p = pair.get((vs[i], vs[j]))
                    if p is not None:
                        a, b = vs[i], vs[j]
                        rest = tuple((x, y - 1 if x in (a, b) else y) for x, y in mono
                                     if x not in (a, b) or y > 1)
                        hit = (rest, p)
                        break
                if hit:
                    break
        if hit is None:
            n = out.get(mono)
            if n is None:
                out[mono] = c
            else:
                n += c
                if n:
                    out[mono] = n
                else:
                    del out[mono]
        else:
            rest, p = hit
            for k, v in p.m.items():
                work.append((mono_mul(rest, k), v * c))
    return out


def pmul(a, b, V):
    if a.is_const():
        return b.scale(a.cval())
    if b.is_const():
        return a.scale(b.cval())
    r = {}
    if len(a.m) * len(b.m) > 4000000:
        raise Unsupported("polynomial blow-up")
    for ka, va in a.m.items():
        for kb, vb in b.m.items():
            k = mono_mul(ka, kb)
            n = r.get(k)
            r[k] = va * vb if n is None else n + va * vb
    r = {k: v for k, v in r.items() if v}
    r = reduce_poly(r, V)
    if len(r) > MAXTERMS:
        raise Unsupported("polynomial blow-up (%d terms)" % len(r))
    return Poly(r)


def pz3(p, V):
    if p._z is not None:
        return p._z
    terms = []
    for mono, c in p.m.items():
        fs = []
        if c != 1 or not mono:
            fs.append(z3.RealVal(str(c)))
        for v, e in mono:
            fs.extend([V.z[v]] * e)
        terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs) if False else _prod(fs))
    p._z = z3.RealVal(0) if not terms else terms[0] if len(terms) == 1 else z3.Sum(terms)
    return p._z


def _prod(fs):
    r = fs[0]
    for x in fs[1:]:
        r = r * x
    return r


# ------------------------------------------------------------------- intervals
def iadd(a, b):
    return a[0] + b[0], a[1] + b[1]


def imul(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if x == 0 or y == 0 else x * y)
    return min(ps), max(ps)


def widen(iv):
    lo, hi = iv
    w = 2.0 ** -40
    return lo - abs(lo) * w, hi + abs(hi) * w


class RVal:
    __slots__ = ("p", "e", "lo", "hi", "nn", "src")

    def __init__(self, p, e, lo, hi, nn=False):
        self.p, self.e, self.lo, self.hi = p, e, lo, hi
        self.src = None     # identifies the machine value: same operation on the same machine values
        self.nn = nn        # the machine value is known not to be negative

    def mag(self):
        return max(abs(self.lo), abs(self.hi))

    def __repr__(self):
        return "R<%d terms,[%g,%g]+-%g>" % (len(self.p.m), self.lo, self.hi, self.e)


def rconst(x):
    return RVal(Poly.const(Q(x)), 0.0, float(x), float(x))


class LAbs:
    """|v|, not yet split into cases (only ever compared)"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class BVal:
    __slots__ = ("t", "bits")

    def __init__(self, t, bits):
        self.t, self.bits = t, bits

    def __repr__(self):
        return "B<%s>" % self.t


class SBool:
    __slots__ = ("t", "f", "of")

    def __init__(self, t, f=None):
        self.of = None      # the value this one negates
        self.t = t
        self.f = z3.Not(t) if f is None else f

    def neg(self):
        r = SBool(self.f, self.t)
        r.of = self
        return r


def sb_and(a, b):
    return SBool(z3.And(a.t, b.t), z3.Or(a.f, b.f))


def sb_or(a, b):
    return SBool(z3.Or(a.t, b.t), z3.And(a.f, b.f))


def sb_xor(a, b):
    return SBool(z3.Or(z3.And(a.t, b.f), z3.And(a.f, b.t)), z3.Or(z3.And(a.t, b.t), z3.And(a.f, b.f)))


class FBits:
    """Integer view of the bits of a symbolic float (R domain keeps it opaque)."""
    __slots__ = ("v", "bits")

    def __init__(self, v, bits):
        self.v, self.bits = v, bits


class RInt:
    """Integer of a wide range in the R domain: an integer-valued polynomial."""
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.v, self.w = v, w


class Comp:
    """Little-endian concatenation of cells: list of (value, nbytes)."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def nbytes(self):
        return sum(n for _, n in self.parts)


F32S, F64S = z3.Float32(), z3.Float64()


def fsort(bits):
    return F32S if bits == 32 else F64S


RNE = z3.RNE()
RTZ = z3.RTZ()


def fpconst(x, bits):
    if x != x:
        return z3.fpNaN(fsort(bits))
    if x == INF:
        return z3.fpPlusInfinity(fsort(bits))
    if x == -INF:
        return z3.fpMinusInfinity(fsort(bits))
    if bits == 32:
        i = struct.unpack("<I", struct.pack("<f", x))[0]
        return z3.fpBVToFP(z3.BitVecVal(i, 32), F32S)
    i = struct.unpack("<Q", struct.pack("<d", x))[0]
    return z3.fpBVToFP(z3.BitVecVal(i, 64), F64S)


class Dom:
    """Float operations.  `eng` supplies fork(SBool)->bool and assume(z3 term)."""

    def __init__(self, eng):
        self.eng = eng
        self.reset()

    def reset(self):
        self.V = Vars()
        self.angles = {}
        self.bmemo = {}
        self.maxerr = 0.0
        self.sources = {}
        self.cmps = {}

    # ---- helpers
    def R(self, x):
        if type(x) is RVal:
            return x
        if type(x) is float:
            if x != x or x in (INF, -INF):
                raise Unsupported("non-finite constant in R domain")
            return rconst(x)
        if type(x) is BVal:
            raise Unsupported("mixing R and B domains")
        raise Unsupported("R(%r)" % (x,))

    def B(self, x, bits):
        if type(x) is BVal:
            return x.t
        if type(x) is float:
            return fpconst(x, bits)
        raise Unsupported("B(%r)" % (x,))

    def rnd(self, p, e, lo, hi, bits, exact=False):
        lo, hi = widen((lo, hi))
        if self.eng.ivfacts and 1 < len(p.m) <= 8:
            f = self.eng.ivfacts.get(p.key())
            if f is not None:
                lo, hi = max(lo, f[0]), min(hi, f[1])
        if len(p.m) <= 12 and hi > lo:
            f = self.polyiv(p)
            if f is not None:
                lo, hi = max(lo, f[0]), min(hi, f[1])
        if not exact:
            m = max(abs(lo), abs(hi)) + e
            e = (e + (U32 if bits == 32 else U64) * m) * GROW + (TINY32 if bits == 32 else TINY64)
        if hi - lo == INF or e == INF or e != e:
            raise Unsupported("unbounded interval in R domain")
        if p.is_const():
            c = float(p.cval())
            lo, hi = widen((c, c))
        return RVal(p, e, lo, hi)

    def polyiv(self, p):
        """interval of a polynomial from the declared ranges of its variables"""
        rng, prng = self.V.rng, self.eng.prng
        if 1 < len(p.m) <= 6:      # c*(...) with a common factor c: the product is tighter
            it = iter(p.m)
            com = dict(next(it))
            for mono in it:
                d = dict(mono)
                com = {v: min(x, d[v]) for v, x in com.items() if v in d}
                if not com:
                    break
            if com:
                rest = Poly({tuple((v, x - com.get(v, 0)) for v, x in mono if x > com.get(v, 0)): c for mono, c in p.m.items()})
                f = self.polyiv(Poly({tuple(sorted(com.items())): Q(1)}))
                g = self.polyiv(rest)
                return None if f is None or g is None else imul(f, g)
        lo = hi = tot = 0.0
        for mono, c in p.m.items():
            a = b = 1.0
            for v, x in mono:
                r = prng.get(v) or rng.get(v)
                if r is None:
                    return None
                l, h = r
                if x > 1:
                    l, h = (l ** x, h ** x) if l >= 0 or x % 2 else (h ** x, l ** x) if h <= 0 else (0.0, max(-l, h) ** x)
                if a == b == 1.0:
                    a, b = l, h
                else:
                    a, b = imul((a, b), (l, h))
            c = float(c)
            lo, hi = (lo + a * c, hi + b * c) if c >= 0 else (lo + b * c, hi + a * c)
            tot += max(abs(a), abs(b)) * abs(c)
        m = (tot + 1e-300) * 2.0 ** -40
        return lo - m, hi + m

    # ---- arithmetic
    def add(self, a, b, bits, sub=False):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is BVal or type(b) is BVal:
            x, y = self.B(a, bits), self.B(b, bits)
            if sub:
                return BVal(z3.fpSub(RNE, x, y), bits)
            if x.get_id() > y.get_id():
                x, y = y, x
            return BVal(z3.fpAdd(RNE, x, y), bits)
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return NAN
        if type(b) is float and b == 0.0:
            return a
        if type(a) is float and a == 0.0:
            return self.neg(b) if sub else b
        if sub and a is b:
            return 0.0
        a, b = self.R(a), self.R(b)
        if sub:
            p = a.p - b.p
            if not p.m and a.e == 0.0 and b.e == 0.0:
                return 0.0      # equal machine values
            return self.rnd(p, a.e + b.e, a.lo - b.hi, a.hi - b.lo, bits)
        return self.rnd(a.p + b.p, a.e + b.e, a.lo + b.lo, a.hi + b.hi, bits)

    def neg(self, a):
        if a is UNDEF:
            return UNDEF
        if type(a) is float:
            return -a
        if type(a) is BVal:
            return BVal(z3.fpNeg(a.t), a.bits)
        return RVal(a.p.neg(), a.e, -a.hi, -a.lo)

    def mul(self, a, b, bits):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is BVal or type(b) is BVal:
            x, y = self.B(a, bits), self.B(b, bits)
            if x.get_id() > y.get_id():
                x, y = y, x
            return BVal(z3.fpMul(RNE, x, y), bits)
        for x, y in ((a, b), (b, a)):
            if type(x) is float:
                if x != x:
                    return NAN
                if x == 0.0:
                    return 0.0
                if x == 1.0:
                    return y
                if x == -1.0:
                    return self.neg(y)
        a, b = self.R(a), self.R(b)
        if a is b or a.p is b.p:
            m = a.mag()
            l = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)) ** 2
            lo, hi = l, m * m
        else:
            lo, hi = imul((a.lo, a.hi), (b.lo, b.hi))
        e = a.mag() * b.e + b.mag() * a.e + a.e * b.e
        exact = any(q.is_const() and q.cval() != 0 and _pow2(q.cval()) for q in (a.p, b.p)) and False
        r = self.rnd(pmul(a.p, b.p, self.V), e, lo, hi, bits, exact)
        if type(r) is RVal and (a.nn or a.lo - a.e >= 0) and (b.nn or b.lo - b.e >= 0):
            r.nn = True
        return r

    def div(self, a, b, bits):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(a) is BVal or type(b) is BVal:
            return BVal(z3.fpDiv(RNE, self.B(a, bits), self.B(b, bits)), bits)
        if (type(a) is float and a != a) or (type(b) is float and b != b):
            return NAN
        if type(a) is float and a == 0.0:
            # 0/b : 0 unless b==0 (NaN)
            if type(b) is RVal:
                if b.lo - b.e <= 0 <= b.hi + b.e and self.eng.fork(self.cmp("oeq", b, 0.0)):
                    return NAN
                return 0.0
        if type(b) is float:
            if b == 0.0:
                raise Unsupported("division of symbolic value by constant zero")
            if b == 1.0:
                return a
            a = self.R(a)
            c = Q(1) / Q(b)
            lo, hi = sorted((a.lo / b, a.hi / b))
            return self.rnd(a.p.scale(c), a.e / abs(b), lo, hi, bits)
        a, b = self.R(a), self.R(b)
        if b.p.is_const() and b.e == 0:
            c = Q(1) / b.p.cval()
            lo, hi = sorted((a.lo * float(c), a.hi * float(c)))
            return self.rnd(a.p.scale(c), a.e * abs(float(c)), lo, hi, bits)
        bmin = self.eng.absmin(b)
        if bmin <= b.e:
            if os.environ.get("VF_RES"):
                print("DIV", a, b, pz3(b.p, self.V), file=sys.stderr)
            raise Unsupported("division by a value not bounded away from zero (|b|>=%g, err %g)" % (bmin, b.e))
        iv = self.inv(b)
        amag = a.mag()
        qm = amag / bmin
        if b.lo > 0 or b.hi < 0:
            bl, bh = (b.lo, b.hi)
            if bl > 0:
                bl = max(bl, bmin)
            else:
                bh = min(bh, -bmin)
            lo, hi = imul((a.lo, a.hi), tuple(sorted((1 / bl, 1 / bh))))
        else:
            lo, hi = -qm, qm
        q = self.rnd(pmul(a.p, iv, self.V), 0.0, lo, hi, bits, exact=True)
        e = (a.e + min(qm, q.mag()) * b.e) / (bmin - b.e)
        return self.rnd(q.p, e, q.lo, q.hi, bits)

    def inv(self, b):
        """polynomial for 1/b.p"""
        if b.p.is_const():
            return Poly.const(Q(1) / b.p.cval())
        k = ("inv", b.p.key())
        if k in self.V.memo:
            r = self.V.memo[k]
            if len(r.m) == 1:
                (mono, c), = r.m.items()
                if len(mono) == 1 and mono[0][1] == 1 and c == 1 and mono[0][0] not in self.eng.prng:
                    self.invrng(mono[0][0], b.p)
            return r
        # normalise sign / scale: b = c * monic
        lead = b.p.key()[-1]
        c = lead[1]
        if c != 1:
            mon = RVal(b.p.scale(Q(1) / c), 0, 0, 0)
            r = self.inv(mon).scale(Q(1) / c)
            self.V.memo[k] = r
            return r
        if len(b.p.m) == 1 and sum(x for _, x in lead[0]) > 1:
            r = Poly.const(1)
            for v, x in lead[0]:
                f = self.inv(RVal(Poly.var(v), 0, 0, 0))
                for _ in range(x):
                    r = pmul(r, f, self.V)
            self.V.memo[k] = r
            return r
        i = self.V.new("inv")
        p = Poly.var(i)
        m = b.p.m
        if len(m) == 1 and len(lead[0]) == 1 and lead[0][0][1] == 1:
            w = lead[0][0][0]
            self.V.pair[(min(i, w), max(i, w))] = Poly.const(1)
            sq = self.V.sq.get(w)       # P/w = w when w^2 = P
            if sq is not None and not sq.is_const() and not any(v in self.V.invs for mo in sq.m for v, _ in mo):
                ld = max(sq.m, key=lambda q: (sum(x for _, x in q), q))
                self.V.invs[i] = (ld, sq.m[ld], Poly({q: c for q, c in sq.m.items() if q != ld}), ((w, 1),))
        elif 1 < len(m) <= 6:
            ld = max(m, key=lambda q: (sum(x for _, x in q), q))
            if ld and not any(v in self.V.invs for mo in m for v, _ in mo):
                self.V.invs[i] = (ld, m[ld], Poly({q: c for q, c in m.items() if q != ld}), ())
        self.eng.assume_def(pz3(p, self.V) * pz3(b.p, self.V) == 1)
        self.V.memo[k] = p
        self.invrng(i, b.p)
        return p

    def invrng(self, i, p):
        f = self.polyiv(p)
        if f is not None and (f[0] > 0 or f[1] < 0):
            self.eng.prng[i] = widen((1 / f[1], 1 / f[0]))

    def fabs(self, a):
        if a is UNDEF:
            return UNDEF
        if type(a) is float:
            return abs(a)
        if type(a) is BVal:
            return BVal(z3.fpAbs(a.t), a.bits)
        if a.lo >= 0:
            return a
        if a.hi <= 0:
            return self.neg(a)
        if self.eng.fork(self.cmp("olt", a, 0.0)):
            r = self.neg(a)
        else:
            r = a
        return RVal(r.p, r.e, max(r.lo, -r.e), max(r.hi, 0.0))

    def sqrt(self, a, bits):
        r = self.sqrt_(a, bits)
        if type(r) is RVal and r.nn is False:
            r.nn = True
        return r

    def sqrt_(self, a, bits):
        if os.environ.get("VF_RES") and type(a) is RVal:
            print("SQRT", a, pz3(a.p, self.V), self.eng.ivfacts.get(a.p.key()), file=sys.stderr)
        if a is UNDEF:
            return UNDEF
        if type(a) is float:
            if a != a or a < 0:
                return NAN
            r = math.sqrt(a)
            return f32(r) if bits == 32 else r
        if type(a) is BVal:
            return BVal(z3.fpSqrt(RNE, a.t), bits)
        if a.p.is_const() and a.p.cval() >= 0:
            c = math.sqrt(float(a.p.cval()))
            if Q(c) * Q(c) == a.p.cval():
                e = a.e / max(c, 1e-300) if c > 0 else math.sqrt(a.e)
                return self.rnd(Poly.const(Q(c)), e, c, c, bits)
        lo = a.lo
        f = self.eng.ivfacts.get(a.p.key())
        if f is not None:
            lo = max(lo, f[0])
        if lo < 0:
            lo = max(lo, self.eng.lower(a, 0.0))
        if lo - a.e < 0 and a.lo < 0 and lo < 0:
            if self.eng.fork(self.cmp("olt", a, 0.0)):
                return NAN
            self.eng.assume_def(pz3(a.p, self.V) >= z3.RealVal(0))
        lo = max(lo, 0.0)
        root = self.monoroot(a.p)
        if root is not None:
            lo = max(lo, self.polyabsmin(RVal(root, 0.0, 0.0, 0.0)) ** 2)
            slo, shi = math.sqrt(lo), math.sqrt(max(a.hi, 0.0))
            e = min(a.e / (math.sqrt(lo - a.e)), math.sqrt(a.e)) if lo > a.e else math.sqrt(a.e)
            return self.rnd(root, e, slo, shi, bits)
        hint = self.eng.roots.get(a.p.key())
        if hint is not None:
            r = self.fabs(RVal(hint.p, 0.0, hint.lo, hint.hi))
            lo = max(lo, self.polyabsmin(r) ** 2)
            slo, shi = math.sqrt(lo), math.sqrt(max(a.hi, 0.0))
            e = min(a.e / (math.sqrt(lo - a.e)), math.sqrt(a.e)) if lo > a.e else math.sqrt(a.e)
            return self.rnd(r.p, e, slo, shi, bits)
        k = ("sqrt", a.p.key())
        if k in self.V.memo:
            p = self.V.memo[k]
        else:
            i = self.V.new("sqrt")
            p = Poly.var(i)
            self.V.sq[i] = a.p
            self.V.memo[k] = p
            self.eng.assume_def(z3.And(self.V.z[i] >= 0, self.V.z[i] * self.V.z[i] == pz3(a.p, self.V)))
        slo, shi = math.sqrt(lo), math.sqrt(max(a.hi, 0.0))
        self.eng.prng[next(iter(p.m))[0][0]] = widen((slo, shi))
        if lo > a.e:
            e = min(a.e / (math.sqrt(lo - a.e)), math.sqrt(a.e)) if a.e else 0.0
        else:
            e = math.sqrt(a.e) if a.e else 0.0
        return self.rnd(p, e, slo, shi, bits)

    def polyabsmin(self, r):
        f = self.polyiv(r.p)
        return 0.0 if f is None else max(f[0], -f[1], 0.0)

    def monoroot(self, p):
        """r >= 0 with r*r == p for p = c*m^2, m a product of variables of known sign"""
        if len(p.m) != 1:
            return None
        (mono, c), = p.m.items()
        n, d = math.isqrt(c.numerator) if c > 0 else -1, math.isqrt(c.denominator)
        if n < 0 or n * n != c.numerator or d * d != c.denominator or any(e % 2 for _, e in mono):
            return None
        r = Q(n, d)
        for v, e in mono:
            if (e // 2) % 2:
                lo, hi = self.V.rng.get(v, (-1, 1))
                if lo < 0 < hi:
                    return None
                if hi <= 0:
                    r = -r
        return Poly({tuple((v, e // 2) for v, e in mono): r})

    # ---- trigonometry
    def angle_unit(self, x, k):
        """declare that trig of x (an input variable) is based on x/k"""
        (mono,) = x.p.m
        self.V.unit[mono[0][0]] = k

    def base(self, v):
        t = self.V.trig.get(v)
        if t is None:
            k = self.V.unit.get(v, 1)
            c = self.V.new("cos")
            s = self.V.new("sin")
            self.V.rng[c] = self.V.rng[s] = (-1.0, 1.0)
            if v in self.V.rng:
                l, h = self.V.rng[v]
                if h - l < 6.2 * k:
                    self.V.rng[c], self.V.rng[s] = widen(_trig_iv(l / k, h / k, 0)), widen(_trig_iv(l / k, h / k, 1))
                    for i in (c, s):
                        lo, hi = self.V.rng[i]
                        if lo > -1 or hi < 1:
                            self.eng.assume_def(z3.And(self.V.z[i] >= z3.RealVal(str(Q(lo))), self.V.z[i] <= z3.RealVal(str(Q(hi)))))
            self.mk_unit(c, s)
            t = (Poly.var(c), Poly.var(s), k)
            self.V.trig[v] = t
            self.eng.trig_axioms(v, c, s, k)
        return t

    def mk_unit(self, c, s):
        V = self.V
        V.sq[s] = Poly.const(1) - Poly({((c, 2),): Q(1)})
        self.eng.assume_def(V.z[c] * V.z[c] + V.z[s] * V.z[s] == 1)
        self.eng.assume_def(z3.And(V.z[c] <= 1, V.z[c] >= -1, V.z[s] <= 1, V.z[s] >= -1))

    def cs_add(self, x, y):
        V = self.V
        return (pmul(x[0], y[0], V) - pmul(x[1], y[1], V), pmul(x[1], y[0], V) + pmul(x[0], y[1], V))

    def cs_mult(self, c, s, n):
        if n < 0:
            c, s = self.cs_mult(c, s, -n)
            return c, s.neg()
        r = (Poly.const(1), Poly.const(0))
        for _ in range(n):
            r = self.cs_add(r, (c, s))
        return r

    def sincos(self, p):
        """exact (cos,sin) polynomials of the polynomial p, plus approximation error of constants"""
        k = ("cs", p.key())
        if k in self.V.memo:
            return self.V.memo[k]
        r = (Poly.const(1), Poly.const(0))
        e = 0.0
        rest = {}
        for mono, c in sorted(p.m.items()):
            if mono == ():
                f = float(c)
                k4 = round(f / (math.pi / 2))
                off = abs(f - k4 * (math.pi / 2))
                if off < 1e-13 and abs(k4) < 100:       # a multiple of a quarter turn
                    cc, ss = ((1, 0), (0, 1), (-1, 0), (0, -1))[k4 % 4]
                    r = self.cs_add(r, (Poly.const(Q(cc)), Poly.const(Q(ss))))
                    e = 4e-16 + off * 1.01 + abs(f) * 1e-15
                else:
                    r = self.cs_add(r, (Poly.const(Q(math.cos(f))), Poly.const(Q(math.sin(f)))))
                    e = 4e-16
            elif len(mono) == 1 and mono[0][1] == 1:
                v = mono[0][0]
                bc, bs, ku = self.base(v)
                n = c * ku
                if n.denominator != 1 or abs(n) > 8:
                    rest[mono] = c
                    continue
                r = self.cs_add(r, self.cs_mult(bc, bs, int(n)))
            else:
                rest[mono] = c
        if rest:
            q = Poly(rest)
            lead = q.key()[-1][1]
            sign = 1
            if lead < 0:
                q, sign = q.neg(), -1
            kk = ("atom", q.key())
            if kk not in self.V.memo:
                c = self.V.new("cosx")
                s = self.V.new("sinx")
                self.V.rng[c] = self.V.rng[s] = (-1.0, 1.0)
                self.mk_unit(c, s)
                self.V.memo[kk] = (Poly.var(c), Poly.var(s))
            c, s = self.V.memo[kk]
            r = self.cs_add(r, (c, s if sign > 0 else s.neg()))
        self.V.memo[k] = (r, e)
        return r, e

    def trig(self, x, bits, which):
        if x is UNDEF:
            return UNDEF
        if type(x) is float:
            if x != x or abs(x) == INF:
                return NAN
            r = math.cos(x) if which == 0 else math.sin(x)
            return f32(r) if bits == 32 else r
        if type(x) is BVal:
            return self.eng.buf(("cos", "sin")[which], x, bits, lambda r: z3.And(z3.fpLEQ(r, fpconst(1.0, bits)), z3.fpGEQ(r, fpconst(-1.0, bits))))
        (cs, e0) = self.sincos(x.p)
        p = cs[which]
        u = U32 if bits == 32 else U64
        e = (x.e + e0 + 2 * u) * GROW + (TINY32 if bits == 32 else TINY64)
        lo, hi = -1.0, 1.0
        w = x.hi - x.lo
        if w < 3.0:
            lo, hi = _trig_iv(x.lo, x.hi, which)
        if p.is_const():
            lo = hi = float(p.cval())
        return RVal(p, e, lo, hi)

    def new_angle(self, name, lo, hi, c=None, s=None):
        """fresh angle variable whose cos/sin polynomials are c and s (exact)"""
        i = self.V.new(name)
        self.V.rng[i] = (lo, hi)
        self.eng.assume_def(z3.And(self.V.z[i] >= z3.RealVal(str(Q(lo))), self.V.z[i] <= z3.RealVal(str(Q(hi)))))
        if c is not None:
            self.V.trig[i] = (c, s, 1)
        return i

    def known_angle(self, c, s, lo, hi):
        """an existing angle in [lo,hi] with this cosine/sine (None: don't care)"""
        for v, (bc, bs, k) in self.V.trig.items():
            if v not in self.V.rng:
                continue
            for n in range(1, k + 1):
                l, h = (x * n / k for x in self.V.rng[v])
                if l < lo or h > hi:
                    continue
                x, y = self.cs_mult(bc, bs, n)
                if (c is None or x.key() == c.key()) and (s is None or y.key() == s.key()):
                    return Poly.var(v).scale(Q(n, k))
        return None

    def atan2(self, y, x, bits):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if type(x) is float and type(y) is float:
            r = math.atan2(y, x)
            return f32(r) if bits == 32 else r
        if type(x) is BVal or type(y) is BVal:
            raise Unsupported("atan2 in B domain")
        x, y = self.R(x), self.R(y)
        V = self.V
        k = ("atan2", y.p.key(), x.p.key(), x.e, y.e)
        if k not in V.memo:
            r2 = pmul(x.p, x.p, V) + pmul(y.p, y.p, V)
            rr = RVal(r2, 0.0, 0.0, x.mag() ** 2 + y.mag() ** 2)
            rmin2 = self.eng.lower(rr, 0.0)
            if rmin2 <= 0:
                raise Unsupported("atan2 of arguments not bounded away from (0,0)")
            rr.lo = rmin2
            r = self.sqrt(rr, 64)
            iv = self.inv(r)
            c, s = pmul(x.p, iv, V), pmul(y.p, iv, V)
            rmin = math.sqrt(rmin2)
            e = x.e + y.e
            if e * 4 > rmin:
                raise Unsupported("atan2 too close to (0,0) for the rounding error")
            de = e / (rmin - e) * 1.3
            # the machine result is within de of *some* angle with this sine and
            # cosine in the (slightly widened) principal range: near the branch cut
            # the machine may return either representative.
            known = self.known_angle(c, s, -3.1415926 + de, 3.1415926 - de)
            if known is None and y.nn and y.p.is_const() and y.p.cval() == 0 and x.hi + x.e < 0:
                known = Poly.const(Q(math.pi))
            if known is not None:
                V.memo[k] = (known, de)
        if k not in V.memo:
            pi = 3.141592653589794 + de
            i = self.new_angle("atan2", -pi, pi, c, s)
            z = V.z[i]
            yz, xz = pz3(y.p, V), pz3(x.p, V)
            ez = z3.RealVal(str(Q(e)))
            dz = z3.RealVal(str(Q(de)))
            h = z3.RealVal("1.5707963267948967")
            self.eng.assume_def(z3.And(z3.Implies(yz > ez, z >= -dz), z3.Implies(yz < -ez, z <= dz),
                                       z3.Implies(xz > ez, z3.And(z < h + dz, z > -h - dz)),
                                       z3.Implies(xz < -ez, z3.Or(z > h - dz, z < -h + dz))))
            if x.lo - e > 0:
                # |z| <= |y|/x
                pass
            V.memo[k] = (Poly.var(i), de)
        p, de = V.memo[k]
        u = U32 if bits == 32 else U64
        e = de + u * 2 * math.pi
        lo, hi = -math.pi - de, math.pi + de
        if x.lo - x.e - y.e > 0:
            hi = (math.atan2(y.hi, x.lo) if y.hi > 0 else math.atan2(y.hi, x.hi)) + de
            lo = (math.atan2(y.lo, x.lo) if y.lo < 0 else math.atan2(y.lo, x.hi)) - de
        elif y.lo - y.e - x.e > 0:
            lo, hi = 0.0 - de, math.pi + de
        elif y.hi + y.e + x.e < 0:
            lo, hi = -math.pi - de, 0.0 + de
        return RVal(p, e, lo - 1e-12, hi + 1e-12)

    def bfun(self, name, t, bits, dom, lo, hi):
        """bit-precise libm call known only by its domain and range: NaN iff outside the domain"""
        k = (name, t.get_id(), bits)
        r = self.eng.bcache.get(k)
        if r is None:
            r = z3.FP("%s!%d" % (name, len(self.eng.bcache)), fsort(bits))
            self.eng.bcache[k] = r
            self.eng.bkeep.append(t)
            self.eng.assume_def(z3.If(dom, z3.And(z3.fpLEQ(fpconst(lo, bits), r), z3.fpLEQ(r, fpconst(hi, bits))), z3.fpIsNaN(r)))
        return BVal(r, bits)

    def asin(self, x, bits, acos=False):
        if x is UNDEF:
            return UNDEF
        if type(x) is float:
            if x != x or abs(x) > 1:
                return NAN
            r = math.acos(x) if acos else math.asin(x)
            return f32(r) if bits == 32 else r
        if type(x) is BVal:
            return self.bfun("acos" if acos else "asin", x.t, bits, z3.fpLEQ(z3.fpAbs(x.t), fpconst(1.0, bits)),
                             0.0 if acos else -1.5707964, 3.1415928 if acos else 1.5707964)
        V = self.V
        if x.hi + x.e > 1:
            hi = min(x.hi, self.eng.upper(x, 1.0))
            x = RVal(x.p, x.e, min(x.lo, hi), hi)
            if x.hi + x.e > 1 and self.eng.fork(self.cmp("ogt", x, 1.0)):
                return NAN
        if x.lo - x.e < -1:
            lo = max(x.lo, self.eng.lower(x, -1.0))
            x = RVal(x.p, x.e, lo, max(x.hi, lo))
            if x.lo - x.e < -1 and self.eng.fork(self.cmp("olt", x, -1.0)):
                return NAN
        k = ("asin" if not acos else "acos", x.p.key())
        if k not in V.memo:
            q = Poly.const(1) - pmul(x.p, x.p, V)
            m = max(abs(x.lo), abs(x.hi))
            o = self.sqrt(RVal(q, 0.0, max(0.0, 1 - m * m), 1.0), 64)
            known = self.known_angle(x.p, None, 0.0, 3.14159265) if acos else self.known_angle(None, x.p, -1.57079632, 1.57079632)
            if known is not None:
                i = None
            elif acos:
                i = self.new_angle("acos", 0.0, 3.141592653589794, x.p, o.p)
            else:
                i = self.new_angle("asin", -1.5707963267948968, 1.5707963267948968, o.p, x.p)
            V.memo[k] = known if known is not None else Poly.var(i)
        p = V.memo[k]
        m = max(abs(x.lo), abs(x.hi)) + x.e
        u = U32 if bits == 32 else U64
        if m < 1:
            e = x.e / math.sqrt(1 - m * m)
        else:
            e = math.sqrt(2 * x.e) * 1.2 + 2 * x.e
        if acos:
            lo, hi = math.acos(min(1, x.hi)), math.acos(max(-1, x.lo))
        else:
            lo, hi = math.asin(max(-1, x.lo)), math.asin(min(1, x.hi))
        return RVal(p, e * GROW + 4 * u, lo - 1e-12, hi + 1e-12)

    def fmod(self, x, y, bits):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if type(x) is float and type(y) is float:
            return math.fmod(x, y) if y != 0 else NAN
        if type(x) is BVal or type(y) is BVal:
            # by contract: x itself below the modulus, else some value of the sign of x below the modulus
            if type(y) is not float or not (0 < abs(y) < INF):
                raise Unsupported("fmod with symbolic modulus")
            k = ("fmod", x.t.get_id(), y, bits)
            r = self.eng.bcache.get(k)
            if r is None:
                r = z3.FP("fmod!%d" % len(self.eng.bcache), fsort(bits))
                self.eng.bcache[k] = r
                self.eng.bkeep.append(x.t)
                ax, ar, c = z3.fpAbs(x.t), z3.fpAbs(r), fpconst(abs(y), bits)
                fin = z3.Not(z3.Or(z3.fpIsNaN(x.t), z3.fpIsInf(x.t)))
                self.eng.assume_def(z3.If(fin, z3.If(z3.fpLT(ax, c), r == x.t, z3.And(z3.fpLT(ar, c), z3.fpIsNegative(r) == z3.fpIsNegative(x.t))), z3.fpIsNaN(r)))
            return BVal(r, bits)
        if type(y) is not float or y == 0:
            raise Unsupported("fmod with symbolic modulus")
        y = abs(y)
        V = self.V
        if abs(x.lo) < y and abs(x.hi) < y:
            return x
        neg = x.lo < 0 and (x.hi <= 0 or self.eng.fork(self.cmp("olt", x, 0.0)))
        k = ("fmod", x.p.key(), y, neg)
        if k not in V.memo:
            n = V.new("fmodn", integer=True)
            r = x.p - Poly.var(n).scale(Q(y))
            e = z3.RealVal(str(Q(x.e)))
            rz = pz3(r, V)
            yz = z3.RealVal(str(Q(y)))
            if neg:
                self.eng.assume_def(z3.And(rz <= e, rz >= -yz - e, V.z[n] <= 0))
            else:
                self.eng.assume_def(z3.And(rz >= -e, rz <= yz + e, V.z[n] >= 0))
            V.memo[k] = r
        r = V.memo[k]
        return RVal(r, x.e, (-y if neg else 0.0) - x.e, (0.0 if neg else y) + x.e)

    def rint(self, x, mode):
        """floor/ceil/trunc/round/nearbyint"""
        if x is UNDEF:
            return UNDEF
        if type(x) is float:
            if x != x or abs(x) == INF:
                return x
            if mode == "floor":
                r = float(math.floor(x))
            elif mode == "ceil":
                r = float(math.ceil(x))
            elif mode == "trunc":
                r = float(math.trunc(x))
            elif mode == "round":
                r = float(math.floor(abs(x) + 0.5)) if abs(x) < 2 ** 52 else abs(x)
                if abs(x) < 2 ** 52 and (abs(x) + 0.5) - abs(x) != 0.5:
                    r = float(math.floor(Q(abs(x)) + Q(1, 2)))
                r = math.copysign(r, x)
            else:
                r = float(round(x))
            return math.copysign(r, x) if r == 0 else r
        if type(x) is BVal:
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "round": z3.RNA(), "rint": z3.RNE()}[mode]
            return BVal(z3.fpRoundToIntegral(rm, x.t), x.bits)
        V = self.V
        k = ("rint", mode, x.p.key())
        if k not in V.memo:
            n = V.new("rint", integer=True)
            p = Poly.var(n)
            d = pz3(p - x.p, V)
            e = z3.RealVal(str(Q(x.e)))
            half = z3.RealVal("1/2")
            if mode == "floor":
                c = z3.And(d <= e, d > -1 - e)
            elif mode == "ceil":
                c = z3.And(d >= -e, d < 1 + e)
            elif mode in ("round", "rint"):
                c = z3.And(d >= -half - e, d <= half + e)
            else:
                c = z3.And(d > -1 - e, d < 1 + e, z3.Implies(pz3(x.p, V) > e, z3.And(d <= e, V.z[n] >= 0)),
                           z3.Implies(pz3(x.p, V) < -e, z3.And(d >= -e, V.z[n] <= 0)))
            self.eng.assume_def(c)
            V.memo[k] = p
        p = V.memo[k]
        # err 0: n is the machine's own integer
        return RVal(p, 0.0, math.floor(x.lo - x.e) - 1.0, math.ceil(x.hi + x.e) + 1.0)

    def powi(self, x, n, bits):
        if n == 0:
            return 1.0
        r = None
        for _ in range(abs(n)):
            r = x if r is None else self.mul(r, x, bits)
        return r if n > 0 else self.div(1.0, r, bits)

    def pow(self, x, y, bits):
        if type(x) is float and type(y) is float:
            try:
                r = math.pow(x, y)
            except OverflowError:
                r = INF
            except ValueError:
                r = NAN
            return f32(r) if bits == 32 else r
        if type(y) is float and y == int(y) and abs(y) <= 8:
            return self.powi(x, int(y), bits)
        if type(y) is float and y == 0.5:
            return self.sqrt(x, bits)
        raise Unsupported("pow")

    # ---- conversion
    def ext(self, a, b0, b1):
        if a is UNDEF:
            return UNDEF
        if type(a) is float:
            return a
        if type(a) is BVal:
            return BVal(z3.fpFPToFP(RNE, a.t, fsort(b1)), b1)
        return a

    def trunc(self, a, b0, b1):
        if a is UNDEF:
            return UNDEF
        if type(a) is float:
            return f32(a)
        if type(a) is BVal:
            return BVal(z3.fpFPToFP(RNE, a.t, fsort(b1)), b1)
        return self.rnd(a.p, a.e, a.lo, a.hi, b1)

    # ---- comparison: returns 0/1 or SBool
    def cmp(self, pred, a, b, bits=32):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if type(b) is LAbs:
            if type(a) is LAbs:
                b = self.fabs(b.v)
            else:
                return self.cmp({"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(pred[1:], pred[1:]).join([pred[0], ""]) if pred[1:] in ("lt", "le", "gt", "ge") else pred, b, a, bits)
        if type(a) is LAbs:
            k = pred[1:]
            if pred in ("ord", "uno", "true", "false") or k not in ("lt", "le", "gt", "ge"):
                return self.cmp(pred, self.fabs(a.v), b, bits)
            p, n = self.cmp(pred, a.v, b, bits), self.cmp(pred, self.neg(a.v), b, bits)
            f, absorb, unit = (sb_and, 0, 1) if k in ("lt", "le") else (sb_or, 1, 0)
            if type(p) is int:
                p, n = n, p
            if type(n) is int:
                return n if type(p) is int and p == unit or n == absorb else p
            return f(p, n)
        ta, tb = type(a), type(b)
        if ta is float and tb is float:
            return fcmp_c(pred, a, b)
        if pred == "true":
            return 1
        if pred == "false":
            return 0
        if ta is BVal or tb is BVal:
            bits = a.bits if ta is BVal else b.bits
            x, y = self.B(a, bits), self.B(b, bits)
            nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)) if x is not y else z3.fpIsNaN(x)
            if pred == "ord":
                return SBool(z3.Not(nan))
            if pred == "uno":
                return SBool(nan)
            core = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
            k = pred[1:]
            if k == "ne":
                t = z3.Not(z3.fpEQ(x, y))       # une
                if pred == "one":
                    t = z3.And(t, z3.Not(nan))
                return SBool(t)
            t = core[k](x, y)
            if pred[0] == "u":
                t = z3.Or(t, nan)
            return SBool(t)
        # R
        if (ta is float and b is not None and a != a) or (tb is float and b != b):
            return 1 if pred[0] == "u" else 0
        if ta is float and abs(a) == INF or tb is float and abs(b) == INF:
            # R values are finite
            x = a if ta is float else 0.0
            y = b if tb is float else 0.0
            return fcmp_c(pred, x, y)
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        # the comparison of the same machine values has the same result: one object for all of them
        k = pred[1:]
        x, y = self.source(a), self.source(b)
        not_ = k in ("ne", "le", "ge")
        if k in ("gt", "le") or k in ("eq", "ne") and y < x:        # a > b is b < a, a <= b is not b < a
            a, b, x, y = b, a, y, x
        base = "eq" if k in ("eq", "ne") else "lt"
        r = self.cmps.get((base, x, y))
        if r is None:
            r = self.rcmp(base, self.R(a), self.R(b), x == y)
            self.cmps[base, x, y] = r
        if not_:
            return 1 - r if type(r) is int else r.neg()
        return r

    def source(self, a):
        if type(a) is float:
            return (1, "0" if a == 0 else a.hex())
        if a.src is None:
            a.src = self.sources.setdefault(("", id(a)), len(self.sources))
            self.sources["keep", a.src] = a         # so that id(a) stays its own
        return (0, a.src)

    def rcmp(self, k, a, b, same):
        d = a.p - b.p
        e = (a.e + b.e) * GROW
        lo, hi = a.lo - b.hi, a.hi - b.lo
        if d.is_const():
            lo = hi = float(d.cval())
            if e == 0:
                v = d.cval()
                return int(v == 0 if k == "eq" else v < 0)
        if same:
            return int(k == "eq")
        if hi + e < 0:
            return int(k == "lt")
        if lo - e > 0:
            return 0
        z = pz3(d, self.V)
        ez = z3.RealVal(str(Q(e)))
        if k == "lt":
            return SBool(z < ez, z >= -ez)
        eq = z3.And(z <= ez, z >= -ez) if e else z == 0
        return SBool(eq, z3.BoolVal(True) if e else z != 0)


# Every operation is deterministic: repeated on the same machine values it gives the same machine value, whatever
# is known of its rounding.  `src` numbers the machine values, so that a comparison of two such results is exact.
def _sourced(name):
    op = getattr(Dom, name)
    commutes = name in ("mul",)

    def f(self, *args, **kw):
        r = op(self, *args, **kw)
        if type(r) is RVal and r.src is None and not any(r is a for a in args):
            key = []
            for a in args:
                if type(a) is RVal:
                    key.append(self.source(a))
                elif type(a) is float:
                    key.append((1, a.hex()))
                elif isinstance(a, (int, str, bool)):
                    key.append((2, str(a)))
                else:
                    return r
            if commutes:
                key[:2] = sorted(key[:2])
            r.src = self.sources.setdefault((name, tuple(key), tuple(sorted(kw.items()))), len(self.sources))
        return r
    setattr(Dom, name, f)


for _n in ("add", "neg", "mul", "div", "fabs", "sqrt", "trig", "atan2", "asin", "fmod", "rint", "powi", "pow", "ext", "trunc"):
    _sourced(_n)


def _pow2(q):
    q = abs(q)
    n, d = q.numerator, q.denominator
    return (n & (n - 1)) == 0 and (d & (d - 1)) == 0


def _trig_iv(lo, hi, which):
    f = math.cos if which == 0 else math.sin
    off = 0.0 if which == 0 else math.pi / 2
    a, b = f(lo), f(hi)
    mn, mx = min(a, b), max(a, b)
    # maxima at off + 2k pi, minima at off + pi + 2k pi
    k = math.ceil((lo - off) / (2 * math.pi))
    if off + 2 * math.pi * k <= hi:
        mx = 1.0
    k = math.ceil((lo - off - math.pi) / (2 * math.pi))
    if off + math.pi + 2 * math.pi * k <= hi:
        mn = -1.0
    return max(-1.0, mn - 1e-12), min(1.0, mx + 1e-12)


def fcmp_c(pred, a, b):
    if pred == "true":
        return 1
    if pred == "false":
        return 0
    nan = a != a or b != b
    if pred == "ord":
        return int(not nan)
    if pred == "uno":
        return int(nan)
    k = pred[1:]
    if nan:
        return 1 if pred[0] == "u" else 0
    return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[k])
