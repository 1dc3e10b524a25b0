"""Models of everything the executor does not run from IR: harness intrinsics,
libm, allocation, the C++ exception runtime, and no-op stubs for iostreams."""
import math
import re
import os
import sys

import z3

from sym import *  # noqa
from sym import UNDEF, _trig_iv


def install(E):
    from exec import Ptr, Obj, VFThrow, Bug, PathEnd, sx, mask, Infeasible
    H = E.handlers
    NUMT = (float, RVal, BVal)

    def h(*names):
        def deco(f):
            for n in names:
                H[n] = f
            return f
        return deco

    # ------------------------------------------------------------------ inputs
    def add_input(E, name, kind, terms, meta=None):
        name = name.replace(" ", "_")
        k = E.inidx.get(name, 0)
        E.inidx[name] = k + 1
        E.inputs.append(("%s#%d" % (name, k), kind, terms, meta))

    def fin(x):
        if type(x) is not float:
            raise Unsupported("symbolic bound in an input declaration")
        return x

    def real(E, name, lo, hi, bits):
        if E.domain == "R":
            i = E.D.V.new(name)
            E.D.V.rng[i] = (lo, hi)
            z = E.D.V.z[i]
            E.assume_def(z3.And(z >= z3.RealVal(str(Q(lo))), z <= z3.RealVal(str(Q(hi)))))
            add_input(E, name, "f%d" % bits, [z], (lo, hi))
            return RVal(Poly.var(i), 0.0, lo, hi)
        E.nfresh += 1
        bv = z3.BitVec("%s!%d" % (name, E.nfresh), bits)
        t = z3.fpBVToFP(bv, fsort(bits))
        if not (lo == -INF and hi == INF):
            E.assume_def(z3.And(z3.fpLEQ(t, fpconst(hi, bits)), z3.fpGEQ(t, fpconst(lo, bits))))
        else:
            # any value; a single canonical NaN pattern
            E.assume_def(z3.Not(z3.fpIsNaN(t)))
        add_input(E, name, "b%d" % bits, [bv], (lo, hi))
        return BVal(t, bits)

    @h("vf_real")
    def vf_real(E, a, I):
        return real(E, E.cstr(a[0]), fin(a[1]), fin(a[2]), 32)

    @h("vf_dreal")
    def vf_dreal(E, a, I):
        return real(E, E.cstr(a[0]), fin(a[1]), fin(a[2]), 64)

    @h("vf_float")
    def vf_float(E, a, I):
        """any float: finite, infinite or NaN"""
        if E.domain == "R":
            raise Unsupported("vf_float in R domain")
        E.nfresh += 1
        name = E.cstr(a[0])
        bv = z3.BitVec("%s!%d" % (name, E.nfresh), 32)
        t = z3.fpBVToFP(bv, F32S)
        add_input(E, name, "b32", [bv], None)
        return BVal(t, 32)

    @h("vf_lazy")
    def vf_lazy(E, a, I):
        E.lazy = bool(a[0])

    @h("vf_angle")
    def vf_angle(E, a, I):
        r = real(E, E.cstr(a[0]), fin(a[1]), fin(a[2]), 32)
        if E.domain == "R":
            E.D.angle_unit(r, a[3])
        return r

    @h("vf_int")
    def vf_int(E, a, I):
        name = E.cstr(a[0])
        lo, hi = sx(a[1], 32), sx(a[2], 32)
        if E.domain == "R":
            i = E.D.V.new(name, integer=True)
            E.D.V.rng[i] = (float(lo), float(hi))
            z = E.D.V.z[i]
            E.assume_def(z3.And(z >= lo, z <= hi))
            add_input(E, name, "int", [z], (lo, hi))
            return RInt(RVal(Poly.var(i), 0.0, float(lo), float(hi)), 32)
        E.nfresh += 1
        bv = z3.BitVec("%s!%d" % (name, E.nfresh), 32)
        E.assume_def(z3.And(bv >= lo, bv <= hi))
        add_input(E, name, "i32", [bv], (lo, hi))
        return bv

    @h("vf_choice")
    def vf_choice(E, a, I):
        name = E.cstr(a[0])
        n = a[1]
        i = len(E.decisions)
        if i < len(E.prefix):
            v = E.prefix[i]
        else:
            v = 0
            for x in range(n - 1, 0, -1):
                E.work.append(E.decisions + [x])
        E.decisions.append(v)
        add_input(E, name, "const", [v], (0, n - 1))
        return v

    @h("vf_unitn")
    def vf_unitn(E, a, I):
        """vf_unitn(name, n, float*out): a unit vector of dimension n, rounded to float"""
        name, n, out = E.cstr(a[0]), a[1], a[2]
        V = E.D.V
        if E.domain != "R":
            raise Unsupported("vf_unitn in B domain")
        ids = [V.new(name + str(i)) for i in range(n)]
        for i in ids:
            V.rng[i] = (-1.0, 1.0)
        p = Poly.const(1)
        s = 0
        for i in ids[1:]:
            p = p - Poly({((i, 2),): Q(1)})
        V.sq[ids[0]] = p
        for i in ids:
            s = V.z[i] * V.z[i] + s
            E.assume_def(z3.And(V.z[i] >= -1, V.z[i] <= 1))
        E.assume_def(s == 1)
        add_input(E, name, "unit%d" % n, [V.z[i] for i in ids])
        for k, i in enumerate(ids):
            E.store(Ptr(out.obj, out.off + 4 * k), RVal(Poly.var(i), U32 * 1.0, -1.0, 1.0), E.ftype(32))

    @h("vf_qshift")
    def vf_qshift(E, a, I):
        """unit quaternion (f - sg*q_k, x, y, z) with f in [lo,hi] as the base variable; returns f"""
        name, k, sg, lo, hi, out = E.cstr(a[0]), a[1], sx(a[2], 32), fin(a[3]), fin(a[4]), a[5]
        V = E.D.V
        f = V.new(name + "f")
        V.rng[f] = (lo, hi)
        v = {i: V.new(name + str(i)) for i in (1, 2, 3)}
        for i in v.values():
            V.rng[i] = (-1.0, 1.0)
            E.assume_def(z3.And(V.z[i] >= -1, V.z[i] <= 1))
        E.assume_def(z3.And(V.z[f] >= z3.RealVal(str(Q(lo))), V.z[f] <= z3.RealVal(str(Q(hi)))))
        w = Poly.var(f) - Poly.var(v[k]).scale(Q(sg))
        j = 2 if k == 1 else 1
        p = Poly.const(1) - pmul(w, w, V)
        for i in (1, 2, 3):
            if i != j:
                p = p - pmul(Poly.var(v[i]), Poly.var(v[i]), V)
        V.sq[v[j]] = p
        wz = pz3(w, V)
        E.assume_def(wz * wz + sum(V.z[i] * V.z[i] for i in v.values()) == 1)
        E.assume_def(z3.And(wz <= 1, wz >= -1))
        add_input(E, name, "unit4", [wz] + [V.z[v[i]] for i in (1, 2, 3)])
        E.store(Ptr(out.obj, out.off), RVal(w, U32 * 1.0, -1.0, 1.0), E.ftype(32))
        for i in (1, 2, 3):
            E.store(Ptr(out.obj, out.off + 4 * i), RVal(Poly.var(v[i]), U32 * 1.0, -1.0, 1.0), E.ftype(32))
        return RVal(Poly.var(f), U32 * 2.0, lo, hi)

    @h("vf_root")
    def vf_root(E, a, I):
        """hint: if the argument of a later square root is exactly r*r, the root is |r|"""
        if type(a[0]) is RVal:
            E.roots[pmul(a[0].p, a[0].p, E.D.V).key()] = a[0]

    @h("vf_assume")
    def vf_assume(E, a, I):
        E.assume(a[0])

    @h("vf_assert")
    def vf_assert(E, a, I):
        c = a[0]
        msg = E.cstr(a[1])
        E.reached.add(msg)
        if c is UNDEF:
            raise Bug("uninit", "assertion '%s' depends on uninitialised data" % msg)
        if type(c) is int:
            E.obligation(msg, z3.BoolVal(not c), [z3.BoolVal(not c)])
            if not c:
                raise PathEnd("assertion false")
            return
        c = E.tosb(c)
        strong = []
        if E.domain == "R":
            strong = [z3.Not(c.t)]
        E.obligation(msg, c.f, strong + [c.f])
        E.pc.append(c.t)

    def close(E, a, b, tol, msg):
        E.reached.add(msg)
        if a is UNDEF or b is UNDEF:
            raise Bug("uninit", "'%s' compares uninitialised data" % msg)
        if type(a) is float and type(b) is float:
            bad = not (abs(a - b) <= tol or a == b)
            E.obligation(msg, z3.BoolVal(bad), [z3.BoolVal(bad)])
            return
        if type(a) is BVal or type(b) is BVal:
            x, y = E.D.B(a, 64), E.D.B(b, 64)
            d = z3.fpAbs(z3.fpSub(RNE, x, y))
            ok = z3.Or(z3.fpLEQ(d, fpconst(tol, 64)), z3.fpEQ(x, y))
            E.obligation(msg, z3.Not(ok), [z3.Not(ok)])
            E.pc.append(ok)
            return
        if (type(a) is float and (a != a or abs(a) == INF)) or (type(b) is float and (b != b or abs(b) == INF)):
            E.obligation(msg, z3.BoolVal(True), [z3.BoolVal(True)])
            raise PathEnd("non-finite")
        a, b = E.D.R(a), E.D.R(b)
        d = a.p - b.p
        e = (a.e + b.e) * GROW
        E.maxerr = max(E.maxerr, e)
        z = pz3(d, E.D.V)
        iv = E.D.polyiv(d) if 0 < len(d.m) <= 60 else None
        if iv is not None and max(-iv[0], iv[1]) < (tol - e) * 0.99 and e <= tol * 0.9:
            E.obligation(msg, z3.BoolVal(False), [])        # the variables' ranges already decide it
            E.outs.append((msg, a, b))
            return

        def gt(x):
            xz = z3.RealVal(str(Q(x)))
            return z3.Or(z > xz, z < -xz)
        strong = [gt(tol * k + e) for k in (3e4, 300, 10, 1)]
        if e > tol * 0.9:
            E.obligation("%s [rounding-error bound %.3g is not below the tolerance %.3g]" % (msg, e, tol), z3.BoolVal(True), strong + [z3.BoolVal(True)])
            E.outs.append((msg, a, b))
            return
        if os.environ.get("VF_RES"):
            print("RES", msg[:30], pz3(d, E.D.V), "::", a, b, file=sys.stderr)
        E.obligation(msg, gt(tol - e), strong + [gt(tol - e)], poly=d)
        if not d.is_const():
            xz = z3.RealVal(str(Q(tol + e)))
            E.pc_soft.append(z3.And(z <= xz, z >= -xz))
        E.outs.append((msg, a, b))

    @h("vf_close")
    def vf_close(E, a, I):
        close(E, a[0], a[1], a[2], E.cstr(a[3]))

    @h("vf_same")
    def vf_same(E, a, I):
        x, y, msg = a[0], a[1], E.cstr(a[2])
        if x is y:      # a copy of the same computed value
            E.reached.add(msg)
            E.obligation(msg, z3.BoolVal(False), [z3.BoolVal(False)])
            return
        if type(x) is RVal or type(y) is RVal:
            m = max(v.mag() if type(v) is RVal else abs(v) for v in (x, y))
            return close(E, x, y, 1e-6 * max(1.0, m), msg)
        E.reached.add(msg)
        if x is UNDEF or y is UNDEF:
            raise Bug("uninit", "'%s' compares uninitialised data" % msg)
        if type(x) is float and type(y) is float:
            bad = not (x == y or (x != x and y != y))
            E.obligation(msg, z3.BoolVal(bad), [z3.BoolVal(bad)])
            return
        p, q = E.D.B(x, 32), E.D.B(y, 32)
        ok = z3.Or(z3.fpEQ(p, q), z3.And(z3.fpIsNaN(p), z3.fpIsNaN(q))) if p is not q else z3.BoolVal(True)
        if p.eq(q):
            ok = z3.BoolVal(True)
        E.obligation(msg, z3.Not(ok), [z3.Not(ok)])

    @h("vf_bound")
    def vf_bound(E, a, I):
        """proved interval fact about the exact value of an expression"""
        x, lo, hi = a[0], a[1], a[2]
        if type(x) is not RVal:
            return
        if x.p.is_const():
            return
        k = x.p.key()
        z = pz3(x.p, E.D.V)
        lo0 = lo - 1e-9
        hi0 = hi + 1e-9
        iv = E.D.polyiv(x.p)
        r = z3.unsat
        if iv is None or iv[0] < lo0:
            r, m = E.query([z < z3.RealVal(str(Q(lo0)))], E.lim["ob_ms"])
        if r == z3.unsat and (iv is None or iv[1] > hi0):
            r, m = E.query([z > z3.RealVal(str(Q(hi0)))], E.lim["ob_ms"])
        if r == z3.unsat:
            E.facts[k] = (lo0, hi0)
            E.ivfacts[k] = (lo0, hi0)
            E.ivfacts[x.p.neg().key()] = (-hi0, -lo0)
            E.nfacts += 1
        else:
            E.notes.append("interval fact not proved: [%g,%g] (%s)" % (lo, hi, r))

    @h("vf_fact")
    def vf_fact(E, a, I):
        """stated (not proved) range of an exact value, e.g. a rotation entry"""
        x, lo, hi = a[0], a[1], a[2]
        if type(x) is not RVal or x.p.is_const():
            return x
        lo, hi = widen((lo, hi))
        E.ivfacts[x.p.key()] = (lo, hi)
        E.ivfacts[x.p.neg().key()] = (-hi, -lo)
        return RVal(x.p, x.e, max(lo, x.lo), min(hi, x.hi))

    @h("vf_symbolic")
    def vf_symbolic(E, a, I):
        return 1

    @h("vf_reach")
    def vf_reach(E, a, I):
        E.reached.add(E.cstr(a[0]))

    # -------------------------------------------------------------------- libm
    def m1(f):
        def g32(E, a, I):
            return f(E, a[0], 32)

        def g64(E, a, I):
            return f(E, a[0], 64)
        return g32, g64

    def reg(base, f, *extra):
        a, b = m1(f)
        H[base + "f"] = a
        H[base] = b
        H["llvm.%s.f32" % base] = a
        H["llvm.%s.f64" % base] = b
    reg("sin", lambda E, x, w: E.D.trig(x, w, 1))
    reg("cos", lambda E, x, w: E.D.trig(x, w, 0))
    reg("sqrt", lambda E, x, w: E.D.sqrt(x, w))
    reg("asin", lambda E, x, w: E.D.asin(x, w))
    reg("acos", lambda E, x, w: E.D.asin(x, w, True))
    reg("fabs", lambda E, x, w: E.D.fabs(x))
    for nm in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
        reg(nm, lambda E, x, w, nm=nm: E.D.rint(x, {"nearbyint": "rint"}.get(nm, nm)))

    def tan(E, x, w):
        return E.D.div(E.D.trig(x, 64, 1), E.D.trig(x, 64, 0), w)
    reg("tan", tan)

    def atan(E, x, w):
        return E.D.atan2(x, 1.0, w)
    reg("atan", atan)

    def sincos(w):
        def f(E, a, I):
            E.store(a[1], E.D.trig(a[0], w, 1), E.ftype(w))
            E.store(a[2], E.D.trig(a[0], w, 0), E.ftype(w))
        return f
    H["sincosf"] = sincos(32)
    H["sincos"] = sincos(64)

    def vec(f):
        return f

    def m2(base, f, llvm=True):
        H[base + "f"] = lambda E, a, I: f(E, a[0], a[1], 32)
        H[base] = lambda E, a, I: f(E, a[0], a[1], 64)
        H["llvm.%s.f32" % base] = H[base + "f"]
        H["llvm.%s.f64" % base] = H[base]
    m2("atan2", lambda E, x, y, w: E.D.atan2(x, y, w))
    m2("fmod", lambda E, x, y, w: E.D.fmod(x, y, w))
    m2("pow", lambda E, x, y, w: E.D.pow(x, y, w))

    def hypot(E, x, y, w):
        return E.D.sqrt(E.D.add(E.D.mul(x, x, 64), E.D.mul(y, y, 64), 64), w)
    m2("hypot", hypot)

    def minmax(mx):
        def f(E, x, y, w):
            if type(x) is float and x != x:
                return y
            if type(y) is float and y != y:
                return x
            c = E.D.cmp("ogt" if mx else "olt", x, y, w)
            if type(c) is int:
                return x if c else y
            if type(x) is BVal or type(y) is BVal:
                X, Y = E.D.B(x, w), E.D.B(y, w)
                return BVal(z3.If(z3.fpIsNaN(Y), X, z3.If(z3.fpIsNaN(X), Y, z3.If(c.t, X, Y))), w)
            return x if E.fork(c) else y
        return f
    m2("fmax", minmax(True))
    m2("fmin", minmax(False))
    for nm, mx in (("maxnum", True), ("minnum", False), ("maximum", True), ("minimum", False)):
        f = minmax(mx)
        H["llvm.%s.f32" % nm] = lambda E, a, I, f=f: f(E, a[0], a[1], 32)
        H["llvm.%s.f64" % nm] = lambda E, a, I, f=f: f(E, a[0], a[1], 64)

    def copysign(E, x, y, w):
        if type(x) is float and type(y) is float:
            return math.copysign(x, y)
        if type(x) is BVal or type(y) is BVal:
            X, Y = E.D.B(x, w), E.D.B(y, w)
            ax = z3.fpAbs(X)
            return BVal(z3.If(z3.fpIsNegative(Y), z3.fpNeg(ax), ax), w)
        neg = math.copysign(1, y) < 0 if type(y) is float else E.fork(E.D.cmp("olt", y, 0.0))
        r = E.D.fabs(x)
        return E.D.neg(r) if neg else r
    m2("copysign", copysign)

    def fma(E, a, I, w):
        return E.fop("fadd", E.fop("fmul", a[0], a[1], w), a[2], w)
    H["llvm.fmuladd.f32"] = lambda E, a, I: fma(E, a, I, 32)
    H["llvm.fmuladd.f64"] = lambda E, a, I: fma(E, a, I, 64)
    H["llvm.powi.f32.i32"] = lambda E, a, I: E.D.powi(a[0], sx(a[1], 32), 32)
    H["llvm.powi.f64.i32"] = lambda E, a, I: E.D.powi(a[0], sx(a[1], 32), 64)

    def isfpclass(E, a, I):
        x, m = a[0], a[1]
        if type(x) is float:
            c = 0
            if x != x:
                c = 3
            elif x == -INF:
                c = 4
            elif x == INF:
                c = 0x200
            elif x == 0:
                c = 0x20 if math.copysign(1, x) < 0 else 0x40
            else:
                c = (8 | 0x10) if x < 0 else (0x80 | 0x100)
            return int(bool(c & m))
        if type(x) is RVal:
            if m & 3 == 3 and not m & ~3:
                return 0
            if m in (0x204, 0x207):
                return 0
            if m in (0x1f8,):
                return 1
            raise Unsupported("is.fpclass %#x" % m)
        t = x.t
        cs = []
        if m & 3:
            cs.append(z3.fpIsNaN(t))
        neg, pos = z3.fpIsNegative(t), z3.fpIsPositive(t)
        for bit, c in ((4, z3.And(z3.fpIsInf(t), neg)), (0x200, z3.And(z3.fpIsInf(t), pos)),
                       (8, z3.And(z3.fpIsNormal(t), neg)), (0x100, z3.And(z3.fpIsNormal(t), pos)),
                       (0x10, z3.And(z3.fpIsSubnormal(t), neg)), (0x80, z3.And(z3.fpIsSubnormal(t), pos)),
                       (0x20, z3.And(z3.fpIsZero(t), neg)), (0x40, z3.And(z3.fpIsZero(t), pos))):
            if m & bit:
                cs.append(c)
        return SBool(z3.Or(*cs))
    H["llvm.is.fpclass.f32"] = isfpclass
    H["llvm.is.fpclass.f64"] = isfpclass

    def lround(E, a, I):
        r = E.D.rint(a[0], "round")
        return E.fptosi(r, 64, 64, True)
    H["lroundf"] = H["lround"] = lround
    H["llvm.lround.i64.f32"] = H["llvm.lround.i64.f64"] = lround

    # integers
    def imm(pred):
        def f(E, a, I):
            w = I.ty.bits
            c = E.icmp(pred, a[0], a[1], w)
            return E.select(c, a[0], a[1], I.ty)
        return f
    for nm, pred in (("smax", "sgt"), ("smin", "slt"), ("umax", "ugt"), ("umin", "ult")):
        for w in (8, 16, 32, 64):
            H["llvm.%s.i%d" % (nm, w)] = imm(pred)

    def iabs(E, a, I):
        w = I.ty.bits
        c = E.icmp("slt", a[0], 0, w)
        return E.select(c, E.iop("sub", 0, a[0], w), a[0], I.ty)
    H["llvm.abs.i32"] = H["llvm.abs.i64"] = iabs

    def ovf(op, signed):
        def f(E, a, I):
            w = I.ty.fields[0].bits
            if type(a[0]) is int and type(a[1]) is int:
                x, y = (sx(a[0], w), sx(a[1], w)) if signed else (a[0], a[1])
                r = x + y if op == "add" else x - y if op == "sub" else x * y
                o = not (-(1 << (w - 1)) <= r < (1 << (w - 1))) if signed else not (0 <= r < (1 << w))
                return (r & mask(w), int(o))
            raise Unsupported("overflow intrinsic on symbolic integers")
        return f
    for op in ("add", "sub", "mul"):
        for w in (32, 64):
            H["llvm.u%s.with.overflow.i%d" % (op, w)] = ovf(op, False)
            H["llvm.s%s.with.overflow.i%d" % (op, w)] = ovf(op, True)

    def usubsat(E, a, I):
        if type(a[0]) is int and type(a[1]) is int:
            return max(0, a[0] - a[1])
        raise Unsupported("usub.sat")
    H["llvm.usub.sat.i64"] = H["llvm.usub.sat.i32"] = usubsat

    def ctlz(E, a, I):
        w = I.ty.bits
        if type(a[0]) is int:
            return w - a[0].bit_length()
        raise Unsupported("ctlz")
    H["llvm.ctlz.i64"] = H["llvm.ctlz.i32"] = ctlz

    def cttz(E, a, I):
        w = I.ty.bits
        if type(a[0]) is int:
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
        raise Unsupported("cttz")
    H["llvm.cttz.i64"] = H["llvm.cttz.i32"] = cttz

    def bswap(E, a, I):
        n = I.ty.bits // 8
        return int.from_bytes(a[0].to_bytes(n, "little"), "big")
    H["llvm.bswap.i32"] = H["llvm.bswap.i64"] = bswap

    def fsh(left):
        def f(E, a, I):
            w = I.ty.bits
            if all(type(x) is int for x in a):
                s = a[2] % w
                c = (a[0] << w) | a[1]
                return (c >> (w - s)) & mask(w) if left else (c >> s) & mask(w)
            raise Unsupported("funnel shift")
        return f
    H["llvm.fshl.i32"] = H["llvm.fshl.i64"] = fsh(True)
    H["llvm.fshr.i32"] = H["llvm.fshr.i64"] = fsh(False)

    def ctpop(E, a, I):
        if type(a[0]) is int:
            return bin(a[0]).count("1")
        w = I.ty.bits
        b = E.tobv(a[0], w)
        r = z3.BitVecVal(0, w)
        for i in range(w):
            r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, b))
        return r
    H["llvm.ctpop.i32"] = H["llvm.ctpop.i64"] = H["llvm.ctpop.i8"] = ctpop
    H["llvm.expect.i1"] = H["llvm.expect.i64"] = lambda E, a, I: a[0]
    H["llvm.is.constant.i64"] = H["llvm.is.constant.i32"] = lambda E, a, I: 0
    H["llvm.objectsize.i64.p0"] = lambda E, a, I: mask(64)

    def vreduce(op):
        def f(E, a, I):
            r = None
            for x in a[-1]:
                r = x if r is None else E.iop(op, r, x, I.ty.bits)
            return r
        return f
    for op in ("and", "or", "xor", "add"):
        H["llvm.vector.reduce." + op] = vreduce(op)

    # ------------------------------------------------------------------ memory
    @h("llvm.memcpy", "llvm.memcpy.p0.p0.i64", "llvm.memmove", "llvm.memmove.p0.p0.i64", "memcpy", "memmove")
    def memcpy(E, a, I):
        E.memcpy(a[0], a[1], a[2])
        return a[0]

    @h("llvm.memset", "llvm.memset.p0.i64", "memset")
    def memset(E, a, I):
        E.memset(a[0], a[1], a[2])
        return a[0]

    def byte(E, p, i):
        return E.load(E.padd(p, i), E.T8)

    @h("memcmp", "bcmp", "strncmp")
    def memcmp(E, a, I):
        n = E.concretize(a[2])
        for i in range(n):
            x, y = byte(E, a[0], i), byte(E, a[1], i)
            if type(x) is not int or type(y) is not int:
                c = E.icmp("eq", x, y, 8)
                if E.fork(c) if type(c) is not int else c:
                    continue
                lt = E.icmp("ult", x, y, 8)
                return mask(32) if (E.fork(lt) if type(lt) is not int else lt) else 1
            if x != y:
                return mask(32) if x < y else 1
        return 0

    @h("strcmp")
    def strcmp(E, a, I):
        x, y = E.cstr(a[0]), E.cstr(a[1])
        return 0 if x == y else mask(32) if x < y else 1

    @h("strlen")
    def strlen(E, a, I):
        return len(E.cstr(a[0]))

    @h("memchr")
    def memchr(E, a, I):
        for i in range(E.concretize(a[2])):
            if byte(E, a[0], i) == a[1] & 255:
                return E.padd(a[0], i)
        return 0

    @h("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
    def new(E, a, I):
        n = E.concretize(a[0], "allocation size")
        if n > 1 << 24:
            raise Bug("memory", "allocation of %d bytes" % n)
        o = E.newobj(n, "heap block of %d bytes" % n, True)
        return Ptr(o, 0)

    @h("calloc")
    def calloc(E, a, I):
        n = E.concretize(a[0]) * E.concretize(a[1])
        p = Ptr(E.newobj(n, "heap block of %d bytes" % n, True), 0)
        E.memset(p, 0, n)
        return p

    @h("aligned_alloc")
    def aalloc(E, a, I):
        return new(E, [a[1]], I)

    @h("posix_memalign")
    def pmem(E, a, I):
        E.store(a[0], new(E, [a[2]], I), E.TP)
        return 0

    @h("realloc")
    def realloc(E, a, I):
        p = new(E, [a[1]], I)
        if isinstance(a[0], Ptr):
            E.memcpy(p, a[0], min(a[0].obj.size, p.obj.size))
            a[0].obj.dead = True
        return p

    @h("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t")
    def delete(E, a, I):
        p = a[0]
        if type(p) is int and p == 0:
            return None
        if not isinstance(p, Ptr) or not p.obj.heap or p.off != 0:
            raise Bug("memory", "free of a pointer that was not allocated")
        if p.obj.dead:
            raise Bug("memory", "double free")
        p.obj.dead = True

    # -------------------------------------------------------------- exceptions
    @h("__cxa_allocate_exception")
    def cxa_alloc(E, a, I):
        return Ptr(E.newobj(a[0], "exception", True), 0)

    @h("__cxa_free_exception", "__cxa_guard_abort", "__cxa_call_unexpected")
    def nop(E, a, I):
        return None

    @h("__cxa_throw")
    def cxa_throw(E, a, I):
        t = VFThrow(a[0], a[1])
        E.throws[a[0].obj.id] = t
        raise t

    @h("__cxa_begin_catch")
    def begin_catch(E, a, I):
        E.caught.append(a[0])
        return a[0]

    @h("__cxa_get_exception_ptr")
    def get_exc(E, a, I):
        return a[0]

    @h("__cxa_end_catch")
    def end_catch(E, a, I):
        if E.caught:
            E.caught.pop()

    @h("__cxa_rethrow")
    def rethrow(E, a, I):
        p = E.caught[-1]
        raise E.throws[p.obj.id]

    @h("llvm.eh.typeid.for", "llvm.eh.typeid.for.p0")
    def typeid_for(E, a, I):
        if type(a[0]) is int:
            return E.tid_all()
        return E.tid(a[0])

    @h("__cxa_guard_acquire")
    def guard_acq(E, a, I):
        k = (a[0].obj.name, a[0].off)
        if E.static_guard.get(k):
            return 0
        E.static_guard[k] = True
        return 1

    @h("__cxa_guard_release")
    def guard_rel(E, a, I):
        E.store(a[0], 1, E.T8)

    @h("__cxa_atexit", "__cxa_thread_atexit")
    def atexit(E, a, I):
        return 0

    @h("__dynamic_cast")
    def dyncast(E, a, I):
        p, st, dt = a[0], a[1], a[2]
        if type(p) is int and p == 0:
            return 0
        vp = E.load(p, E.TP)
        ti = E.load(Ptr(vp.obj, vp.off - 8), E.TP)
        top = E.load(Ptr(vp.obj, vp.off - 16), E.itype(64))
        full = Ptr(p.obj, p.off + sx(top, 64))

        def find(t, off):
            if E.tname(t) == E.tname(dt):
                return off
            o = t.obj
            if not o.init:
                E.ginit(o)
            if o.opaque:
                return None
            vn = o.cells[0][1].obj.name
            if "vmi" in vn:
                for i in range(o.cells[20][1]):
                    b = o.cells[24 + 16 * i][1]
                    of = o.cells[32 + 16 * i][1] >> 8
                    r = find(b, off + of)
                    if r is not None:
                        return r
                return None
            for b in E.bases(t):
                r = find(b, off)
                if r is not None:
                    return r
            return None
        r = find(ti, 0)
        return 0 if r is None else Ptr(full.obj, full.off + r)

    def boom(kind, what):
        def f(E, a, I):
            raise Bug(kind, what)
        return f
    H["abort"] = boom("abort", "abort()")
    H["_ZSt9terminatev"] = boom("abort", "std::terminate()")
    H["__cxa_pure_virtual"] = boom("abort", "pure virtual call")
    H["exit"] = H["_exit"] = boom("abort", "exit()")

    @h("__assert_fail")
    def assert_fail(E, a, I):
        raise Bug("assert", "assertion '%s' failed at %s:%d" % (E.cstr(a[0]), E.cstr(a[1]).split("/")[-1], a[2]))

    def thrower(ti):
        def f(E, a, I):
            import ir
            g = E.M.globals.get(ti)
            if g is None:
                g = ir.Global(ti, None)
                g.init = False
                E.M.globals[ti] = g
            p = Ptr(E.newobj(64, "exception", True), 0)
            t = VFThrow(p, Ptr(E.glob(g), 0))
            E.throws[p.obj.id] = t
            raise t
        return f
    for fn, ti in (("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"),
                   ("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"),
                   ("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"),
                   ("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"),
                   ("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"),
                   ("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"),
                   ("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"),
                   ("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"),
                   ("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"),
                   ("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast")):
        H[fn] = thrower(ti)

    # std exception classes: the message is kept (offset 8) and what() returns it
    def vfn(E, name):
        import ir
        f = E.M.functions.get(name)
        if f is None:
            f = E.M.functions[name] = ir.Function(name, None)
        return E.fptr(f)

    def exc_init(E, p, text, cls):
        vt = E.newobj(24, "vtable of " + cls)
        pre = "_ZNSt" + cls
        for off, n in ((0, pre + "D2Ev"), (8, pre + "D0Ev"), (16, "_ZNKSt%s4whatEv" % cls)):
            vt.cells[off] = (8, vfn(E, n))
        E.store(p, Ptr(vt, 0), E.TP)
        if p.obj.size >= 16:
            if text is None:
                text = [0]
            o = E.newobj(len(text), "exception text")
            for i, c in enumerate(text):
                o.cells[i] = (1, c)
            E.store(E.padd(p, 8), Ptr(o, 0), E.TP)

    def chars(E, p):
        r = []
        while len(r) < 4096:
            c = E.load(E.padd(p, len(r)), E.T8)
            r.append(c)
            if type(c) is not int:
                return [0]
            if c == 0:
                return r
        return [0]
    for c in ("13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12domain_error", "12length_error",
              "11range_error", "14overflow_error", "15underflow_error", "9exception", "9bad_alloc", "8bad_cast"):
        def from_c(E, a, I, c=c):
            exc_init(E, a[0], chars(E, a[1]), c)

        def from_s(E, a, I, c=c):
            exc_init(E, a[0], chars(E, E.load(a[1], E.TP)), c)

        def what(E, a, I):
            return E.load(E.padd(a[0], 8), E.TP) if a[0].obj.size >= 16 else 0

        def copy(E, a, I, c=c):
            exc_init(E, a[0], None, c)
            if a[0].obj.size >= 16 and a[1].obj.size >= 16:
                E.store(E.padd(a[0], 8), E.load(E.padd(a[1], 8), E.TP), E.TP)
        for suf in ("C1", "C2"):
            H["_ZNSt%s%sEPKc" % (c, suf)] = from_c
            H["_ZNSt%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (c, suf)] = from_s
            H["_ZNSt%s%sERKS_" % (c, suf)] = H["_ZNSt%s%sEOS_" % (c, suf)] = copy
        for suf in ("D1Ev", "D2Ev", "D0Ev"):
            H["_ZNSt%s%s" % (c, suf)] = nop
        H["_ZNKSt%s4whatEv" % c] = what

    @h("gettimeofday", "clock_gettime", "time")
    def env(E, a, I):
        raise Unsupported("environment access")


STUB_RE = re.compile(r"basic_ostream|basic_istream|basic_ios|ios_base|St6locale|basic_stringbuf|basic_ostringstream|"
                     r"basic_stringstream|__basic_file|basic_filebuf|basic_ofstream|basic_ifstream|St5ctype|_ZNSo|_ZNSi|"
                     r"_ZSt16__ostream_insert|_ZStls|_ZSt4endl|_ZNSt8ios_base|__cxa_demangle|_ZStrs|_ZNSs")
# mangled names with substitutions: So = std::ostream, Ss/Sd ...
STR_RE = re.compile(r"3strE?v$")


def put_string(E, p, bs):
    """constructs a std::string with these bytes at p"""
    from exec import Ptr
    if len(bs) <= 15:
        d = E.padd(p, 16)
    else:
        d = Ptr(E.newobj(len(bs) + 1, "string", True), 0)
        E.store(E.padd(p, 16), len(bs), E.itype(64))
    E.store(p, d, E.TP)
    E.store(E.padd(p, 8), len(bs), E.itype(64))
    for i, c in enumerate(bs + [0]):
        E.store(E.padd(d, i), c, E.T8)


def stub(name):
    """text streams: the characters and strings written to a string stream are kept, anything else makes its text unknown (empty)"""
    if not STUB_RE.search(name):
        return None
    if re.search(r"(ostringstream|stringstream|stringbuf).*3strEv$", name) or "3strB5cxx11Ev" in name:
        def f(E, a, I):
            put_string(E, a[0], list(E.streams.get(a[1].obj.id) or []))
        return f
    if re.search(r"basic_o?stringstreamI.*C[12]Ev$", name):
        def f(E, a, I):
            E.streams[a[0].obj.id] = []
            return a[0]
        return f
    if name == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc":
        def get(E, a):
            r, p = [], a[1]
            while len(r) < 4096:
                c = E.load(p, E.T8)
                if type(c) is int and c == 0:
                    break
                r.append(c)
                p = E.padd(p, 1)
            return r
    elif name == "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c":
        def get(E, a):
            return [a[1]]
    elif name.startswith("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_string"):
        def get(E, a):
            p, n = E.load(a[1], E.TP), E.load(E.padd(a[1], 8), E.itype(64))
            return [E.load(E.padd(p, i), E.T8) for i in range(E.concretize(n))]
    elif re.search(r"lsE|_ZStls|St4endl|__ostream_insert", name):
        def get(E, a):
            return None
    else:
        return lambda E, a, I: a[0] if a else None

    def f(E, a, I):
        k = getattr(getattr(a[0], "obj", None), "id", None)
        old = E.streams.get(k)
        if old is not None:
            t = get(E, a)
            E.streams[k] = None if t is None else old + t
        return a[0]
    return f
