"""Symbolic executor over decoded LLVM IR.

Paths are explored by deterministic re-execution with a decision prefix.  Every
two-sided branch asks the solver which sides are feasible; every assertion is a
solver query over all values the path admits.
"""
import os
import ctypes
import math
import re
import struct
import sys
import time
from fractions import Fraction as Q

import z3

import ir
from sym import *  # noqa
from sym import UNDEF, pz3, pmul

sys.setrecursionlimit(20000)
MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}


def mask(w):
    m = MASK.get(w)
    if m is None:
        m = MASK[w] = (1 << w) - 1
    return m


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Infeasible(Exception):
    pass


class VFThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr, self.tinfo = ptr, tinfo


class Bug(Exception):
    """A definite misbehaviour of the code on this path (memory error, abort...)"""

    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


class Budget(Exception):
    pass


class Obj:
    __slots__ = ("id", "size", "cells", "name", "dead", "fn", "g", "base", "opaque", "ro", "init", "heap")

    def __init__(self, i, size, name):
        self.id, self.size, self.name = i, size, name
        self.cells = {}
        self.dead = False
        self.fn = self.g = None
        self.opaque = False
        self.ro = False
        self.init = True
        self.heap = False
        self.base = 0x100000 + i * 0x1000000


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%d" % (self.obj.name, self.off)

    def addr(self):
        return (self.obj.base + self.off) & MASK[64]


class Part:
    """byte `i` of an opaque value"""
    __slots__ = ("v", "n", "i")

    def __init__(self, v, n, i):
        self.v, self.n, self.i = v, n, i


NUMT = (float, RVal, BVal)


def isbv(x):
    return isinstance(x, z3.BitVecRef)


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


STD_BASES = {
    "_ZTISt13runtime_error": "_ZTISt9exception", "_ZTISt11logic_error": "_ZTISt9exception",
    "_ZTISt16invalid_argument": "_ZTISt11logic_error", "_ZTISt12out_of_range": "_ZTISt11logic_error",
    "_ZTISt12length_error": "_ZTISt11logic_error", "_ZTISt12domain_error": "_ZTISt11logic_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt15underflow_error": "_ZTISt13runtime_error", "_ZTISt9bad_alloc": "_ZTISt9exception",
    "_ZTISt8bad_cast": "_ZTISt9exception", "_ZTISt20bad_array_new_length": "_ZTISt9bad_alloc",
    "_ZTISt10bad_typeid": "_ZTISt9exception", "_ZTISt12system_error": "_ZTISt13runtime_error",
}


class Engine:
    def __init__(self, module, domain, limits=None):
        self.M = module
        self.domain = domain
        self.D = Dom(self)
        self.lim = {"steps": 6000000, "paths": 4000, "feas_ms": 3000, "ob_ms": 20000, "wall": 600, "concretize": 64}
        if limits:
            self.lim.update(limits)
        self.funobj = {}
        self.gobj = {}
        self.nobj = 0
        self.stats = {"queries": 0, "solver_s": 0.0, "instructions": 0, "paths": 0, "forks": 0}
        self.encoded = set()
        self.bounds = {}
        self.kcount = 0
        self.handlers = {}
        import models
        models.install(self)
        self.tinfo_ids = {}
        self.reset_path([])

    # ------------------------------------------------------------- path state
    def reset_path(self, prefix):
        self.lazy = False
        self.roots = {}
        self.prng = {}
        self.prefix = list(prefix)
        self.decisions = []
        self.pc = []          # path constraints (z3)
        self.defs = []        # definitions / input ranges (z3)
        self.inputs = []
        self.inidx = {}
        self.D.reset()
        self.objs_live = []
        self.steps = 0
        self.exc = None
        self.caught = []
        self.allocs = 0
        self.linmemo = {}
        self.linmono = {}
        self.linkeep = []
        self.facts = {}
        self.decided = {}
        self.ivfacts = {}
        self.bcache, self.bkeep = {}, []
        self.outs = []
        self.nfresh = 0
        self.bmemo = {}
        self.static_guard = {}
        self.streams = {}
        self.nobj_path = 1 << 20
        for o in self.gobj.values():
            if not o.ro:
                o.cells = {}
                o.init = False
        self.path_obj = None
        self.depth = 0
        self.model_hint = None

    def newobj(self, size, name, heap=False):
        self.nobj_path += 1
        o = Obj(self.nobj_path, size, name)
        o.heap = heap
        return o

    # ------------------------------------------------------------- constraints
    def assume_def(self, c):
        self.defs.append(c)

    def solver(self, ms):
        if self.domain == "R":
            s = z3.SolverFor("QF_NRA") if not self.D.V.isint else z3.Solver()
        elif self.domain == "B":
            s = z3.SolverFor("QF_BVFP") if False else z3.Solver()
        else:
            s = z3.Solver()
        s.set("timeout", int(ms))
        return s

    def linear_unsat(self, ex):
        """unsat already when every nonlinear monomial is a free variable (even ones >= 0)?"""
        try:
            s = z3.SolverFor("QF_LRA") if not self.D.V.isint else z3.Solver()
            s.set("timeout", 400)
            self.linside = []
            fs = [self.linear(f) for f in self.defs] + [self.linear(f) for f in self.pc] + [self.linear(ex)]
            s.add(fs)
            s.add([v >= 0 for v, e in self.linmono.values() if e])
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def linear(self, f):
        memo = self.linmemo
        k = f.get_id()
        r = memo.get(k)
        if r is not None:
            return r[0]
        if f.num_args() == 0:
            r = f
        else:
            kind = f.decl().kind()
            if kind in (z3.Z3_OP_MUL, z3.Z3_OP_POWER):
                coef = z3.RealVal(1)
                fac = []

                def flat(t, n):
                    nonlocal coef
                    kd = t.decl().kind() if z3.is_app(t) else None
                    if z3.is_rational_value(t) or z3.is_int_value(t):
                        for _ in range(n):
                            coef = coef * t
                    elif kd == z3.Z3_OP_MUL:
                        for c in t.children():
                            flat(c, n)
                    elif kd == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 < t.arg(1).numerator_as_long() < 20:
                        flat(t.arg(0), n * t.arg(1).numerator_as_long())
                    elif kd == z3.Z3_OP_UMINUS:
                        if n % 2:
                            coef = -coef
                        flat(t.arg(0), n)
                    else:
                        fac.extend([t] * n)
                flat(f, 1)
                if len(fac) == 0:
                    r = z3.simplify(coef)
                elif len(fac) == 1:
                    r = z3.simplify(coef) * self.linear(fac[0])
                else:
                    ids = sorted(t.get_id() for t in fac)
                    key = tuple(ids)
                    if key not in self.linmono:
                        even = all(ids.count(i) % 2 == 0 for i in ids)
                        self.linmono[key] = (z3.Real("mono!%d" % len(self.linmono)), even)
                        self.linkeep.append(fac)
                    r = z3.simplify(coef) * self.linmono[key][0]
            else:
                ch = [self.linear(c) for c in f.children()]
                r = f.decl()(*ch) if kind != z3.Z3_OP_ADD and kind != z3.Z3_OP_AND and kind != z3.Z3_OP_OR else \
                    z3.Sum(ch) if kind == z3.Z3_OP_ADD else z3.And(ch) if kind == z3.Z3_OP_AND else z3.Or(ch)
        memo[k] = (r, f)
        return r

    def query(self, extra, ms, quick=True):
        """sat/unsat/unknown of defs & pc & extra; returns (verdict, model)"""
        t0 = time.time()
        self.stats["queries"] += 1
        try:
            ex = z3.simplify(z3.And(*extra)) if extra else z3.BoolVal(True)
            if z3.is_false(ex):
                return z3.unsat, None
            if quick and extra and self.domain == "R":
                s = self.solver(min(ms, 500))
                s.add(ex)
                if s.check() == z3.unsat:
                    return z3.unsat, None
            if self.domain == "R" and self.linear_unsat(ex):
                return z3.unsat, None
            s = self.solver(ms)
            s.add(self.defs)
            s.add(self.pc)
            s.add(ex)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            return r, (s.model() if r == z3.sat else None)
        finally:
            self.stats["solver_s"] += time.time() - t0
            if os.environ.get("VF_SLOW") and time.time() - t0 > float(os.environ["VF_SLOW"]):
                n = len([x for x in os.listdir("/tmp") if x.startswith("vfslow_")])
                s = z3.Solver()
                s.add(self.defs); s.add(self.pc); s.add(ex)
                open("/tmp/vfslow_%d.smt2" % n, "w").write("; %.1fs\n; extra %s\n" % (time.time() - t0, str(extra)[:600].replace("\n", "\n; ")) + s.to_smt2())

    def feasible(self, c):
        if self.lazy:
            return True     # infeasible paths are discharged at their obligations
        r, m = self.query([c], self.lim["feas_ms"], quick=False)
        return r != z3.unsat

    def fork(self, sb):
        """decide a symbolic boolean; both feasible sides are explored"""
        if sb is UNDEF:
            raise Bug("uninit", "branch on an uninitialised value")
        if type(sb) is int:
            return bool(sb)
        base, flip = sb, False
        while base.of is not None:
            base, flip = base.of, not flip
        known = self.decided.get(id(base))
        if known is not None:       # the same machine value: the same decision
            return known[0] != flip
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            t, f = z3.simplify(sb.t), z3.simplify(sb.f)
            if z3.is_false(t):
                d = False
            elif z3.is_false(f):
                d = True
            elif not self.feasible(t):
                d = False
            elif not self.feasible(f):
                d = True
            else:
                d = True
                self.stats["forks"] += 1
                self.work.append(self.decisions + [False])
        self.decisions.append(d)
        self.decided[id(base)] = (d != flip, base)      # keeps the object alive
        c = sb.t if d else sb.f
        if not z3.is_true(c):
            self.pc.append(c)
        return d

    def assume(self, sb):
        if sb is UNDEF:
            raise Bug("uninit", "assumption on an uninitialised value")
        if type(sb) is int:
            if not sb:
                raise Infeasible()
            return
        i = len(self.decisions)
        if i < len(self.prefix):
            self.decisions.append(True)
        else:
            if not self.feasible(sb.t):
                raise Infeasible()
            self.decisions.append(True)
        self.pc.append(sb.t)

    def concretize(self, bv, what="value"):
        """fork over all feasible values of an integer"""
        if type(bv) is int or isinstance(bv, Ptr):
            return bv
        if bv is UNDEF:
            raise Bug("uninit", "use of an uninitialised integer as " + what)
        if type(bv) is RInt:
            return self.rint_value(bv)
        if isinstance(bv, (FBits, Comp)):
            bv = self.tobv(bv)
        bv = z3.simplify(bv)
        if z3.is_bv_value(bv):
            return bv.as_long()
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            block = []
            while True:
                r, m = self.query(block or [z3.BoolVal(True)], self.lim["feas_ms"], quick=False)
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    raise Unsupported("cannot enumerate integer (solver unknown)")
                x = m.eval(bv, model_completion=True).as_long()
                vals.append(x)
                block.append(bv != x)
                if len(vals) > self.lim["concretize"]:
                    raise Unsupported("too many values for a concretised integer")
            if not vals:
                raise Infeasible()
            v = vals[0]
            for x in vals[1:]:
                self.work.append(self.decisions + [x])
        self.decisions.append(v)
        self.pc.append(bv == v)
        return v

    # --------------------------------------------------- interval facts (R)
    def lower(self, a, floor):
        """a proved lower bound of the exact value of a (>= a.lo)"""
        k = a.p.key()
        f = self.facts.get(k)
        if f:
            return max(a.lo, f[0])
        if a.p.is_const():
            return float(a.p.cval())
        kk = ("low", k, floor, len(self.pc))
        if kk in self.D.V.memo:
            return self.D.V.memo[kk]
        sc = max(1.0, a.mag())
        best = max(a.lo, -INF)
        f = self.D.polyiv(a.p) if len(a.p.m) <= 12 else None
        if f is not None:
            best = max(best, f[0])
        z = pz3(a.p, self.D.V)
        for cand in (floor + 0.9, floor + 0.25, floor + 1e-2, floor + 1e-4, floor + 1e-8, floor) if floor >= 0 else (floor,):
            if cand <= best:
                break
            if cand > a.hi:
                continue
            r, _ = self.query([z < z3.RealVal(str(Q(cand)))], 1500)
            if r == z3.unsat:
                best = cand
                break
        self.D.V.memo[kk] = best
        return best

    def upper(self, a, ceil):
        k = a.p.key()
        f = self.facts.get(k)
        if f:
            return min(a.hi, f[1])
        if a.p.is_const():
            return float(a.p.cval())
        kk = ("up", k, ceil, len(self.pc))
        if kk in self.D.V.memo:
            return self.D.V.memo[kk]
        best = a.hi
        z = pz3(a.p, self.D.V)
        for cand in (ceil - 1e-3, ceil):
            if cand < a.lo:
                continue
            r, _ = self.query([z > z3.RealVal(str(Q(cand)))], 1500)
            if r == z3.unsat:
                best = cand
                break
        self.D.V.memo[kk] = best
        return best

    def absmin(self, b):
        if b.lo > 0:
            return b.lo
        if b.hi < 0:
            return -b.hi
        k = b.p.key()
        for k2 in (k, b.p.scale(-1).key()):
            f = self.facts.get(k2)
            if f:
                if f[0] > 0:
                    return f[0]
                if f[1] < 0:
                    return -f[1]
        kk = ("absmin", k, len(self.pc))
        if kk in self.D.V.memo:
            return self.D.V.memo[kk]
        z = pz3(b.p, self.D.V)
        best = 0.0
        for cand in (0.5, 0.05, 5e-3, 5e-4, 5e-6):
            c = z3.RealVal(str(Q(cand)))
            r, _ = self.query([z < c, z > -c], 1500)
            if r == z3.unsat:
                best = cand
                break
        self.D.V.memo[kk] = best
        return best

    def trig_axioms(self, v, c, s, k):
        """sign facts linking an angle variable to its cosine/sine"""
        V = self.D.V
        th = V.z[v] if k == 1 else V.z[v] / k
        pi = z3.RealVal("3.14159265358979")
        h = z3.RealVal("1.5707963267948966")
        C, S = V.z[c], V.z[s]
        self.assume_def(z3.And(
            z3.Implies(z3.And(th > 0, th < pi), S > 0),
            z3.Implies(z3.And(th < 0, th > -pi), S < 0),
            z3.Implies(z3.And(th > -h, th < h), C > 0),
            z3.Implies(z3.Or(z3.And(th > h + z3.RealVal("1/1000000000"), th < 3 * h), z3.And(th < -h - z3.RealVal("1/1000000000"), th > -3 * h)), C < 0),
            z3.Implies(th >= 0, z3.And(S <= th, C >= 1 - th * th / 2)),
            z3.Implies(th <= 0, z3.And(S >= th, C >= 1 - th * th / 2)),
            z3.Implies(th == 0, C == 1)))

    # --------------------------------------------------------------- B domain
    def buf(self, name, x, bits, contract):
        k = (name, x.t.get_id(), bits)
        if k not in self.bmemo:
            self.nfresh += 1
            r = z3.FP("%s!%d" % (name, self.nfresh), fsort(bits))
            self.assume_def(contract(r))
            self.bmemo[k] = (BVal(r, bits), x)
        return self.bmemo[k][0]

    # ------------------------------------------------------------- constants
    def glob(self, G):
        o = self.gobj.get(G.name)
        if o is None:
            self.nobj += 1
            o = Obj(self.nobj, G.size, "@" + G.name)
            o.g = G
            o.ro = G.const
            o.init = False
            self.gobj[G.name] = o
        return o

    def ginit(self, o):
        o.init = True
        c = self.M.ginit(o.g)
        if c is False:
            o.opaque = True
            return
        self.put_const(o, 0, c, c.ty)

    def put_const(self, o, off, c, ty):
        k = c.kind
        if k == "agg":
            if ty.kind == "struct":
                for i, f in enumerate(c.val):
                    self.put_const(o, off + ty.offs[i], f, ty.fields[i])
            else:
                es = ty.elem.size
                for i, f in enumerate(c.val):
                    self.put_const(o, off + i * es, f, ty.elem)
        elif k == "zero":
            for i in range(0, ty.size - ty.size % 8, 8):
                o.cells[off + i] = (8, 0)
            for i in range(ty.size - ty.size % 8, ty.size):
                o.cells[off + i] = (1, 0)
        elif k == "undef":
            pass
        else:
            v = self.cval(c)
            o.cells[off] = (ty.store, v)

    def fptr(self, fn):
        o = self.funobj.get(fn.name)
        if o is None:
            self.nobj += 1
            o = Obj(self.nobj, 0, "fn " + fn.name)
            o.fn = fn
            self.funobj[fn.name] = o
        return Ptr(o, 0)

    def zero(self, ty):
        if ty.kind == "int" or ty.kind == "ptr":
            return 0
        if ty.kind == "float":
            return 0.0
        if ty.kind == "struct":
            return tuple(self.zero(f) for f in ty.fields)
        return tuple(self.zero(ty.elem) for _ in range(ty.n))

    def undef(self, ty):
        if ty.kind == "struct":
            return tuple(self.undef(f) for f in ty.fields)
        if ty.kind in ("vector", "array"):
            return tuple(self.undef(ty.elem) for _ in range(ty.n))
        return UNDEF

    def cval(self, c):
        k = c.kind
        if k == "int":
            return c.val
        if k == "float":
            return c.val
        if k == "null":
            return 0
        if k == "undef":
            return self.undef(c.ty)
        if k == "zero":
            return self.zero(c.ty)
        if k == "agg":
            return tuple(self.cval(x) for x in c.val)
        if k == "global":
            return Ptr(self.glob(c.val), 0)
        if k == "func":
            return self.fptr(c.val)
        if k == "expr":
            op, ops, ex = c.val
            vs = [self.cval(x) for x in ops]
            if op == "gep":
                return self.gep_generic(vs[0], ex, vs[1:])
            if op in ("ptrtoint", "inttoptr", "bitcast"):
                return vs[0]
            if op in ("add", "sub", "and", "or", "xor", "shl", "lshr", "mul"):
                return self.iop(op, vs[0], vs[1], c.ty.bits)
            if op == "trunc":
                return self.itrunc(vs[0], 64, c.ty.bits)
            if op == "icmp":
                return self.icmp(ex, vs[0], vs[1], 64)
            raise Unsupported("constant expression " + op)
        if k == "meta" or k == "other":
            return c
        raise Unsupported("constant kind " + k)

    # --------------------------------------------------------------- integers
    def tobv(self, x, w=None):
        if type(x) is int:
            return z3.BitVecVal(x, w)
        if isbv(x):
            return x
        if isinstance(x, SBool):
            if self.domain == "R":
                return z3.BitVecVal(1 if self.fork(x) else 0, w or 1)
            return z3.If(x.t, z3.BitVecVal(1, w or 1), z3.BitVecVal(0, w or 1))
        if isinstance(x, FBits):
            if type(x.v) is BVal:
                return self.fpbits(x.v)
            raise Unsupported("bits of a real-domain float")
        if isinstance(x, Comp):
            ps = [self.tobv(v if not isinstance(v, NUMT) else FBits(v, n * 8), n * 8) for v, n in x.parts]
            return z3.Concat(*reversed(ps)) if len(ps) > 1 else ps[0]
        if isinstance(x, Ptr):
            return z3.BitVecVal(x.addr(), 64)
        if type(x) is RInt:
            return z3.BitVecVal(self.rint_value(x), w or x.w)
        if x is UNDEF:
            raise Bug("uninit", "use of an uninitialised integer")
        if type(x) is float:
            return z3.BitVecVal(self.f2i(x, w), w)
        raise Unsupported("tobv(%r)" % (x,))

    # integers of the R domain
    def rint_of(self, x, w, signed=True):
        if type(x) is RInt:
            return x.v
        if type(x) is int:
            f = float(sx(x, w) if signed else x)
            return RVal(Poly.const(f), 0.0, f, f)
        return None

    def rint_value(self, x):
        """one path per value"""
        lo, hi = int(math.ceil(x.v.lo)), int(math.floor(x.v.hi))
        if hi - lo > self.lim["concretize"]:
            raise Unsupported("too many values of an R domain integer")
        z = pz3(x.v.p, self.D.V)
        for v in range(lo, hi):
            if self.fork(SBool(z == v)):
                return v & mask(x.w)
        self.pc.append(z == hi)
        if not self.feasible(z == hi):
            raise Infeasible()
        return hi & mask(x.w)

    def mkrint(self, v, w, wrap=False):
        if v.p.is_const():
            return int(v.p.cval()) & mask(w)
        if v.lo < -(2.0 ** (w - 1)) or v.hi >= 2.0 ** (w - 1) or w == 64 and max(-v.lo, v.hi) > 2.0 ** 52:
            raise Unsupported("R domain integer may overflow")
        return RInt(v, w)

    def rint_op(self, op, a, b, w):
        if op == "shl" and type(b) is int and type(a) is RInt:
            op, b = "mul", 1 << b
        if op not in ("add", "sub", "mul"):
            return None
        x, y = self.rint_of(a, w), self.rint_of(b, w)
        if x is None or y is None:
            return None
        p = x.p + y.p if op == "add" else x.p - y.p if op == "sub" else x.p * y.p
        c = (x.lo + y.lo, x.hi + y.hi) if op == "add" else (x.lo - y.hi, x.hi - y.lo) if op == "sub" else None
        if c is None:
            k = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            c = (min(k), max(k))
        return self.mkrint(RVal(p, 0.0, c[0], c[1]), w)

    def rint_cmp(self, pred, a, b, w):
        x, y = self.rint_of(a, w), self.rint_of(b, w)
        if x is None or y is None:
            return None
        if pred[0] == "u" and pred not in ("eq", "ne"):
            if x.lo < 0 or y.lo < 0:
                return None
        if x.lo > y.hi or x.hi < y.lo or x.lo == x.hi == y.lo == y.hi:
            return self.D.cmp({"eq": "oeq", "ne": "une"}.get(pred, "o" + pred[1:]), float(x.lo), float(y.lo), 64)
        d = pz3(x.p - y.p, self.D.V)
        k = pred if pred in ("eq", "ne") else pred[1:]
        t = d == 0 if k == "eq" else d != 0 if k == "ne" else d < 0 if k == "lt" else d <= 0 if k == "le" else d > 0 if k == "gt" else d >= 0
        return SBool(t)

    def fpbits(self, v):
        t = v.t
        if t.decl().kind() == z3.Z3_OP_FPA_TO_FP and t.num_args() == 1 and isbv(t.arg(0)):
            return t.arg(0)
        return z3.fpToIEEEBV(t)

    def f2i(self, x, w):
        if w == 32:
            return struct.unpack("<I", struct.pack("<f", x))[0] if abs(x) != INF and x == x else struct.unpack("<I", bytes(ctypes.c_float(x)))[0]
        return struct.unpack("<Q", struct.pack("<d", x))[0]

    def i2f(self, x, w):
        if w == 32:
            return struct.unpack("<f", struct.pack("<I", x & 0xffffffff))[0]
        return struct.unpack("<d", struct.pack("<Q", x))[0]

    def tosb(self, x):
        if type(x) is int:
            b = z3.BoolVal(bool(x))
            return SBool(b, z3.BoolVal(not x))
        if isinstance(x, SBool):
            return x
        if isbv(x):
            return SBool(z3.Extract(0, 0, x) == 1)
        if x is UNDEF:
            raise Bug("uninit", "boolean operation on an uninitialised value")
        raise Unsupported("tosb(%r)" % (x,))

    def iop(self, op, a, b, w):
        ta, tb = type(a), type(b)
        if ta is tuple or tb is tuple:
            return tuple(self.iop(op, x, y, w) for x, y in zip(a, b))
        if ta is int and tb is int:
            m = mask(w)
            if op == "add":
                return (a + b) & m
            if op == "sub":
                return (a - b) & m
            if op == "mul":
                return (a * b) & m
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & m if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sx(a, w) >> min(b, w - 1)) & m
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise Bug("divzero", "integer division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sx(a, w), sx(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return q & m if op == "sdiv" else (x - q * y) & m
            raise Unsupported(op)
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 if ta is int else b == 0 if tb is int else False):
                return 0
            return UNDEF
        if w == 1:
            if op in ("and", "or", "xor"):
                for x, y in ((a, b), (b, a)):
                    if type(x) is int:
                        if op == "and":
                            return y if x else 0
                        if op == "or":
                            return 1 if x else y
                        return self.tosb(y).neg() if x else y
                a, b = self.tosb(a), self.tosb(b)
                return sb_and(a, b) if op == "and" else sb_or(a, b) if op == "or" else sb_xor(a, b)
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if op == "add" and pa and tb is int:
                return Ptr(a.obj, a.off + sx(b, 64))
            if op == "add" and pb and ta is int:
                return Ptr(b.obj, b.off + sx(a, 64))
            if op == "sub" and pa and tb is int:
                return Ptr(a.obj, a.off - sx(b, 64))
            if op == "sub" and pa and pb and a.obj is b.obj:
                return (a.off - b.off) & MASK[64]
            if op == "and" and pa and tb is int and b == (-16 & MASK[64]) and a.off % 16 == 0:
                return a
            return self.iop(op, a.addr() if pa else a, b.addr() if pb else b, w)
        if ta is RInt or tb is RInt:
            r = self.rint_op(op, a, b, w)
            if r is not None:
                return r
        if isinstance(a, (FBits, Comp, RInt)) or isinstance(b, (FBits, Comp, RInt)):
            r = self.opaque_iop(op, a, b, w)
            if r is not None:
                return r
        a, b = self.tobv(a, w), self.tobv(b, w)
        if op == "add":
            return a + b
        if op == "sub":
            return a - b
        if op == "mul":
            return a * b
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return a << b
        if op == "lshr":
            return z3.LShR(a, b)
        if op == "ashr":
            return a >> b
        if op in ("udiv", "urem", "sdiv", "srem"):
            if self.fork(SBool(b == 0)):
                raise Bug("divzero", "integer division by zero")
            return {"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](a, b)
        raise Unsupported(op)

    def aspart(self, x, w):
        if isinstance(x, Comp):
            return list(x.parts)
        if isinstance(x, FBits):
            return [(x.v, x.bits // 8)]
        if type(x) is int:
            return [((x >> (8 * i)) & 255, 1) for i in range(w // 8)]
        return [(x, w // 8)]

    def mkcomp(self, parts):
        """normalise"""
        out = []
        for v, n in parts:
            if out and type(v) is int and type(out[-1][0]) is int:
                pv, pn = out[-1]
                out[-1] = (pv | (v << (8 * pn)), pn + n)
            else:
                out.append((v, n))
        if len(out) == 1:
            v, n = out[0]
            if isinstance(v, (RVal, BVal)):
                return FBits(v, n * 8)
            if type(v) is float:
                return self.f2i(v, n * 8)
            return v
        return Comp(out)

    def take(self, parts, lo, n):
        """bytes [lo,lo+n) of a part list, or None if an opaque part is cut"""
        out = []
        pos = 0
        for v, k in parts:
            if pos + k <= lo or pos >= lo + n:
                pos += k
                continue
            if pos >= lo and pos + k <= lo + n:
                out.append((v, k))
            elif type(v) is int:
                s, e = max(lo, pos), min(lo + n, pos + k)
                out.append(((v >> (8 * (s - pos))) & ((1 << (8 * (e - s))) - 1), e - s))
            elif type(v) is float:
                s, e = max(lo, pos), min(lo + n, pos + k)
                out.append(((self.f2i(v, 8 * k) >> (8 * (s - pos))) & ((1 << (8 * (e - s))) - 1), e - s))
            elif isbv(v):
                s, e = max(lo, pos), min(lo + n, pos + k)
                out.append((z3.Extract(8 * (e - pos) - 1, 8 * (s - pos), v), e - s))
            elif type(v) is BVal:
                s, e = max(lo, pos), min(lo + n, pos + k)
                out.append((z3.Extract(8 * (e - pos) - 1, 8 * (s - pos), self.fpbits(v)), e - s))
            else:
                return None
            pos += k
        return out

    def opaque_iop(self, op, a, b, w):
        if type(b) is int and op in ("shl", "lshr", "and"):
            parts = self.aspart(a, w)
            n = w // 8
            if op == "lshr" and b % 8 == 0:
                t = self.take(parts, b // 8, n - b // 8)
                return None if t is None else self.mkcomp(t + [(0, b // 8)])
            if op == "shl" and b % 8 == 0:
                t = self.take(parts, 0, n - b // 8)
                return None if t is None else self.mkcomp([(0, b // 8)] + t)
            if op == "and":
                if b == 0:
                    return 0
                # byte mask
                out = []
                for i in range(n):
                    mb = (b >> (8 * i)) & 255
                    if mb not in (0, 255):
                        break
                else:
                    i = 0
                    while i < n:
                        mb = (b >> (8 * i)) & 255
                        j = i
                        while j < n and ((b >> (8 * j)) & 255) == mb:
                            j += 1
                        if mb == 0:
                            out.append((0, j - i))
                        else:
                            t = self.take(parts, i, j - i)
                            if t is None:
                                return None
                            out += t
                        i = j
                    return self.mkcomp(out)
                if isinstance(a, FBits) and b == mask(w) >> 1:
                    return FBits(self.D.fabs(a.v), w)
        if op == "or":
            pa, pb = self.aspart(a, w), self.aspart(b, w)
            # byte-wise disjoint merge
            res = []
            i = 0
            n = w // 8
            ia = ib = 0
            posa = posb = 0

            def expand(ps):
                d = {}
                pos = 0
                for v, k in ps:
                    if type(v) is int:
                        for j in range(k):
                            d[pos + j] = (v >> (8 * j)) & 255
                    else:
                        d[pos] = (v, k)
                        for j in range(1, k):
                            d[pos + j] = None
                    pos += k
                return d
            da, db = expand(pa), expand(pb)
            i = 0
            while i < n:
                x, y = da[i], db[i]
                if type(x) is int and type(y) is int:
                    res.append((x | y, 1))
                    i += 1
                    continue
                if type(x) is tuple and all(type(db[i + j]) is int and db[i + j] == 0 for j in range(x[1])):
                    res.append(x)
                    i += x[1]
                elif type(y) is tuple and all(type(da[i + j]) is int and da[i + j] == 0 for j in range(y[1])):
                    res.append(y)
                    i += y[1]
                else:
                    return None
            return self.mkcomp(res)
        if op == "xor" and isinstance(a, FBits) and type(b) is int and b == 1 << (w - 1):
            return FBits(self.D.neg(a.v), w)
        return None

    def icmp(self, pred, a, b, w):
        ta, tb = type(a), type(b)
        if ta is tuple or tb is tuple:
            return tuple(self.icmp(pred, x, y, w) for x, y in zip(a, b))
        if ta is int and tb is int:
            if pred == "eq":
                return int(a == b)
            if pred == "ne":
                return int(a != b)
            if pred[0] == "s":
                a, b = sx(a, w), sx(b, w)
            k = pred[1:]
            return int(a < b if k == "lt" else a <= b if k == "le" else a > b if k == "gt" else a >= b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb and a.obj is b.obj:
                return self.icmp(pred, a.off & MASK[64], b.off & MASK[64], 64) if pred in ("eq", "ne") else \
                    self.icmp(pred, a.addr(), b.addr(), 64)
            if pa and tb is int and b == 0 and pred in ("eq", "ne"):
                return int(pred == "ne")
            if pb and ta is int and a == 0 and pred in ("eq", "ne"):
                return int(pred == "ne")
            return self.icmp(pred, a.addr() if pa else a, b.addr() if pb else b, 64)
        if w == 1:
            a, b = self.tosb(a), self.tosb(b)
            x = sb_xor(a, b)
            if pred == "ne":
                return x
            if pred == "eq":
                return x.neg()
            if pred in ("ult", "sgt"):
                return sb_and(a.neg(), b)
            if pred in ("ugt", "slt"):
                return sb_and(a, b.neg())
            if pred in ("ule", "sge"):
                return sb_or(a.neg(), b)
            return sb_or(a, b.neg())
        if isinstance(a, FBits) and type(b) is int and type(a.v) is RVal:
            if pred == "slt" and b == 0:
                return self.D.cmp("olt", a.v, 0.0)
            if pred == "sgt" and b == mask(w):
                return self.D.cmp("oge", a.v, 0.0)
        if ta is RInt or tb is RInt:
            r = self.rint_cmp(pred, a, b, w)
            if r is not None:
                return r
        if isinstance(a, SBool) or isinstance(b, SBool):
            # a widened boolean (see zext); compare against constants
            pass
        a, b = self.tobv(a, w), self.tobv(b, w)
        if pred == "eq":
            t = a == b
        elif pred == "ne":
            t = a != b
        elif pred == "ult":
            t = z3.ULT(a, b)
        elif pred == "ule":
            t = z3.ULE(a, b)
        elif pred == "ugt":
            t = z3.UGT(a, b)
        elif pred == "uge":
            t = z3.UGE(a, b)
        elif pred == "slt":
            t = a < b
        elif pred == "sle":
            t = a <= b
        elif pred == "sgt":
            t = a > b
        else:
            t = a >= b
        t = z3.simplify(t)
        if z3.is_true(t):
            return 1
        if z3.is_false(t):
            return 0
        return SBool(t)

    def itrunc(self, a, w0, w1):
        if type(a) is tuple:
            return tuple(self.itrunc(x, w0, w1) for x in a)
        if type(a) is int:
            return a & mask(w1)
        if a is UNDEF:
            return UNDEF
        if isinstance(a, SBool):
            return a
        if isinstance(a, Ptr):
            return a.addr() & mask(w1)
        if type(a) is RInt and a.v.lo >= -(2.0 ** (w1 - 1)) and a.v.hi < 2.0 ** (w1 - 1):
            return RInt(a.v, w1)
        if isinstance(a, (Comp, FBits, RInt)):
            if w1 % 8 == 0:
                t = self.take(self.aspart(a, w0), 0, w1 // 8)
                if t is not None:
                    return self.mkcomp(t)
            a = self.tobv(a, w0)
        if w1 == 1:
            t = z3.simplify(z3.Extract(0, 0, a) == 1)
            return 1 if z3.is_true(t) else 0 if z3.is_false(t) else SBool(t)
        return z3.simplify(z3.Extract(w1 - 1, 0, a))

    def zext(self, a, w0, w1):
        if type(a) is tuple:
            return tuple(self.zext(x, w0, w1) for x in a)
        if type(a) is int:
            return a
        if a is UNDEF:
            return UNDEF
        if isinstance(a, SBool):
            if self.domain == "R":
                return 1 if self.fork(a) else 0
            return z3.If(a.t, z3.BitVecVal(1, w1), z3.BitVecVal(0, w1))
        if type(a) is RInt and a.v.lo >= 0:
            return RInt(a.v, w1)
        if isinstance(a, (Comp, FBits, RInt)):
            return self.mkcomp(self.aspart(a, w0) + [(0, (w1 - w0) // 8)])
        return z3.ZeroExt(w1 - w0, a)

    def sext(self, a, w0, w1):
        if type(a) is tuple:
            return tuple(self.sext(x, w0, w1) for x in a)
        if type(a) is int:
            return sx(a, w0) & mask(w1)
        if a is UNDEF:
            return UNDEF
        if isinstance(a, SBool):
            if self.domain == "R":
                return mask(w1) if self.fork(a) else 0
            return z3.If(a.t, z3.BitVecVal(-1, w1), z3.BitVecVal(0, w1))
        if type(a) is RInt:
            return RInt(a.v, w1)
        return z3.SignExt(w1 - w0, self.tobv(a, w0))

    def select(self, c, a, b, ty):
        if type(c) is int:
            return a if c else b
        if type(c) is tuple:
            return tuple(self.select(x, y, z, ty.elem) for x, y, z in zip(c, a, b))
        if a is b:
            return a
        if c is UNDEF:
            raise Bug("uninit", "select on an uninitialised value")
        if ty.kind == "int" and ty.bits == 1 and a is not UNDEF and b is not UNDEF:
            a, b = self.tosb(a), self.tosb(b)
            return SBool(z3.Or(z3.And(c.t, a.t), z3.And(c.f, b.t)), z3.Or(z3.And(c.t, a.f), z3.And(c.f, b.f)))
        if self.domain != "R" and a is not UNDEF and b is not UNDEF:
            if ty.kind == "float":
                if type(a) is BVal or type(b) is BVal or True:
                    return BVal(z3.If(c.t, self.D.B(a, ty.bits), self.D.B(b, ty.bits)), ty.bits)
            if ty.kind == "int" and not isinstance(a, Ptr) and not isinstance(b, Ptr):
                return z3.If(c.t, self.tobv(a, ty.bits), self.tobv(b, ty.bits))
        return a if self.fork(c) else b

    def bitcast(self, v, t0, t1):
        if t0.kind == t1.kind and t0.kind in ("int", "ptr"):
            return v
        if v is UNDEF:
            return self.undef(t1)
        if t0.kind == "vector" or t1.kind == "vector":
            # go through a scratch object
            o = Obj(-1, max(t0.size, t1.size), "cast")
            self.store(Ptr(o, 0), v, t0)
            return self.load(Ptr(o, 0), t1)
        if t0.kind == "float":
            if type(v) is float:
                return self.f2i(v, t0.bits)
            return FBits(v, t0.bits)
        return self.tofloat(v, t1.bits)

    def tofloat(self, v, bits):
        if type(v) is int:
            return self.i2f(v, bits)
        if isinstance(v, FBits):
            return v.v
        if isinstance(v, NUMT):
            return v
        if v is UNDEF:
            return UNDEF
        if isbv(v):
            if self.domain == "R":
                raise Unsupported("integer bits reinterpreted as float in R domain")
            return BVal(z3.fpBVToFP(v, fsort(bits)), bits)
        if isinstance(v, Comp):
            return BVal(z3.fpBVToFP(self.tobv(v), fsort(bits)), bits)
        raise Unsupported("tofloat(%r)" % (v,))

    # ------------------------------------------------------------------ floats
    def fop(self, op, a, b, bits):
        ta, tb = type(a), type(b)
        if ta is float and tb is float:
            if op == "fadd":
                r = a + b
            elif op == "fsub":
                r = a - b
            elif op == "fmul":
                r = a * b
            elif op == "fdiv":
                if b == 0.0:
                    if a == 0 or a != a:
                        r = NAN
                    else:
                        r = math.copysign(INF, a) * math.copysign(1.0, b)
                elif abs(b) == INF and abs(a) == INF:
                    r = NAN
                else:
                    r = a / b
            else:
                r = math.fmod(a, b) if b != 0 and abs(a) != INF else NAN
            return f32(r) if bits == 32 else r
        if ta is tuple:
            return tuple(self.fop(op, x, y, bits) for x, y in zip(a, b))
        D = self.D
        if op == "fadd":
            return D.add(a, b, bits)
        if op == "fsub":
            return D.add(a, b, bits, True)
        if op == "fmul":
            return D.mul(a, b, bits)
        if op == "fdiv":
            return D.div(a, b, bits)
        return D.fmod(a, b, bits)

    def fneg(self, a):
        if type(a) is tuple:
            return tuple(self.fneg(x) for x in a)
        return self.D.neg(a)

    def fcmp(self, pred, a, b, bits):
        if type(a) is tuple:
            return tuple(self.fcmp(pred, x, y, bits) for x, y in zip(a, b))
        r = self.D.cmp(pred, a, b, bits)
        return r

    def fptosi(self, a, bits, w, signed):
        if type(a) is tuple:
            return tuple(self.fptosi(x, bits, w, signed) for x in a)
        if type(a) is float:
            if a != a or abs(a) == INF:
                return UNDEF
            v = int(a)
            if signed and not (-(1 << (w - 1)) <= v < (1 << (w - 1))) or not signed and not (0 <= v < (1 << w)):
                return UNDEF
            return v & mask(w)
        if a is UNDEF:
            return UNDEF
        if type(a) is BVal:
            lo = -(2.0 ** (w - 1)) if signed else 0.0
            hi = 2.0 ** (w - 1) if signed else 2.0 ** w
            t = a.t
            # out of range is undefined behaviour in C++
            ok = z3.And(z3.fpGT(t, fpconst(lo - 1.0, a.bits)) if a.bits == 64 and w <= 32 else z3.fpGEQ(t, fpconst(lo, a.bits)),
                        z3.fpLT(t, fpconst(hi, a.bits)))
            if not self.fork(SBool(ok)):
                raise Bug("ubconv", "float to integer conversion out of range")
            return z3.fpToSBV(RTZ, t, z3.BitVecSort(w)) if signed else z3.fpToUBV(RTZ, t, z3.BitVecSort(w))
        n = self.D.rint(a, "trunc")
        key = ("int", n.p.key(), w)
        memo = self.D.V.memo
        if n.p.is_const():
            return int(n.p.cval()) & mask(w)
        if n.hi - n.lo <= self.lim["concretize"]:
            # enumerate
            lo, hi = int(math.floor(n.lo)), int(math.ceil(n.hi))
            z = pz3(n.p, self.D.V)
            for v in range(lo, hi + 1):
                if v == hi or self.fork(SBool(z == v)):
                    if v == hi:
                        self.pc.append(z == v)
                        if not self.feasible(z == v):
                            raise Infeasible()
                    return v & mask(w)
        return self.mkrint(n, w) if signed else self.mkrint(n, w)

    def sitofp(self, a, w, bits, signed):
        if type(a) is tuple:
            return tuple(self.sitofp(x, w, bits, signed) for x in a)
        if a is UNDEF:
            return UNDEF
        if type(a) is int:
            v = float(sx(a, w) if signed else a)
            return f32(v) if bits == 32 else v
        if type(a) is RInt:
            r = a.v
            if bits == 32 and max(-r.lo, r.hi) > 2.0 ** 24:
                return RVal(r.p, max(-r.lo, r.hi) * 2.0 ** -24, r.lo, r.hi)
            return r
        if self.domain == "R":
            k = self.concretize(self.tobv(a, w), "integer converted to float")
            v = float(sx(k, w) if signed else k)
            return f32(v) if bits == 32 else v
        a = self.tobv(a, w)
        return BVal(z3.fpSignedToFP(RNE, a, fsort(bits)) if signed else z3.fpUnsignedToFP(RNE, a, fsort(bits)), bits)

    # ------------------------------------------------------------------ memory
    def gep_generic(self, base, ty, idx):
        if type(base) is tuple:
            raise Unsupported("vector gep")
        off = 0
        i0 = self.concretize(idx[0], "index")
        off += sx(i0, 64) * ty.size
        t = ty
        for i in idx[1:]:
            if t.kind == "struct":
                off += t.offs[i]
                t = t.fields[i]
            else:
                t = t.elem
                off += sx(self.concretize(i, "index"), 64) * t.size
        return self.padd(base, off)

    def padd(self, p, off):
        if type(p) is Ptr:
            return Ptr(p.obj, p.off + off) if off else p
        if type(p) is int:
            return (p + off) & MASK[64]
        if p is UNDEF:
            return UNDEF
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def chk(self, p, size, what):
        if type(p) is not Ptr:
            if p is UNDEF:
                raise Bug("uninit", "%s through an uninitialised pointer" % what)
            if type(p) is int:
                if p == 0 or p < 4096:
                    raise Bug("memory", "%s through a null pointer" % what)
                raise Bug("memory", "%s through a wild pointer %#x" % (what, p))
            raise Unsupported("%s through %r" % (what, p))
        o = p.obj
        if o.dead:
            raise Bug("memory", "%s of freed object %s" % (what, o.name))
        if not o.init:
            self.ginit(o)
        if o.opaque:
            return o
        if p.off < 0 or p.off + size > o.size:
            raise Bug("memory", "%s of %d bytes at offset %d of object %s (%d bytes)" % (what, size, p.off, o.name, o.size))
        return o

    def load(self, p, ty):
        if type(p) is Ptr:
            o = p.obj
            if not o.dead and o.init:
                c = o.cells.get(p.off)
                if c is not None and c[0] == ty.store:
                    v = c[1]
                    k = ty.kind
                    t = type(v)
                    if k == "float":
                        if t is float or t is RVal or t is BVal:
                            return v
                    elif k == "int":
                        if t is int and ty.bits % 8 == 0:
                            return v
                    elif k == "ptr":
                        if t is Ptr or t is int:
                            return v
        k = ty.kind
        if k == "struct":
            return tuple(self.load(self.padd(p, ty.offs[i]), ty.fields[i]) for i in range(ty.n))
        if k in ("array", "vector"):
            es = ty.elem.size
            return tuple(self.load(self.padd(p, i * es), ty.elem) for i in range(ty.n))
        n = ty.store
        o = self.chk(p, n, "load")
        if o.opaque:
            if k == "ptr":
                return Ptr(o, 0)
            if k == "float":
                raise Unsupported("float load from opaque object " + o.name)
            return 1 if ty.bits == 8 else 0
        parts = self.getbytes(o, p.off, n)
        if any(v is UNDEF for v, _ in parts):
            return UNDEF
        v = self.mkcomp(parts)
        if k == "float":
            return self.tofloat(v, ty.bits)
        if k == "ptr":
            if isinstance(v, (Ptr, int)):
                return v
            if isbv(v):
                return self.concretize(v, "pointer")
            raise Unsupported("pointer made of %r" % (v,))
        if ty.bits == 1:
            return self.itrunc(v, 8, 1)
        if ty.bits % 8:
            return self.itrunc(v, n * 8, ty.bits)
        if isinstance(v, Part):
            raise Unsupported("partial load of an opaque value")
        return v

    def getbytes(self, o, off, n):
        """part list covering [off,off+n); UNDEF for uninitialised bytes"""
        out = []
        end = off + n
        cells = o.cells
        pos = off
        while pos < end:
            c = cells.get(pos)
            if c is not None:
                k, v = c
                if pos + k <= end:
                    out.append((v, k))
                    pos += k
                    continue
                t = self.take([(v, k)], 0, end - pos)
                if t is None:
                    t = [(Part(v, k, i), 1) for i in range(end - pos)]
                out += t
                pos = end
                continue
            # inside an earlier cell?
            found = False
            for b in range(1, 16):
                c = cells.get(pos - b)
                if c is not None and c[0] > b:
                    k, v = c
                    m = min(k - b, end - pos)
                    t = self.take([(v, k)], b, m)
                    if t is None:
                        t = [(Part(v, k, b + i), 1) for i in range(m)]
                    out += t
                    pos += m
                    found = True
                    break
                if c is not None:
                    break
            if not found:
                out.append((UNDEF, 1))
                pos += 1
        if len(out) > 1 and isinstance(out[0][0], Part):
            out = self.join(out)
        return out

    def join(self, parts):
        out = []
        i = 0
        while i < len(parts):
            v, k = parts[i]
            if isinstance(v, Part) and v.i == 0:
                n = v.n
                seq = parts[i:i + n]
                if len(seq) == n and all(isinstance(x[0], Part) and x[0].v is v.v and x[0].i == j for j, x in enumerate(seq)):
                    out.append((v.v, n))
                    i += n
                    continue
            out.append((v, k))
            i += 1
        return out

    def clear(self, o, off, n):
        """remove cells overlapping [off,off+n), keeping the outside bytes"""
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            del cells[off]
            return
        end = off + n
        for b in range(max(0, off - 15), off):
            c = cells.get(b)
            if c is not None and b + c[0] > off:
                k, v = c
                del cells[b]
                t = self.take([(v, k)], 0, off - b)
                if t is None:
                    t = [(Part(v, k, i), 1) for i in range(off - b)]
                q = b
                for x, m in t:
                    cells[q] = (m, x)
                    q += m
                if b + k > end:
                    t = self.take([(v, k)], end - b, b + k - end)
                    if t is None:
                        t = [(Part(v, k, end - b + i), 1) for i in range(b + k - end)]
                    q = end
                    for x, m in t:
                        cells[q] = (m, x)
                        q += m
        for b in range(off, end):
            c = cells.get(b)
            if c is not None:
                k, v = c
                del cells[b]
                if b + k > end:
                    t = self.take([(v, k)], end - b, b + k - end)
                    if t is None:
                        t = [(Part(v, k, end - b + i), 1) for i in range(b + k - end)]
                    q = end
                    for x, m in t:
                        cells[q] = (m, x)
                        q += m

    def store(self, p, v, ty):
        k = ty.kind
        if k == "struct":
            for i in range(ty.n):
                self.store(self.padd(p, ty.offs[i]), v[i], ty.fields[i])
            return
        if k in ("array", "vector"):
            if v is UNDEF:
                v = self.undef(ty)
            es = ty.elem.size
            for i in range(ty.n):
                self.store(self.padd(p, i * es), v[i], ty.elem)
            return
        n = ty.store
        o = self.chk(p, n, "store")
        if o.opaque:
            return
        if o.ro and o.g is not None:
            raise Bug("memory", "store to constant object " + o.name)
        if isinstance(v, SBool):
            v = self.zext(v, 1, 8) if n == 1 else self.zext(v, 1, n * 8)
        off = p.off
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        if v is UNDEF:
            o.cells.pop(off, None)
            return
        if isinstance(v, Comp):
            for x, m in v.parts:
                o.cells[off] = (m, x)
                off += m
            return
        if isinstance(v, FBits):
            v = v.v
        o.cells[off] = (n, v)

    def memcpy(self, d, s, n):
        n = self.concretize(n, "length")
        if n == 0:
            return
        so = self.chk(s, n, "copy from")
        do = self.chk(d, n, "copy to")
        if do.opaque:
            return
        if so.opaque:
            raise Unsupported("copy from opaque object " + so.name)
        if do.ro and do.g is not None:
            raise Bug("memory", "write to constant object")
        parts = self.getbytes(so, s.off, n)
        self.clear(do, d.off, n)
        off = d.off
        for v, k in parts:
            if v is not UNDEF:
                do.cells[off] = (k, v)
            off += k

    def memset(self, d, c, n):
        n = self.concretize(n, "length")
        if n == 0:
            return
        o = self.chk(d, n, "memset")
        if o.opaque:
            return
        self.clear(o, d.off, n)
        if c is UNDEF:
            return
        c = self.concretize(c, "memset byte")
        w = int.from_bytes(bytes([c]) * 8, "little")
        off = d.off
        while n >= 8:
            o.cells[off] = (8, w)
            off += 8
            n -= 8
        if n >= 4:
            o.cells[off] = (4, w & 0xffffffff)
            off += 4
            n -= 4
        while n:
            o.cells[off] = (1, c)
            off += 1
            n -= 1

    def cstr(self, p):
        out = []
        while True:
            b = self.load(p, self.T8)
            if type(b) is not int:
                raise Unsupported("symbolic string")
            if b == 0:
                return bytes(out).decode("latin1")
            out.append(b)
            p = Ptr(p.obj, p.off + 1)

    @property
    def T8(self):
        t = self.__dict__.get("_t8")
        if t is None:
            t = ir.Type()
            t.kind, t.bits, t.size, t.store = "int", 8, 1, 1
            t.elem = t.n = t.fields = t.offs = None
            self._t8 = t
        return t

    def ftype(self, bits):
        k = "_tf%d" % bits
        t = self.__dict__.get(k)
        if t is None:
            t = ir.Type()
            t.kind, t.bits, t.size, t.store = "float", bits, bits // 8, bits // 8
            t.elem = t.n = t.fields = t.offs = None
            self.__dict__[k] = t
        return t

    def itype(self, bits):
        k = "_ti%d" % bits
        t = self.__dict__.get(k)
        if t is None:
            t = ir.Type()
            t.kind, t.bits, t.size, t.store = "int", bits, bits // 8, bits // 8
            t.elem = t.n = t.fields = t.offs = None
            self.__dict__[k] = t
        return t

    @property
    def TP(self):
        t = self.__dict__.get("_tp")
        if t is None:
            t = ir.Type()
            t.kind, t.bits, t.size, t.store = "ptr", 64, 8, 8
            t.elem = t.n = t.fields = t.offs = None
            self._tp = t
        return t

    # -------------------------------------------------------------- exceptions
    def tname(self, p):
        return p.obj.name[1:] if isinstance(p, Ptr) else str(p)

    def bases(self, p):
        o = p.obj
        if not o.init:
            self.ginit(o)
        n = self.tname(p)
        if o.opaque:
            b = STD_BASES.get(n)
            if b:
                g = self.M.globals.get(b)
                if g is None:
                    g = ir.Global(b, None)
                    g.init = False
                    self.M.globals[b] = g
                return [Ptr(self.glob(g), 0)]
            return []
        vt = o.cells[0][1]
        vn = vt.obj.name if isinstance(vt, Ptr) else ""
        if "si_class_type_info" in vn:
            return [o.cells[16][1]]
        if "vmi_class_type_info" in vn:
            cnt = o.cells[20][1]
            return [o.cells[24 + 16 * i][1] for i in range(cnt)]
        return []

    def isa(self, t, c):
        if t.obj is c.obj or self.tname(t) == self.tname(c):
            return True
        return any(self.isa(b, c) for b in self.bases(t))

    def tid(self, p):
        n = self.tname(p)
        if n not in self.tinfo_ids:
            self.tinfo_ids[n] = len(self.tinfo_ids) + 1
        return self.tinfo_ids[n]

    def landingpad(self, clauses, cleanup):
        e = self.exc
        for c in clauses:
            if c.kind == "null":
                return (e.ptr, 0x7fffffff) if False else (e.ptr, self.tid_all())
            if c.kind == "global":
                tp = Ptr(self.glob(c.val), 0)
                if self.isa(e.tinfo, tp):
                    return (e.ptr, self.tid(tp))
            elif c.kind in ("agg", "zero"):
                # filter: exception specification violated unless listed
                lst = c.val if c.kind == "agg" else []
                if not any(x.kind == "global" and self.isa(e.tinfo, Ptr(self.glob(x.val), 0)) for x in lst):
                    return (e.ptr, mask(32))
        if cleanup:
            return (e.ptr, 0)
        raise e

    def tid_all(self):
        return 0x7ffffff

    # ------------------------------------------------------------------ codegen
    def K(self, v):
        self.kcount += 1
        n = "K%d" % self.kcount
        self.ns[n] = v
        return n

    def opnd(self, x):
        if isinstance(x, ir.Reg):
            return "R[%d]" % x.idx
        v = self.cval(x)
        if type(v) is int:
            return repr(v)
        if type(v) is float and v == v and abs(v) != INF:
            return repr(v)
        return self.K(v)

    def compile(self, fn):
        self.M.load(fn)
        self.ns = ns = {"E": self, "UNDEF": UNDEF, "f32": f32, "Ptr": Ptr, "VFThrow": VFThrow, "Bug": Bug, "SBool": SBool}
        code = []
        srcs = []
        for bi, blk in enumerate(fn.blocks):
            src = ["def b(R,p):"]
            phis = [I for I in blk if I.op == "phi"]
            if phis:
                first = True
                preds = {}
                for I in phis:
                    for pb, v in I.x.items():
                        preds.setdefault(pb, []).append((I.dst, v))
                for pb, lst in preds.items():
                    src.append(" %s p==%d:" % ("if" if first else "elif", pb))
                    first = False
                    src.append("  " + ",".join("R[%d]" % d for d, _ in lst) + "=" + ",".join(self.opnd(v) for _, v in lst))
            for I in blk:
                if I.op != "phi":
                    for l in self.gen(fn, I):
                        src.append(" " + l)
            srcs.append(src)
        self.lazy_abs(srcs)
        for bi, blk in enumerate(fn.blocks):
            exec(compile("\n".join(srcs[bi]), "%s#%d" % (fn.name, bi), "exec"), ns)
            code.append((ns["b"], len(blk)))
        fn.code = code
        self.encoded.add(fn.name)

    def lazy_abs(self, blocks):
        """|x| that is only ever compared needs no case split of its own"""
        if self.domain != "R":
            return
        pat = re.compile(r"^( *)(R\[\d+\])=\w+\(E,\[(.*)\],\w+\)#fabs$")
        text = None
        for src in blocks:
            for i, l in enumerate(src):
                m = pat.match(l)
                if not m:
                    continue
                if text is None:
                    text = [x for b in blocks for x in b]
                r = m.group(2)
                if all("=E.fcmp(" in x for x in text if r in x and x is not l):
                    src[i] = "%s%s=E.labs(%s)" % (m.group(1), r, m.group(3))

    def labs(self, x):
        if type(x) is RVal and x.lo < 0 < x.hi:
            return LAbs(x)
        return self.D.fabs(x)

    def gen(self, fn, I):
        op = I.op
        d = "R[%d]" % I.dst
        o = I.ops
        g = self.opnd
        ty = I.ty
        sc = ty.elem if ty.kind == "vector" else ty
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a, b = g(o[0]), g(o[1])
            w = sc.bits
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}.get(op)
            if sym and ty.kind == "int":
                m = "" if op in ("and", "or", "xor") else "&%d" % mask(w)
                return ["a=%s;b_=%s" % (a, b),
                        "%s=(a%sb_)%s if type(a) is int and type(b_) is int else E.iop(%r,a,b_,%d)" % (d, sym, m, op, w)]
            return ["%s=E.iop(%r,%s,%s,%d)" % (d, op, a, b, w)]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return ["%s=E.fop(%r,%s,%s,%d)" % (d, op, g(o[0]), g(o[1]), sc.bits)]
        if op == "fneg":
            return ["%s=E.fneg(%s)" % (d, g(o[0]))]
        if op == "icmp":
            t = I.y.elem if I.y.kind == "vector" else I.y
            return ["%s=E.icmp(%r,%s,%s,%d)" % (d, I.x, g(o[0]), g(o[1]), t.bits)]
        if op == "fcmp":
            t = I.y.elem if I.y.kind == "vector" else I.y
            return ["%s=E.fcmp(%r,%s,%s,%d)" % (d, I.x, g(o[0]), g(o[1]), t.bits)]
        if op == "load":
            return ["%s=E.load(%s,%s)" % (d, g(o[0]), self.K(ty))]
        if op == "store":
            return ["E.store(%s,%s,%s)" % (g(o[1]), g(o[0]), self.K(I.x))]
        if op == "alloca":
            n = "1" if not isinstance(o[0], ir.Reg) and self.cval(o[0]) == 1 else "E.concretize(%s)" % g(o[0])
            return ["q=E.newobj(%d*%s,%r);E.frame.append(q);%s=Ptr(q,0)" % (I.x.size, n, "alloca in " + fn.name, d)]
        if op == "gep":
            if all(not isinstance(x, ir.Reg) for x in o[1:]):
                off = 0
                idx = [self.cval(x) for x in o[1:]]
                if all(type(x) is int for x in idx):
                    p = self.gep_generic(Ptr(Obj(0, 0, ""), 0), I.x, idx)
                    return ["q=%s;%s=Ptr(q.obj,q.off+%d) if type(q) is Ptr else E.padd(q,%d)" % (g(o[0]), d, p.off, p.off)]
            return ["%s=E.gep_generic(%s,%s,[%s])" % (d, g(o[0]), self.K(I.x), ",".join(g(x) for x in o[1:]))]
        if op == "trunc":
            t = I.x.elem if I.x.kind == "vector" else I.x
            return ["%s=E.itrunc(%s,%d,%d)" % (d, g(o[0]), t.bits, sc.bits)]
        if op in ("zext", "sext"):
            t = I.x.elem if I.x.kind == "vector" else I.x
            return ["%s=E.%s(%s,%d,%d)" % (d, op, g(o[0]), t.bits, sc.bits)]
        if op in ("fptosi", "fptoui"):
            t = I.x.elem if I.x.kind == "vector" else I.x
            return ["%s=E.fptosi(%s,%d,%d,%s)" % (d, g(o[0]), t.bits, sc.bits, op == "fptosi")]
        if op in ("sitofp", "uitofp"):
            t = I.x.elem if I.x.kind == "vector" else I.x
            return ["%s=E.sitofp(%s,%d,%d,%s)" % (d, g(o[0]), t.bits, sc.bits, op == "sitofp")]
        if op in ("fptrunc", "fpext"):
            t = I.x.elem if I.x.kind == "vector" else I.x
            f = "trunc" if op == "fptrunc" else "ext"
            if ty.kind == "vector":
                return ["%s=tuple(E.D.%s(q,%d,%d) for q in %s)" % (d, f, t.bits, sc.bits, g(o[0]))]
            return ["%s=E.D.%s(%s,%d,%d)" % (d, f, g(o[0]), t.bits, sc.bits)]
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr":
                return ["%s=E.inttoptr(%s)" % (d, g(o[0]))]
            if ty.bits != 64:
                return ["%s=E.itrunc(%s,64,%d)" % (d, g(o[0]), ty.bits)]
            return ["%s=%s" % (d, g(o[0]))]
        if op == "bitcast":
            return ["%s=E.bitcast(%s,%s,%s)" % (d, g(o[0]), self.K(I.x), self.K(ty))]
        if op == "freeze":
            return ["%s=%s" % (d, g(o[0]))]
        if op == "select":
            return ["%s=E.select(%s,%s,%s,%s)" % (d, g(o[0]), g(o[1]), g(o[2]), self.K(ty))]
        if op == "extractelement":
            return ["%s=%s[E.concretize(%s)]" % (d, g(o[0]), g(o[1]))]
        if op == "insertelement":
            return ["q=list(%s);q[E.concretize(%s)]=%s;%s=tuple(q)" % (g(o[0]), g(o[2]), g(o[1]), d)]
        if op == "shufflevector":
            n = I.y.n
            return ["q=tuple(%s)+tuple(%s);%s=tuple(UNDEF if i<0 or i>=%d else q[i] for i in %r)" % (g(o[0]), g(o[1]), d, 2 * n, [i if 0 <= i < 2 * n else -1 for i in I.x])]
        if op == "extractvalue":
            return ["%s=%s%s" % (d, g(o[0]), "".join("[%d]" % i for i in I.x))]
        if op == "insertvalue":
            return ["%s=E.insval(%s,%s,%r)" % (d, g(o[0]), g(o[1]), I.x)]
        if op == "ret":
            return ["return (%s,)" % (g(o[0]) if o else "None")]
        if op == "br":
            if not o:
                return ["return %d" % I.x[0]]
            # LLVM stores successors as (true,false)
            return ["c=%s" % g(o[0]), "if type(c) is int: return %d if c else %d" % (I.x[0], I.x[1]),
                    "return %d if E.fork(c) else %d" % (I.x[0], I.x[1])]
        if op == "switch":
            return ["c=E.concretize(%s)" % g(o[0]), "return %s.get(c,%d)" % (self.K(dict(I.y)), I.x)]
        if op == "unreachable":
            return ["raise Bug('unreachable','unreachable code executed in %s')" % fn.name]
        if op in ("call", "invoke"):
            call = self.gencall(fn, I)
            if call is None:
                return ["pass"] if op == "call" else ["return %d" % I.y[0]]
            st = "%s=%s" % (d, call)
            if op == "call":
                return [st]
            return ["try: " + st, "except VFThrow as e_:", " E.exc=e_;return %d" % I.y[1], "return %d" % I.y[0]]
        if op == "landingpad":
            return ["%s=E.landingpad(%s,%s)" % (d, self.K(I.x), I.y)]
        if op == "resume":
            return ["E.resume(%s)" % g(o[0])]
        if op == "fence":
            return ["pass"]
        if op == "atomicrmw":
            return ["%s=E.atomicrmw(%d,%s,%s,%s)" % (d, I.x, g(o[0]), g(o[1]), self.K(I.y))]
        if op == "cmpxchg":
            return ["%s=E.cmpxchg(%s,%s,%s,%d)" % (d, g(o[0]), g(o[1]), g(o[2]), ty.fields[0].bits)]
        return ["raise E.unsup('instruction %s in %s')" % (op, fn.name)]

    def unsup(self, m):
        return Unsupported(m)

    def gencall(self, fn, I):
        args = [self.opnd(a) if not (isinstance(a, ir.Const) and a.kind in ("meta", "other")) else "None" for a in I.ops]
        if isinstance(I.x, ir.Const) and I.x.kind == "func":
            f = I.x.val
            n = f.name
            if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias", "llvm.donothing", "llvm.stack", "llvm.invariant", "llvm.prefetch")):
                return None
            h = self.handlers.get(n) or self.handlers.get("." .join(n.split(".")[:2]) if n.startswith("llvm.") else n)
            if h is None and n.startswith("llvm."):
                h = self.handlers.get(".".join(n.split(".")[:3])) or self.handlers.get(n.rsplit(".", 1)[0])
            if h is not None:
                tail = "#fabs" if n in ("fabs", "fabsf") or n.startswith("llvm.fabs.f") else ""
                return "%s(E,[%s],%s)%s" % (self.K(h), ",".join(args), self.K(I), tail)
            if f.decl:
                h = self.stub(n)
                if h is None:
                    return "E.nohandler(%r)" % n
                return "%s(E,[%s],%s)" % (self.K(h), ",".join(args), self.K(I))
            return "E.call(%s,[%s])" % (self.K(f), ",".join(args))
        if isinstance(I.x, ir.Const):
            return "E.nohandler(%r)" % ("asm/" + str(I.x.val)[:60])
        return "E.icall(%s,[%s],%s)" % (self.opnd(I.x), ",".join(args), self.K(I))

    def nohandler(self, n):
        raise Unsupported("call to external function " + n)

    def icall(self, p, args, I):
        if not isinstance(p, Ptr) or p.obj.fn is None:
            if isinstance(p, Ptr) and p.obj.opaque:
                return Ptr(p.obj, 0)
            if type(p) is int:
                raise Bug("memory", "call through a null/wild pointer")
            raise Unsupported("indirect call through %r" % (p,))
        f = p.obj.fn
        h = self.handlers.get(f.name)
        if h is None and f.decl:
            h = self.stub(f.name)
            if h is None:
                self.nohandler(f.name)
        if h is not None:
            return h(self, args, I)
        return self.call(f, args)

    def insval(self, agg, v, idx):
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insval(l[idx[0]], v, idx[1:])
        return tuple(l)

    def resume(self, v):
        e = self.exc
        p = v[0]
        if isinstance(p, Ptr) and (e is None or e.ptr is not p):
            e = self.throws.get(p.obj.id, e) if hasattr(self, "throws") else e
        raise e

    def inttoptr(self, v):
        if type(v) is int and v >= 4096:
            for o in self.gobj.values():
                if o.base <= v <= o.base + o.size:
                    return Ptr(o, v - o.base)
            raise Unsupported("inttoptr of %#x" % v)
        return v

    def atomicrmw(self, opn, p, v, ty):
        old = self.load(p, ty)
        if opn == 0:
            new = v
        else:
            new = self.iop({1: "add", 2: "sub", 3: "and", 5: "or", 6: "xor"}[opn], old, v, ty.bits)
        self.store(p, new, ty)
        return old

    def cmpxchg(self, p, exp, new, w):
        t = self.itype(w)
        old = self.load(p, t)
        eq = self.icmp("eq", old, exp, w)
        if self.fork(eq) if type(eq) is not int else eq:
            self.store(p, new, t)
            return (old, 1)
        return (old, 0)

    # ------------------------------------------------------------------ running
    def call(self, fn, args):
        code = fn.code
        if code is None:
            if fn.decl:
                return self.nohandler(fn.name)
            self.compile(fn)
            code = fn.code
        R = args + [None] * (fn.nregs - len(args))
        self.depth += 1
        if self.depth > 900:
            raise Budget("call depth")
        saved = getattr(self, "frame", None)
        self.frame = frame = []
        for i, t in fn.byval.items():
            q = self.newobj(t.size, "byval in " + fn.name)
            frame.append(q)
            self.memcpy(Ptr(q, 0), R[i], t.size)
            R[i] = Ptr(q, 0)
        b = 0
        p = -1
        try:
            while True:
                f, n = code[b]
                self.steps += n
                if self.steps > self.steplimit:
                    raise Budget("instruction budget of one path")
                r = f(R, p)
                if r.__class__ is tuple:
                    return r[0]
                p = b
                b = r
        finally:
            self.depth -= 1
            for q in frame:
                q.dead = True
            self.frame = saved

    @property
    def steplimit(self):
        return self.lim["steps"]

    def stub(self, name):
        import models
        return models.stub(name)
