#!/usr/bin/env python3-vt
"""Check driver:  run.py PROPERTY [--harness NAME] [-v]

1. compiles /repo's current sources plus the property's harness to LLVM IR,
2. executes every harness symbolically and discharges its obligations,
3. replays every candidate counterexample on a native build of the same code,
4. writes evidence/<PROPERTY>.json.
"""
import glob
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)

import z3  # noqa

CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
IOS_RE = ("(basic_ostream|basic_istream|basic_ios|ios_base|basic_stringbuf|basic_ostringstream|basic_stringstream|"
          "basic_istringstream|basic_filebuf|basic_streambuf|basic_ofstream|basic_ifstream|__ostream_insert|St4endl|St5ctype|_ZStls|_ZStrs|_ZNSo|_ZNSi[0-9])")
CFLAGS = ["-std=gnu++17", "-O2", "-g0", "-w", "-fno-threadsafe-statics", "-ffp-contract=off", "-fno-vectorize",
          "-fno-slp-vectorize", "-fno-unroll-loops", "-DEIGEN_DONT_VECTORIZE", "-DBOOST_CB_DISABLE_DEBUG", "-DVF_SYMBOLIC"]


def inc(mock):
    i = ["-I" + os.path.join(VERIF, "harness")]
    for m in mock:
        i.append("-I" + os.path.join(VERIF, "mock", m))
    return i + ["-I" + REPO, "-I" + os.path.join(VERIF, "include"), "-I/usr/include/eigen3"]


WIDE = []        # groups whose source list had to be widened


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


def source_set(w):
    """@core = every type plus the general tools; otherwise a literal path"""
    rel = lambda ps: [os.path.relpath(p, REPO) for p in sorted(ps)]
    if w == "@core":
        return rel(glob.glob(REPO + "/src/types/*.cpp")) + ["src/tools/almath.cpp", "src/tools/altransformhelpers.cpp"]
    if w == "@math":
        return rel(glob.glob(REPO + "/src/types/*.cpp") + glob.glob(REPO + "/src/tools/*.cpp") + glob.glob(REPO + "/src/dsp/*.cpp") +
                   glob.glob(REPO + "/src/geometrics/*.cpp"))
    return [w]


class Spec:
    def __init__(self, prop):
        fs = sorted(glob.glob(os.path.join(VERIF, "harness", prop + "_*.cpp")) + glob.glob(os.path.join(VERIF, "harness", prop + ".cpp")))
        if not fs:
            raise SystemExit("no harness for " + prop)
        self.prop = prop
        self.files = fs
        self.groups = []
        for f in fs:
            t = open(f).read()
            src = []
            mock = []
            defs = []
            for m in re.finditer(r"^// SRC: (.*)$", t, re.M):
                for w in m.group(1).split():
                    src += [x for x in source_set(w) if x not in src]
            for m in re.finditer(r"^// MOCK: (.*)$", t, re.M):
                mock += m.group(1).split()
            for m in re.finditer(r"^// DEFS: (.*)$", t, re.M):
                defs += m.group(1).split()
            bounds = [m.group(1) for m in re.finditer(r"^// BOUND: (.*)$", t, re.M)]
            assume = [m.group(1) for m in re.finditer(r"^// ASSUME: (.*)$", t, re.M)]
            lim = {}
            for m in re.finditer(r"^// LIMIT: (\w+)=(\d+)$", t, re.M):
                lim[m.group(1)] = int(m.group(2))
            self.groups.append({"file": f, "src": src, "mock": mock, "defs": defs, "bounds": bounds, "assume": assume, "lim": lim})


def tier():
    return os.environ.get("VERIF_TIER", "quick")


def build_ir(g, work, pool):
    tag = os.path.basename(g["file"])[:-4]
    fl = CFLAGS + inc(g["mock"]) + ["-D" + d for d in g["defs"]] + (["-DVF_THOROUGH"] if tier() == "thorough" else [])
    units = [g["file"]] + [os.path.join(REPO, s) if s.startswith("src/") else os.path.join(VERIF, s) for s in g["src"]]
    units.append(os.path.join(VERIF, "harness", "rt.cpp"))

    def one(u):
        o = os.path.join(work, tag + "_" + hashlib.md5(u.encode()).hexdigest()[:10] + ".bc")
        sh([CLANG] + fl + ["-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", u, "-o", o])
        return o
    bcs = list(pool.map(one, units))
    l1 = os.path.join(work, tag + ".l1.bc")
    sh(["llvm-link", "--suppress-warnings"] + bcs + ["-o", l1])
    l2 = os.path.join(work, tag + ".l2.bc")
    try:
        sh(["llvm-extract", "--delete", "--keep-const-init", "--rfunc=" + IOS_RE, l1, "-o", l2])
    except BuildError as e:
        if "doesn't contain global named" not in str(e):
            raise
        l2 = l1         # no stream operation in this program
    names = re.findall(r"^VF_([BR])\((\w+)\)", open(g["file"]).read(), re.M)
    hs = ["vf%s_%s" % n for n in names]
    l3 = os.path.join(work, tag + ".l3.bc")
    sh(["opt", "-passes=internalize,globaldce,default<O1>,globaldce", "-internalize-public-api-list=" + ",".join(hs),
        "-vectorize-loops=0", "-vectorize-slp=0", "-unroll-runtime=0", l2, "-o", l3])
    return l3, hs


def build_native(g, work, san=False):
    tag = os.path.basename(g["file"])[:-4]
    out = os.path.join(work, tag + (".san" if san else ".nat"))
    if os.path.exists(out):
        return out
    units = [g["file"], os.path.join(VERIF, "harness", "native.cpp")] + \
            [os.path.join(REPO, s) if s.startswith("src/") else os.path.join(VERIF, s) for s in g["src"]]
    fl = ["-std=gnu++17", "-O2", "-g", "-w", "-fno-lifetime-dse", "-DBOOST_CB_DISABLE_DEBUG"] + inc(g["mock"]) + ["-D" + d for d in g["defs"]] + \
        (["-DVF_THOROUGH"] if tier() == "thorough" else [])
    if san:
        fl = [f for f in fl if f != "-O2"] + ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-DVF_SAN"]

    def one(u):
        o = os.path.join(work, tag + (".s" if san else ".n") + hashlib.md5(u.encode()).hexdigest()[:10] + ".o")
        sh(["g++"] + fl + ["-c", u, "-o", o])
        return o
    with ThreadPoolExecutor(8) as p:
        objs = list(p.map(one, units))
    sh(["g++"] + (["-fsanitize=address,undefined"] if san else []) + ["-rdynamic"] + objs + ["-o", out + ".tmp", "-ldl"])
    os.rename(out + ".tmp", out)
    return out


# ---------------------------------------------------------------- model -> floats
def zval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_rational_value(v):
        return v.numerator_as_long() / v.denominator_as_long()
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    if z3.is_int_value(v):
        return float(v.as_long())
    try:
        v = z3.simplify(v)
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
    except z3.Z3Exception:
        pass
    return 0.0


def peval(E, m, p):
    V = E.D.V
    ov = getattr(E, "override", {})
    tot = 0.0
    for mono, c in p.m.items():
        t = float(c)
        for v, e in mono:
            x = ov.get(v)
            if x is None:
                x = zval(m, V.z[v])
            t *= x ** e
        tot += t
    return tot


def bits2f(i, w):
    import struct
    return struct.unpack("<f", struct.pack("<I", i))[0] if w == 32 else struct.unpack("<d", struct.pack("<Q", i))[0]


def assignment(E, m):
    """model -> input values.  An angle is read off its cosine/sine."""
    out = []
    E.override = {}
    V = E.D.V
    for name, kind, terms, meta in E.inputs:
        if kind in ("f32", "f64"):
            x = zval(m, terms[0])
            vid = next(i for i, z in enumerate(V.z) if z is terms[0])
            t = V.trig.get(vid)
            if t is not None:
                c, s, k = t
                per = 2 * math.pi * k
                th = k * math.atan2(peval(E, m, s), peval(E, m, c))
                th += round((x - th) / per) * per
                lo, hi = meta
                if th > hi and th - per >= lo:
                    th -= per
                if th < lo and th + per <= hi:
                    th += per
                x = min(hi, max(lo, th))
                E.override[vid] = x
            out.append((name, [x]))
            continue
        if kind in ("b32", "b64"):
            w = int(kind[1:])
            v = [bits2f(m.eval(terms[0], model_completion=True).as_long(), w)]
        elif kind == "const":
            v = [float(terms[0])]
        elif kind == "i32":
            x = m.eval(terms[0], model_completion=True).as_long()
            v = [float(x - (1 << 32) if x >> 31 else x)]
        else:
            v = [zval(m, t) for t in terms]
        out.append((name, v))
    return out


def fmt(x):
    if x != x:
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return float(x).hex()


class Replayer:
    def __init__(self, g, work, prop):
        self.g, self.work, self.prop = g, work, prop
        self.n = 0

    def native(self, san=False):
        return build_native(self.g, self.work, san)

    def run(self, hname, asg, san=False, trace=False, valgrind=False):
        """returns (status, output) where status: ok fail assume crash timeout"""
        f = tempfile.NamedTemporaryFile("w", suffix=".in", dir=self.work, delete=False)
        for n, v in asg:
            f.write(n + " " + " ".join(fmt(x) for x in v) + "\n")
        f.close()
        return self.run_file(hname, f.name, san, trace, valgrind) + (f.name,)

    def run_file(self, hname, path, san=False, trace=False, valgrind=False):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=77:allocator_may_return_null=1"
        env["UBSAN_OPTIONS"] = "exitcode=77"
        if trace:
            env["VF_TRACE"] = "1"
        cmd = [self.native(san), hname, path]
        if valgrind:
            cmd = ["valgrind", "-q", "--error-exitcode=77", "--leak-check=no"] + cmd
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""
        c = r.returncode
        st = "ok" if c == 0 else "fail" if c == 10 else "assume" if c == 11 else "crash"
        if c == 2:
            raise BuildError("replay binary: " + r.stdout)
        return st, r.stdout

    def random(self, hname, seed, n, secs=20):
        """native concretisation of an obligation the solver did not discharge"""
        try:
            r = subprocess.run([self.native(), hname, "--random", str(seed), str(n), str(secs)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=secs * 3 + 30, errors="replace")
        except subprocess.TimeoutExpired:
            return None
        if r.returncode != 10:
            return None
        asg = []
        out = []
        for l in r.stdout.splitlines():
            if l.startswith("IN "):
                p = l.split()
                asg.append((p[1], [float.fromhex(x) if "x" in x else float(x) for x in p[2:]]))
            else:
                out.append(l)
        st, o, path = self.run(hname, asg)
        if st in ("fail", "crash"):
            return st, o, path, asg
        return None


def save_replay(prop, hname, g, path, out, why):
    d = os.path.join(VERIF, "replays", prop)
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, "%s-%d.txt" % (hname, n))):
        n += 1
    dst = os.path.join(d, "%s-%d.txt" % (hname, n))
    with open(dst, "w") as f:
        f.write("! property %s, harness %s in %s\n! %s\n" % (prop, hname, os.path.basename(g["file"]), why.replace("\n", " ")[:300]))
        for l in out.splitlines()[:20]:
            f.write("! native: %s\n" % l)
        f.write("! rerun: engine/replay.sh %s %s %s\n" % (prop, hname, os.path.relpath(dst, VERIF)))
        f.write(open(path).read())
    return dst


# --------------------------------------------------------------------- one harness
def run_harness(args):
    prop, gi, bc, hname, work, seed, verbose = args
    t0 = time.time()
    spec = Spec(prop)
    g = spec.groups[gi]
    if gi in WIDE:
        g["src"] += [x for x in source_set("@math") if x not in g["src"]]
    res = {"harness": hname, "domain": "bit-precise" if hname.startswith("vfB") else "real+error", "paths": 0, "obligations": 0, "discharged": 0,
           "trivial": 0, "undischarged": [], "violations": [], "errors": [], "reached": [], "outcomes": {}, "witnesses": 0, "validated": 0,
           "mismatch": [], "maxerr": 0.0, "notes": [], "facts": 0, "samples": [], "functions": []}
    try:
        import exec as X
        import ir
        from sym import Unsupported, RVal
        M = ir.Module(bc)
        dom = "B" if hname.startswith("vfB") else "R"
        lim = dict(g["lim"])
        if tier() == "thorough":
            lim.setdefault("wall", 700)
            lim["ob_ms"] = lim.get("ob_ms", 20000) * 3
        else:
            lim.setdefault("wall", 300)
        E = X.Engine(M, dom, lim)
        E.nfacts = 0
        E.notes = []
        E.maxerr = 0.0
        E.reached = set()
        E.work = []
        rep = Replayer(g, work, prop)
        fn = M.functions[hname]
        state = {"stop": False, "tried_random": False}
        done_labels = {}

        def violation(why, st, out, path):
            dst = save_replay(prop, hname, g, path, out, why)
            line = ""
            for l in out.splitlines():
                if l.startswith("FAIL") or "ERROR" in l or "runtime error" in l or "Assertion" in l:
                    line = l
                    break
            res["violations"].append({"what": why, "native": line or st, "replay": dst})
            state["stop"] = True

        def try_model(why, m, kind=None):
            asg = assignment(E, m)
            st, out, path = rep.run(hname, asg)
            if verbose:
                print("   candidate", why, asg[:6], st, out[:300])
            if st in ("fail", "crash"):
                violation(why, st, out, path)
                return True
            if kind in ("memory", "ubconv", "divzero", "unreachable"):
                st, out, path = rep.run(hname, asg, san=True)
                if st in ("fail", "crash"):
                    violation(why, st, out, path)
                    return True
            if kind == "uninit":
                st, out, path = rep.run(hname, asg, valgrind=True)
                if st in ("fail", "crash"):
                    violation(why, st, out, path)
                    return True
            return False

        def try_random(why):
            if state["tried_random"]:
                return False
            state["tried_random"] = True
            r = rep.random(hname, seed, 12000, 15)
            if r:
                violation(why, r[0], r[1], r[2])
                return True
            return False

        def candidate(why, formulas, kind=None):
            """find a reproducible counterexample; formulas from strongest to weakest"""
            tired = len(res["undischarged"]) >= 4
            for f in formulas:
                r, m = E.query([f], min(1500 if tired else 6000, E.lim["ob_ms"]), quick=False)
                if r == z3.sat and try_model(why, m, kind):
                    return True
                if r == z3.unsat and f is formulas[-1]:
                    return "unsat"
            # a model away from the boundaries
            if dom == "R" and len(res["undischarged"]) < 4:
                rnd = random.Random(seed)
                for k in range(4):
                    ex = []
                    for name, knd, terms, meta in E.inputs:
                        if knd in ("f32", "f64") and meta and rnd.random() < 0.5:
                            lo, hi = meta
                            v = lo + (hi - lo) * rnd.randrange(1, 64) / 64.0
                            ex.append(terms[0] == z3.RealVal(str(z3.Q(int(v * 1024), 1024))))
                    r, m = E.query([formulas[0]] + ex, 2000, quick=False)
                    if r == z3.sat and try_model(why, m, kind):
                        return True
            return try_random(why)

        def obligation(msg, neg, strong, poly=None):
            if len(E.decisions) < len(E.prefix):
                return      # already discharged on the path this one forked from
            res["obligations"] += 1
            d = z3.simplify(neg)
            if z3.is_false(d):
                res["discharged"] += 1
                res["trivial"] += 1
                E.stats["queries"] += 1
                return
            r, m = E.query([neg], E.lim["ob_ms"] if len(res["undischarged"]) < 4 else min(4000, E.lim["ob_ms"]))
            if r == z3.unsat:
                res["discharged"] += 1
                return
            if os.environ.get("VF_PC"):
                print("OB", msg, r, "\nPC", [z3.simplify(x) for x in E.pc], "\nNEG", d, "\nMODEL", m, "SOFT", E.pc_soft, file=sys.stderr)
            c = candidate(msg, strong)
            if c is True:
                raise X.PathEnd("violated")
            if c == "unsat":
                res["discharged"] += 1
                return
            res["undischarged"].append("%s: solver %s, no reproducible counterexample" % (msg, r))
        E.obligation = obligation

        def outcome(k):
            res["outcomes"][k] = res["outcomes"].get(k, 0) + 1

        E.work = [[]]
        deadline = t0 + E.lim["wall"]
        ctors = ctor_list(E, M)
        while E.work and not state["stop"]:
            if res["paths"] >= E.lim["paths"] or time.time() > deadline:
                res["errors"].append("exploration budget exhausted with %d paths pending" % len(E.work))
                break
            prefix = E.work.pop()
            E.reset_path(prefix)
            E.throws = {}
            E.pc_soft = []
            E.frame = []
            res["paths"] += 1
            normal = False
            try:
                for c in ctors:
                    E.call(c, [])
                E.call(fn, [])
                outcome("completed")
                normal = True
            except X.Infeasible:
                outcome("infeasible")
                res["paths"] -= 1
            except X.PathEnd as e:
                outcome(e.why)
            except X.VFThrow as e:
                outcome("uncaught " + E.tname(e.tinfo))
                res["obligations"] += 1
                c = candidate("uncaught exception " + E.tname(e.tinfo), [z3.BoolVal(True)])
                if c == "unsat":
                    res["discharged"] += 1
                elif c is not True:
                    res["undischarged"].append("uncaught exception not reproduced")
            except X.Bug as e:
                outcome(e.kind)
                res["obligations"] += 1
                c = candidate("%s: %s" % (e.kind, e.msg), [z3.BoolVal(True)], e.kind)
                if c == "unsat":
                    res["discharged"] += 1
                elif c is not True:
                    res["undischarged"].append("%s: %s: not reproduced natively" % (e.kind, e.msg))
            except (Unsupported, X.Budget) as e:
                outcome("not encoded")
                m = "not encoded: %s" % e
                if m not in res["errors"]:
                    res["errors"].append(m)
                if verbose:
                    traceback.print_exc()
                # try the inputs that lead here on the real code
                r, mod = E.query([], 3000, quick=False)
                if not (r == z3.sat and try_model("path leaves the encodable fragment (%s)" % e, mod)):
                    try_random("path leaves the encodable fragment (%s)" % e)
            E.stats["instructions"] += E.steps
            if normal and res["witnesses"] < 12 and state.setdefault("tries", 0) < ((0 if dom == "B" else 1) if E.lazy else 16) and not state["stop"]:
                state["tries"] += 1
                r, m = E.query([], 4000, quick=False)
                if r == z3.sat:
                    res["witnesses"] += 1
                    asg = assignment(E, m)
                    if len(res["samples"]) < 2:
                        res["samples"].append({"harness": hname, "path": len(E.decisions), "witness": [(n, [float("%.6g" % x) for x in v]) for n, v in asg][:12]})
                    st, out, path = rep.run(hname, asg, trace=True)
                    if st in ("fail", "crash"):
                        violation("path witness fails natively", st, out, path)
                    elif st == "ok":
                        bad = compare(E, m, out)
                        if bad:
                            res["mismatch"].append(bad)
                        else:
                            res["validated"] += 1
        if res["undischarged"] and not state["stop"]:
            state["tried_random"] = False
            seed += 1
            try_random(res["undischarged"][0].split(":")[0])
        res["reached"] = sorted(E.reached)
        res["maxerr"] = E.maxerr
        res["facts"] = E.nfacts
        res["notes"] = sorted(set(E.notes))[:5]
        res["stats"] = E.stats
        res["pending"] = len(E.work)
        res["functions"] = sorted(E.encoded)
        # labels in the harness that were never reached are vacuous
    except BuildError as e:
        res["errors"].append("build: " + str(e)[-1500:])
    except Exception as e:
        res["errors"].append("internal: %r %s" % (e, traceback.format_exc()[-1500:]))
    res["wall"] = time.time() - t0
    return res


def compare(E, m, out):
    """native values of every vf_close against the encoding's values under the model"""
    vals = [l.split(None, 3) for l in out.splitlines() if l.startswith("VAL ")]
    exp = [(msg, a, b) for msg, a, b in E.outs]
    vals = [v for v in vals]
    by = {}
    for v in vals:
        by.setdefault(v[3], []).append(float(v[1]))
    seen = {}
    for msg, a, b in exp:
        k = seen.get(msg, 0)
        seen[msg] = k + 1
        l = by.get(msg, [])
        n = sum(1 for x, _, _ in exp if x == msg)
        if len(l) != n or any(x in E.D.V.isint for mo in a.p.m for x, _ in mo):
            continue        # a rounded value may legitimately differ by one within the error
        ev = peval(E, m, a.p)
        tolr = a.e + 2e-3 * max(1.0, abs(ev), a.mag() * 0.01)
        if abs(ev - l[k]) > tolr:
            if os.environ.get("VF_DBG"): print("MISMATCH", msg, a.p.m, {x: (str(E.D.V.z[x]), zval(m, E.D.V.z[x])) for mo in a.p.m for x, _ in mo}, E.override, l, k)
            return "%s: encoding %.9g native %.9g" % (msg, ev, l[k])
    return None


def ctor_list(E, M):
    G = M.globals.get("llvm.global_ctors")
    out = []
    if G is not None:
        c = M.ginit(G)
        if c and c.kind == "agg":
            ent = sorted(((x.val[0].val, i, x.val[1]) for i, x in enumerate(c.val)), key=lambda t: t[:2])
            for pr, i, f in ent:
                if f.kind == "func":
                    out.append(f.val)
    return out


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.splitlines()
    except Exception:
        return list(names)


def repo_functions(names):
    keep = []
    for d in demangle(names):
        if re.search(r"\bAL::|qi::|anonymous namespace\)::", d) and not d.startswith("std::") and not d.startswith("boost::"):
            keep.append(d if len(d) < 160 else d[:157] + "...")
    return keep


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) harness=(\S+) label=\"([^\"]*)\" (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out


def replay(prop, hname, path):
    """re-run one recorded counterexample on a native build of the current sources; exit 0 = held, 1 = violated"""
    work = tempfile.mkdtemp(prefix="vf_replay_")
    try:
        for g in Spec(prop).groups:
            if ("(" + hname.split("_", 1)[1] + ")") in open(g["file"]).read():
                st, out = Replayer(g, work, prop).run_file(hname, os.path.abspath(path), san=True)
                print(out, end="")
                print("replay: " + st)
                return 1 if st in ("fail", "crash") else 0
        print("no such harness: " + hname)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if sys.argv[1] == "--replay":
        return replay(*sys.argv[2:5])
    prop = sys.argv[1]
    only = None
    verbose = "-v" in sys.argv
    if "--harness" in sys.argv:
        only = sys.argv[sys.argv.index("--harness") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    random.seed(seed)
    t0 = time.time()
    spec = Spec(prop)
    work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    shutil.rmtree(os.path.join(VERIF, "replays", prop), ignore_errors=True)
    code = 0
    try:
        jobs = []
        nat = []
        with ThreadPoolExecutor(8) as pool:
            with ThreadPoolExecutor(4) as p2:
                fut = []
                for gi, g in enumerate(spec.groups):
                    nat.append(p2.submit(build_native, g, work))
                    fut.append((gi, p2.submit(build_ir, g, work, pool)))
                for gi, f in enumerate(nat):
                    try:
                        f.result()
                    except BuildError as e:
                        if "undefined reference" not in str(e):
                            raise
                        # the sources now depend on one another differently: link everything
                        g = spec.groups[gi]
                        g["src"] += [x for x in source_set("@math") if x not in g["src"]]
                        build_native(g, work)
                        fut[gi][1].exception()
                        fut[gi] = (gi, p2.submit(build_ir, g, work, pool))
                        WIDE.append(gi)
                for gi, f in fut:
                    bc, hs = f.result()
                    for h in hs:
                        if only is None or only == h:
                            jobs.append((prop, gi, bc, h, work, seed, verbose))
        tb = time.time() - t0
        results = []
        if verbose and len(jobs) == 1:
            results = [run_harness(jobs[0])]
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(min(8, len(jobs)) or 1, maxtasksperchild=1) as p:
                for r in p.imap_unordered(run_harness, jobs):
                    results.append(r)
                    if verbose:
                        print(json.dumps({k: v for k, v in r.items() if k not in ("functions", "samples")}, indent=1))
    except BuildError as e:
        print("BUILD FAILURE\n" + str(e))
        shutil.rmtree(work, ignore_errors=True)
        return 2
    known = known_findings(prop)
    nviol = 0
    for r in sorted(results, key=lambda r: r["harness"]):
        for v in r["violations"]:
            k = [x for x in known if x[1] == r["harness"] and (x[2] in v["what"] or x[2] in v["native"])]
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0][3]))
                continue
            nviol += 1
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
            print("  harness %s: %s | %s" % (r["harness"], v["what"], v["native"]))
        flag = "" if not (r["undischarged"] or r["errors"] or r["mismatch"]) else "  INCONCLUSIVE"
        print("%-34s %-11s paths=%-4d obligations=%d/%d queries=%d solver=%.1fs wall=%.1fs%s" % (
            r["harness"], r["domain"], r["paths"], r["discharged"], r["obligations"], r.get("stats", {}).get("queries", 0),
            r.get("stats", {}).get("solver_s", 0), r["wall"], flag))
        for x in (r["undischarged"] + r["errors"] + r["mismatch"] + r["notes"])[:6]:
            print("    ! " + x)
    write_evidence(prop, spec, results, seed, time.time() - t0, nviol, tb)
    shutil.rmtree(work, ignore_errors=True)
    if nviol:
        return 1
    if any("internal:" in e or "build:" in e for r in results for e in r["errors"]):
        return 3
    vac = [r["harness"] for r in results if r["obligations"] == 0]
    if vac:
        print("VACUOUS: no assertion reached in " + ", ".join(vac))
        return 3 if not any(r["errors"] for r in results) else 0
    return 0


def write_evidence(prop, spec, results, seed, wall, nviol, tb):
    S = lambda k: sum(r.get("stats", {}).get(k, 0) for r in results)
    fns = set()
    for r in results:
        fns |= set(r["functions"])
    fl = repo_functions(sorted(fns))
    ev = {
        "property": prop, "tier": tier(), "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in results),
            "transitions": S("instructions"),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": [s for r in results for s in r["samples"]][:6],
            "obligations": sum(r["obligations"] for r in results),
            "discharged": sum(r["discharged"] for r in results),
            "discharged_by_simplifier": sum(r["trivial"] for r in results),
            "undischarged": ["%s: %s" % (r["harness"], u) for r in results for u in r["undischarged"] + r["errors"]],
            "queries": S("queries"), "solver_s": round(S("solver_s"), 2), "compile_s": round(tb, 1),
            "functions_encoded": fl, "n_functions_encoded": len(fl),
            "bounds": [b for g in spec.groups for b in g["bounds"]],
            "harnesses": [{"name": r["harness"], "domain": r["domain"], "paths": r["paths"], "obligations": r["obligations"],
                           "discharged": r["discharged"], "witnesses": r["witnesses"], "validated": r["validated"], "max_rounding_error_bound": r["maxerr"],
                           "outcomes": r["outcomes"], "wall_s": round(r["wall"], 2)} for r in sorted(results, key=lambda r: r["harness"])],
            "meaning": "states = symbolic paths explored to their end; transitions = IR instructions executed symbolically; "
                       "traces_validated = path witnesses (solver models) replayed on the native build with the same outcome",
        },
        "assumptions": ["libm functions are within 2 ulp of the real functions",
                        "clang's IR (-O2, no fast-math, no vectorisation) and g++ -O2 implement the same IEEE-754 semantics",
                        "real-domain verdicts hold within the stated input ranges and tolerances; B-domain verdicts are bit-precise"] +
                       [a for g in spec.groups for a in g["assume"]],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
