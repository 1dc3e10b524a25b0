#!/usr/bin/env python3-vt
"""setup: nothing to build, the engine is Python; check that the tools it drives are here and agree"""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir
for t in ("clang++-18", "llvm-link-18", "opt-18", "g++"):
    r = subprocess.run(["which", t], stdout=subprocess.PIPE)
    if r.returncode and t in ("g++",):
        sys.exit("missing " + t)
with tempfile.TemporaryDirectory() as d:
    s = os.path.join(d, "a.cpp")
    open(s, "w").write("extern \"C\" float f(float x) { return x * 2.0f; }\n")
    cc = "clang++-18" if subprocess.run(["which", "clang++-18"], stdout=subprocess.PIPE).returncode == 0 else "clang++"
    subprocess.check_call([cc, "-O2", "-c", "-emit-llvm", s, "-o", os.path.join(d, "a.bc")])
    m = ir.Module(os.path.join(d, "a.bc"))
    assert "f" in m.functions
print("z3", z3.get_version_string(), "ok")
