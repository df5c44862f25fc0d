#!/usr/bin/env python3
"""Checks that the compilers the harnesses need are there and that the framework compiles."""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from plan import FLAVOURS
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
os.makedirs(os.path.join(HERE, ".build"), exist_ok=True)
bad = 0
with tempfile.TemporaryDirectory(dir=os.path.join(HERE, ".build")) as d:
    src = os.path.join(d, "t.cc")
    open(src, "w").write('#include "mc.hh"\nvoid register_scenarios() { mc::scenario("none", []() {}); }\n')
    for name, f in FLAVOURS.items():
        exe = os.path.join(d, name)
        r = subprocess.run(f["cxx"] + f["flags"] + ["-w", "-I" + os.path.join(HERE, "mc"), src, "-o", exe])
        ok = r.returncode == 0 and subprocess.run([exe, "--list"], stdout=subprocess.DEVNULL).returncode == 0
        print(name, "ok" if ok else "FAILED")
        bad |= not ok
sys.exit(bad)
