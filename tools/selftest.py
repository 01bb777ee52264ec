#!/usr/bin/env python3
"""setup_cmd: checks that the toolchain the checks need is there and that the engine finds, shrinks and replays a planted failure."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = r'''
#include "pbt.h"
PROP(sum, 1) { std::vector<int> v; int n = c.s.range(0, 20); for (int i = 0; i < n; i++) v.push_back(c.s.range(0, 100)); int t = 0; for (int x : v) t += x; c.nontrivial = n > 1; REQUIRE(t < 150, "sum ", t); }
'''
with tempfile.TemporaryDirectory() as d:
    open(d + "/t.cpp", "w").write(SRC)
    for cxx, fl in (("g++", ["-fsanitize=address,undefined"]), ("g++", ["-O1"]), ("g++", ["-fsanitize=thread"])):
        subprocess.check_call([cxx, "-std=c++17", "-w", "-I" + V + "/engine", *fl, V + "/engine/pbt.cpp", d + "/t.cpp", "-lpthread", "-o", d + "/t"])
    subprocess.check_call(["g++", "-std=c++17", "-w", "-O1", "-I" + V + "/engine", V + "/engine/pbt.cpp", d + "/t.cpp", "-lpthread", "-o", d + "/t"])
    r = subprocess.run([d + "/t", "run", "--seed", "1", "--cases", "2000", "--workers", "2", "--dir", d, "--out", d + "/o.json", "--replay", d + "/r.replay", "--tier", "0"], capture_output=True, text=True)
    assert r.returncode == 1, (r.returncode, r.stdout, r.stderr)
    r = subprocess.run([d + "/t", "replay", "--file", d + "/r.replay", "--dir", d], capture_output=True, text=True)
    assert r.returncode == 1, (r.returncode, r.stdout, r.stderr)
print("self-test ok")
