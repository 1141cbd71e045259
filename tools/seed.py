#!/usr/bin/env python3
"""Build /verif/seeded from the definitions in seeds.py and check them in a scratch copy of /repo.
usage: seed.py make | verify [ID...] | catch [ID...]
No check uses this file; it only maintains the planted bugs."""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
sys.path.insert(0, HERE)
from seeds import SEEDS
PRE = r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <unistd.h>
#include <dirent.h>
extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
%s
float cal_edge_signal_energy(simple_mat mat);
long int hypercv_factorial(int n);
}
%s
#define REQ(c) do { if (!(c)) { printf("FAILED: %%s\n", #c); return 1; } } while (0)
'''
GUI = '#include "highgui/draw.h"'
CXX = '#include <iostream>\nusing namespace std;\n#include "gdal_priv.h"\n#include "cpl_conv.h"\n#include "cxx_include/hypercv_core.hpp"'
SH = r'''#!/bin/bash
# cwd: /repo after its build. Builds the program beside this file and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
r=$PWD
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
g++ -w -fpermissive -O0 -D_cplusplus -Dgdal_switch=1 $(gdal-config --cflags 2>/dev/null || echo -I/usr/include/gdal) \
	-I$r/modules/core/include -I$r/modules/process/include -I$r/modules/algorithm/include -I$r/modules/highgui/include \
	"$d/demo.cpp" -o "$t/demo" -L$r/_build/bin -lhypercv%s -lm -lpthread -Wl,-rpath,$r/_build/bin || exit 1
cd "$t" && timeout 100 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
def make(ids=()):
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        t = "/tmp/seedmk"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        sh(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        for f, n, a, b in s["edits"]:
            p = os.path.join(t, f); L = open(p, "rb").read().split(b"\n")
            a, b = a.encode(), b.encode()
            bl = sh(f"git -C /repo blame -s -L{n},{n} -- {f}").stdout
            if not bl.startswith("^"): print(s["id"], "NOT ORIGINAL", f, n, bl.strip())
            if a not in L[n-1]: print(s["id"], "NO MATCH", f, n, L[n-1]); continue
            L[n-1] = L[n-1].replace(a, b, 1)
            open(p, "wb").write(b"\n".join(L))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        src = PRE % (GUI if s.get("gui") else "", CXX if s.get("cxx") else "") + s["demo"].strip("\n") + "\n"
        open(os.path.join(d, "demo.cpp"), "w").write(src)
        open(os.path.join(d, "demo.sh"), "w").write(SH % (" -lgdal" if s.get("cxx") else "")); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["p"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(t)
def copy(t):
    shutil.rmtree(t, ignore_errors=True); sh(f"cp -a /repo {t}")
    sh(f"rm -rf {t}/_build")
    return build(t)
def build(t):
    r = sh(f"export CC=gcc CXX=g++; cmake -S {t} -B {t}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_C_FLAGS=-Wno-error -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C {t}/_build")
    return r.returncode == 0
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def tests(t):
    bad = []
    for s in STABLE:
        e, c = s.split("::")
        for n in (1, 17, 33, 49, 65, 81, 97, 113):
            w = f"{t}/_w/" + "x" * n; os.makedirs(w, exist_ok=True)
            if sh(f"cd {w} && timeout 100 {t}/_build/bin/{e} --gtest_filter={c}").returncode: bad.append(s); break
    return bad
def verify(ids):
    t = "/tmp/seedv"; copy(t)
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        d = os.path.join(OUT, s["id"]); out = []
        p0 = sh(f"cd {t} && bash {d}/demo.sh", timeout=300)
        if p0.returncode: out.append("DEMO FAILS ON CLEAN " + p0.stdout[-300:] + p0.stderr[-600:])
        if sh(f"git -C {t} apply {d}/patch.diff").returncode: out.append("NO APPLY")
        if not build(t): out.append("NO BUILD")
        b = tests(t)
        if b: out.append("TESTS " + ",".join(b))
        p1 = sh(f"cd {t} && bash {d}/demo.sh", timeout=300)
        if p1.returncode == 0: out.append("DEMO PASSES WITH BUG")
        sh(f"git -C {t} checkout -- . "); build(t)
        print(s["id"], "ok" if not out else out, "|", (p1.stdout + p1.stderr).strip()[-120:].replace("\n", " "), flush=True)
    shutil.rmtree(t)
def catch(ids):
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        t = "/tmp/seedc"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        sh(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git apply {OUT}/{s['id']}/patch.diff")
        r = sh(f"REPO={t} python3 {os.path.dirname(HERE)}/run.py {s['p']} quick")
        v = re.findall(r"VIOLATION property=.*", r.stdout)
        print(s["id"], s["p"], "rc", r.returncode, (v[0] if v else "MISSED " + r.stdout[-200:])[:160], flush=True)
        shutil.rmtree(t)
if __name__ == "__main__":
    {"make": lambda a: make(a), "verify": verify, "catch": catch}[sys.argv[1]](sys.argv[2:])
