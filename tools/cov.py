#!/usr/bin/env python3
"""Which lines of the library do the quick checks execute? cov.py [Cxx...]. Not a check."""
import glob, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V)
import run
run.BASE = ["-O0", "-g", "--coverage", "-w"]
cs = sys.argv[1:] or sorted(os.path.basename(f)[:-4] for f in glob.glob(V + "/checks/C*.cpp"))
hit = {}
_sh = run.sh
def sh(c):
    if "-o" in c and c[c.index("-o") + 1].endswith("/check"): c = [x for x in c if x != "-fsanitize=address"] + ["--coverage", "-Wl,-u,__gcov_dump"]
    return _sh(c)
run.sh = sh
for c in cs:
    if c == "C36": continue
    bd = tempfile.mkdtemp(prefix="hvcov.")
    exe = run.build(c, bd)
    ev = bd + "/ev"; os.makedirs(ev)
    r = subprocess.run([exe, "quick", "1", ev + "/e.json", ev, "/dev/null", "300"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(c, r.stdout.strip().split("\n")[-1][:150], flush=True)
    g = bd + "/g"; os.makedirs(g)
    subprocess.run("cd %s && gcov -p -o %s %s/*.gcda >/dev/null 2>&1" % (g, bd, bd), shell=True)
    for f in glob.glob(g + "/*.gcov"):
        for l in open(f, errors="replace"):
            m = re.match(r"\s*([^:]+):\s*(\d+):(.*)", l)
            if not m: continue
            if m.group(2) == "0":
                if m.group(3).startswith("Source:"): src = m.group(3)[7:]
                continue
            if "/modules/" not in src or m.group(1).strip() == "-": continue
            k = (src.split("/modules/")[1], int(m.group(2)))
            n = 0 if m.group(1).strip().strip("*") in ("#####", "=====") else int(re.sub(r"\D", "", m.group(1)) or 0)
            o = hit.get(k, (0, ""))
            hit[k] = (o[0] + n, m.group(3))
    shutil.rmtree(bd)
fs = sorted({k[0] for k in hit})
for f in fs:
    L = sorted(k[1] for k in hit if k[0] == f)
    miss = [n for n in L if hit[(f, n)][0] == 0]
    print("%s: %d of %d lines" % (f, len(L) - len(miss), len(L)))
    for n in miss: print("   %d: %s" % (n, hit[(f, n)][1].strip()[:110]))
