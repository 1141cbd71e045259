#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py OUT N SEED [file-regex]
Plants one small change at a time in a source file of the library, rebuilds that file only, and runs the
checks that cover the file until one reports a failure. Prints the survivors. Not a check."""
import os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, V)
import run
MAP = {
 "hypermat.c": "C05 C06 C03 C01 C04 C32", "simplemat.c": "C07 C14 C08 C03 C04 C19 C32", "struct_2D.c": "C11 C03 C32",
 "draw.c": "C26 C04 C32", "GeometricTransformation.c": "C15 C04 C32", "RadiometricCalibration.c": "C17 C04 C32", "colortransform.c": "C19 C30 C32 C04",
 "datatypechange.c": "C09 C04 C32", "filter.c": "C12 C13 C14 C04 C32", "gradient.c": "C13 C04 C32", "imageprocess.c": "C01 C02 C33 C14 C15 C04 C32",
 "mathprocess.c": "C33 C32", "matrixprocess.c": "C18 C31 C23 C32", "morphology.c": "C11 C04 C32", "spectralprocess.c": "C02 C16 C08 C04 C32", "threshold.c": "C10 C04 C32",
 "EdgeSignalEnergy.c": "C34 C04 C32", "HisEqualization.c": "C21 C04 C32", "cem.c": "C23 C04 C32", "cluster.c": "C22 C04 C32", "dft.c": "C20 C04 C32", "normalize.c": "C21 C04 C32", "pca.c": "C31 C04 C32", "shapematch.c": "C27 C04 C32"}
D = {"core": "modules/core/src/c_src/", "process": "modules/process/src/c_src/", "algorithm": "modules/algorithm/src/", "highgui": "modules/highgui/src/"}
def path(f):
    for d in D.values():
        if os.path.exists(os.path.join(run.REPO, d, f)): return d + f
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
SWAPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "="), ("-=", "+="), ("++", "--"), ("<", "<="), (">", ">="), ("+", "-"), ("-", "+"), ("*", "+"), ("/", "*"), ("%", "/")]
NAMES = [("rows", "cols"), ("samples", "lines"), ("lines", "bands"), ("i", "j"), ("j", "k"), ("x", "y"), ("width", "height"), ("min", "max"), ("start_row", "start_col"), ("top", "left"), ("src", "dst"), ("kx", "ky"), ("r", "g"), ("double", "float"), ("fabs", ""), ("short", "unsigned short"), ("m", "n"), ("left", "right"), ("top", "bottom")]
def mutants(line):
    out = []
    s = re.sub(r'//.*', '', line)
    if not s.strip() or s.strip().startswith(("#", "/*", "*", "//")): return out
    inq = [False] * (len(s) + 1); q = False
    for i, c in enumerate(s):
        if c == '"': q = not q
        inq[i] = q
    for m in re.finditer(r'<=|>=|==|!=|&&|\|\||\+=|-=|\+\+|--|->|<<|>>|<|>|\+|-|\*|/|%', s):
        if inq[m.start()]: continue
        for a, b in SWAPS:
            if m.group() == a: out.append(s[:m.start()] + b + s[m.end():])
    for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', s):
        if inq[m.start()]: continue
        v = int(m.group()); out.append(s[:m.start()] + str(v + 1) + s[m.end():])
        if v > 0: out.append(s[:m.start()] + str(v - 1) + s[m.end():])
    for m in re.finditer(r'\b\w+\b', s):
        if inq[m.start()]: continue
        for a, b in NAMES:
            if m.group() == a: out.append(s[:m.start()] + b + s[m.end():])
            elif m.group() == b and b: out.append(s[:m.start()] + a + s[m.end():])
    if re.match(r'^\s*[\w\[\]\*>.()+-]+.*;\s*$', s) and not re.match(r'^\s*(const |unsigned |int |float |double |char |short |simple_mat |hyper_mat |return|for|while|if|FILE|static|long )', s): out.append("")
    if re.match(r'^\s*if\s*\(', s): out.append(re.sub(r'if\s*\((.*)\)', r'if(!(\1))', s, count=1)); out.append(re.sub(r'if\s*\((.*)\)', r'if(0 && (\1))', s, count=1))
    return [o for o in dict.fromkeys(out) if o != s]
def main():
    out, N, seed, rx = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), (sys.argv[4] if len(sys.argv) > 4 else ".")
    W = "/tmp/mut/w%d" % os.getpid(); os.makedirs(W)
    random.seed(seed)
    inc = ["-I" + os.path.join(run.REPO, i) for i in run.INC] + ["-I/usr/include/gdal", "-I/usr/include/SDL"]
    def comp(src, f, o):
        r = sh((["g++", "-std=gnu++17"] if f.endswith(".cpp") else ["gcc"]) + run.BASE + run.DEFS + inc + ["-I" + os.path.join(run.REPO, os.path.dirname(f)), "-c", src, "-o", o])
        if r.returncode: return False
        sh(["objcopy"] + sum((["--redefine-sym", a + "=" + b] for a, b in run.SEAMS.items()), []) + [o]); return True
    libs, srcs = {}, []
    for d in run.SRC:
        for f in sorted(os.listdir(os.path.join(run.REPO, "modules", d))):
            if not f.endswith((".c", ".cpp")): continue
            p = "modules/" + d + "/" + f; o = f"{W}/{'x' if f.endswith('.cpp') else ''}{f}.o"
            assert comp(os.path.join(run.REPO, p), p, o); libs["x" + f if f.endswith(".cpp") else f] = o
    need = sorted({c for f in MAP for c in MAP[f].split() if re.search(rx, f)})
    def cc(n):
        src = f"{V}/mc/hv.cpp" if n == "hv" else f"{V}/checks/{n}.cpp"
        sh(["g++", "-std=gnu++17"] + run.BASE + run.DEFS + ["-I" + V + "/mc", "-I" + V + "/checks"] + inc + ["-c", src, "-o", f"{W}/{n}.co"])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex: list(ex.map(cc, need + ["hv"]))
    allm = []
    for f in MAP:
        if not re.search(rx, f): continue
        p = path(f); L = open(os.path.join(run.REPO, p), encoding="latin1", newline="").read().split("\n")
        com = False
        for i, l in enumerate(L):
            if "/*" in l: com = True
            if not com:
                ms = mutants(l.rstrip("\r"))
                if ms: allm.append((f, i, random.choice(ms)))
            if "*/" in l: com = False
    random.shuffle(allm)
    log = open(out, "a")
    def objtext(o): return re.sub(r'(?m)^.*file format.*$', '', sh(["objdump", "-dr", "-s", "-j", ".text", "-j", ".rodata", "-j", ".text.startup", o]).stdout)
    killed = surv = 0
    for f, i, new in allm[:N]:
        p = path(f); L = open(os.path.join(run.REPO, p), encoding="latin1", newline="").read().split("\n"); old = L[i]
        L[i] = new; src = f"{W}/{f}"; open(src, "w", encoding="latin1", newline="").write("\n".join(L))
        o = f"{W}/mut.o"
        if not comp(src, p, o): continue
        if objtext(o) == objtext(libs[f]): continue
        t0 = time.time(); hit = None
        for c in MAP[f].split():
            exe = f"{W}/x"
            r = sh(["g++", "-fsanitize=address"] + run.WRAP + ["-o", exe, f"{W}/{c}.co", f"{W}/hv.co", o] + [v for k, v in libs.items() if k != f and (k[0] != "x" or c == "C32")] + (["-lgdal"] if c == "C32" else []) + ["-lm", "-lpthread"])
            if r.returncode: print("link", r.stdout[-300:]); break
            ev = f"{W}/ev"; os.makedirs(ev, exist_ok=True)
            r = sh([exe, "quick", "1", ev + "/e.json", ev, "/dev/null", "300"], env=dict(os.environ, HV_STOP="1"))
            if r.returncode != 0: hit = c; break
        if hit: killed += 1
        else: surv += 1
        if not hit: log.write(f"SURVIVED {f}:{i+1}\n  - {old.strip()}\n  + {new.strip()}\n"); log.flush()
        else: log.write(f"killed {f}:{i+1} by {hit} {time.time()-t0:.0f}s\n"); log.flush()
    log.write(f"TOTAL killed {killed} survived {surv}\n"); log.flush()
main()
