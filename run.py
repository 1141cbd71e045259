#!/usr/bin/env python3
"""run.py Cxx quick|thorough [--only N | --worker W N]

Builds the library from the working tree of /repo (REPO overrides) together with
the explorer and one check, runs the check and lets it write its evidence file.
Exit 0: the property held on everything explored; 1: VIOLATION; 2: the check failed."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
SEAMS = {"malloc": "hv_malloc", "calloc": "hv_calloc", "realloc": "hv_realloc", "free": "hv_free",
         "strdup": "hv_strdup", "__strdup": "hv_strdup2", "exit": "hv_exit", "fopen": "hv_fopen", "fopen64": "hv_fopen64", "rand": "hv_rand",
         "srand": "hv_srand", "random": "hv_random", "srandom": "hv_srandom", "time": "hv_time"}
SRC = ["core/src/c_src", "process/src/c_src", "algorithm/src", "highgui/src", "core/src/cxx_src", "process/src/cxx_src"]
# checks that watch threads: the library is instrumented by -fsanitize=thread, mc/race.h takes the callbacks
RACE = dict(SEAMS, **{f: "hv_race_" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "fopen", "fopen64")}, __strdup="hv_race_strdup2", **{"__%s_%s" % (i, f): "hv_%s_%s" % (i, f) for i in ("isoc99", "isoc23") for f in ("sscanf", "fscanf")},
            **{f: "hv_" + f for f in ("memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strtok", "sprintf", "snprintf", "fgets", "fread", "fwrite", "fputs", "fclose", "atof", "atoi", "strcmp", "strlen", "strncmp", "strcasecmp", "strchr", "strrchr", "strstr", "strspn", "strcspn", "memcmp", "qsort", "fprintf", "sscanf", "fscanf")},
            pthread_mutex_lock="hv_mutex_lock", pthread_mutex_unlock="hv_mutex_unlock", pthread_mutex_trylock="hv_mutex_trylock", pthread_once="hv_once")
INC = ["test_tool", "modules/core/include", "modules/process/include", "modules/algorithm/include", "modules/highgui/include"]
DEFS = ["-D_cplusplus", "-Dgdal_switch=1"]
WRAP = ["-Wl,--wrap=" + f for f in ("create_simple_mat", "create_simple_mat_with_data", "create_hyper_mat", "create_hyper_mat_with_data")]
BASE = ["-O1", "-fno-builtin-malloc", "-fno-builtin-calloc", "-fno-builtin-realloc", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-w", "-fno-strict-aliasing"]


def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build(prop, bd):
    inc = ["-I" + os.path.join(REPO, i) for i in INC] + ["-I/usr/include/gdal", "-I/usr/include/SDL"]
    chk = os.path.join(HERE, "checks", prop + ".cpp")
    text = open(chk).read()
    cxx = "HV_CXX" in text
    race = '"race.h"' in text
    seams = RACE if race else SEAMS
    plain = [b for b in BASE if b != "-fsanitize=address"]
    lbase = plain + ["-O0", "-fsanitize=thread", "-U_FORTIFY_SOURCE"] if race else BASE
    cbase = plain if race else BASE
    jobs = []
    for d in SRC:
        for f in sorted(glob.glob(os.path.join(REPO, "modules", d, "*.c")) + glob.glob(os.path.join(REPO, "modules", d, "*.cpp"))):
            if f.endswith(".cpp") and not cxx:
                continue
            o = os.path.join(bd, "lib_" + re.sub(r"\W", "_", os.path.relpath(f, REPO)) + ".o")
            cc = ["g++", "-std=gnu++17"] if f.endswith(".cpp") else ["gcc"]
            jobs.append((cc + lbase + DEFS + inc + ["-I" + os.path.dirname(f), "-c", f, "-o", o], o, True))
    for f in (os.path.join(HERE, "mc", "hv.cpp"), chk):
        o = os.path.join(bd, os.path.basename(f) + ".o")
        jobs.append((["g++", "-std=gnu++17"] + cbase + DEFS + ["-I" + os.path.join(HERE, "mc"), "-I" + os.path.join(HERE, "checks")] + inc + ["-c", f, "-o", o], o, False))

    def one(j):
        cmd, o, lib = j
        r = sh(cmd)
        if r.returncode:
            return cmd, r.stdout
        if lib:
            r = sh(["objcopy"] + sum((["--redefine-sym", a + "=" + b] for a, b in seams.items()), []) + [o])
            if r.returncode:
                return ["objcopy", o], r.stdout
        return None

    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for e in ex.map(one, jobs):
            if e:
                print("ERROR: build failed: " + " ".join(e[0]))
                print(e[1][-4000:])
                sys.exit(2)
    ar = os.path.join(bd, "libhv.a")
    r = sh(["ar", "rcs", ar] + [j[1] for j in jobs if j[2]])
    exe = os.path.join(bd, "check")
    r = sh(["g++"] + ([] if race else ["-fsanitize=address"]) + WRAP + ["-o", exe] + [j[1] for j in jobs if not j[2]] + [ar] + (["-lgdal"] if cxx else []) + ["-lm", "-lpthread"])
    if r.returncode:
        print("ERROR: link failed")
        print(r.stdout[-4000:])
        sys.exit(2)
    return exe


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = os.environ.get("VERIF_SEED", "1")
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    bd = tempfile.mkdtemp(prefix="hvbuild.")
    try:
        exe = build(prop, bd)
        secs = os.environ.get("HV_SECONDS", "600" if tier == "quick" else "3000")
        env = dict(os.environ, CPL_DEBUG="OFF", GDAL_PAM_ENABLED="NO")
        r = subprocess.run([exe, tier, str(int(seed)), os.path.join(ev, prop + ".json"), ev, os.path.join(HERE, "known-findings.txt"), secs] + sys.argv[3:], env=env)
        code = r.returncode
        sys.exit(code if code in (0, 1) else 2)
    finally:
        shutil.rmtree(bd, ignore_errors=True)


if __name__ == "__main__":
    main()
