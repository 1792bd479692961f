#!/usr/bin/env python3
"""Sensitivity measurement (development only, no check uses it): mutates the library line by line in a scratch copy and
runs the checks that execute the line.   mutate.py cover WORK | mutate.py run WORK [seed] [count]"""
import sys, os, re, json, random, subprocess, shutil, glob, time
WORK = sys.argv[2]
V = os.path.join(WORK, "verif"); R = os.path.join(WORK, "repo")
SRC = ["src/group.cpp", "src/group_utils.cpp", "src/lbc_blocked.cpp", "src/lbc_csc.cpp", "src/lbc_csc_dag.cpp", "src/lbc_tree.cpp",
       "src/lbc_utils.cpp", "src/hdagg/hdagg.cpp", "utils/BCSCMatrix.cpp", "utils/FusionDemo.cpp", "utils/etree.cpp", "utils/lfactor_creation.cpp",
       "utils/metis_interface.cpp", "utils/sparse_inspector.cpp", "utils/sparse_io.cpp", "utils/sparse_utilities.cpp", "utils/utils.cpp",
       "include/aggregation/sparse_io.h", "include/aggregation/def.h", "include/aggregation/utils.h", "include/aggregation/Profiler.h",
       "include/aggregation/csv_utils.h", "include/aggregation/BCSCMatrix.h", "include/aggregation/lfactor_creation.h", "utils/external/amd_1.c", "utils/external/amd_2.c", "utils/external/amd_aat.c",
       "utils/external/amd_order.c", "utils/external/amd_preprocess.c", "utils/external/amd_valid.c", "utils/external/amd_post_tree.c", "utils/external/amd_postorder.c",
       "example/sptrsv_src/sptrsv.cpp", "example/sptrsv_src/executor.cpp", "utils/test_utils.cpp", "utils/external/mmio.cpp", "utils/external/amd_info.c", "utils/external/amd_control.c", "utils/external/SuiteSparse_config_s.c",
       "include/aggregation/group.h", "include/aggregation/hdagg.h", "include/aggregation/lbc_utils.h", "include/aggregation/sparse_utilities.h", "example/sptrsv_demo_utils.h", "example/sptrsv_src/BLAS.cpp", "include/aggregation/test_utils.h"]

def prep():
    shutil.rmtree(WORK, ignore_errors=True); os.makedirs(WORK)
    shutil.copytree("/verif", V, ignore=shutil.ignore_patterns("build", ".git", "seeded", "replay")); subprocess.check_call(["git", "clone", "-q", "/repo", R])

def cover():
    prep()
    sys.path.insert(0, V); os.environ["VERIF_REPO"] = R
    import check
    check.FLAVORS["G"] = dict(repo=["-O0", "-g1", "-w", "-DNDEBUG", "-DMETIS", "--coverage"], har=["-O1", "-w", "-DNDEBUG", "-DMETIS", "-DFLAVOR_A", "-DMC_GCOV"], link=["--coverage"], shim=None)
    cov = {}
    for p, spec in sorted(check.CHECKS.items()):
        h = spec["runs"][0]["harness"]
        if spec["runs"][0]["flavor"] == "S" or p == "C28": continue
        exe = check.build(h, "G")
        for f in glob.glob(V + "/build/obj/*.gcda"): os.remove(f)
        w = os.path.join(WORK, "w"); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        env = dict(os.environ, MC_CWD=w); t = time.time(); ps = []
        for k in range(8):
            sc = w + "/s%d" % k; os.makedirs(sc)
            ps.append(subprocess.Popen([exe, "--prop", p, "--tier", "quick", "--shard", str(k), "--nshards", "8", "--resume", "0", "--out", w + "/o%d" % k, "--shm", w + "/m%d" % k, "--known", V + "/KNOWN_FINDINGS", "--scratch", sc], cwd=w, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        rc = [q.wait() for q in ps]
        n = 0
        for g in glob.glob(V + "/build/obj/*.gcda"):
            o = subprocess.run(["gcov", "--json-format", "--stdout", g], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=w).stdout.decode()
            for line in o.splitlines():
                if not line.strip(): continue
                for f in json.loads(line)["files"]:
                    fn = f["file"]
                    if not fn.startswith(R + "/"): continue
                    fn = fn[len(R) + 1:]
                    for l in f["lines"]:
                        cov.setdefault(fn + ":%d" % l["line_number"], {}); n += 1
                        if l["count"]: cov[fn + ":%d" % l["line_number"]][p] = l["count"]
        print(p, rc, n, "%.1fs" % (time.time() - t)); sys.stdout.flush()
    json.dump(cov, open(WORK + "/cov.json", "w"))

OPS = [(r"(?<![<>=!\-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\+ 1\b", ""), (r"\- 1\b", ""), (r"(?<=[\w\]])\+1\b", ""), (r"(?<=[\w\]])-1\b", ""), (r"(?<=[\w\])]) \+ (?=[\w(])", " - "), (r"(?<=[\w\])]) - (?=[\w(])", " + "),
       (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"\* ?sizeof\((int|double)\)", ""), (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"), (r"!(?=[\w(])", ""), (r"-1\b", "0")]

def candidates(cov):
    out = []
    for f in SRC:
        if not os.path.exists(R + "/" + f): continue
        ls = open(R + "/" + f, errors="replace").read().split("\n")
        for i, l in enumerate(ls, 1):
            ps = cov.get("%s:%d" % (f, i))
            if not ps: continue
            s = l.strip()
            if s.startswith("//") or "std::cout" in s or "std::cerr" in s or s.startswith("#") or "assert(" in s: continue
            code = l.split("//")[0]
            for rx, rep in OPS:
                for m in re.finditer(rx, code):
                    if "template" in code or "#include" in code: continue
                    # template brackets and declarations of containers
                    if rx.startswith("(?<![<>") and re.search(r"(vector|map|set|pair|static_cast|unique_ptr|list|queue|function|numeric_limits)\s*<", code): continue
                    out.append((f, i, l, code[:m.start()] + rep + code[m.end():], ps))
            if s.endswith(";") and re.match(r"^[\w\->.\[\]\*():+ ]+(=|\+=|-=|\+\+|--|\()", s) and not re.match(r"^(int|double|auto|const|bool|size_t|std::|return|else|for|if|CSC|CSR|char|FILE)\b", s):
                out.append((f, i, l, " " * (len(l) - len(l.lstrip())) + ";", ps))
    return out

def run():
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1; count = int(sys.argv[4]) if len(sys.argv) > 4 else 100
    cov = json.load(open(WORK + "/cov.json")); rnd = random.Random(seed); c = candidates(cov)
    byline = {}
    for x in c: byline.setdefault((x[0], x[1]), []).append(x)
    done = set(open(os.environ["MU_DONE"]).read().split()) if "MU_DONE" in os.environ else set()
    keys = sorted(q for q in byline if "%s:%d" % q not in done); rnd.shuffle(keys); print(len(c), "mutants on", len(keys), "lines")
    tm = {}  # running time per check
    env = dict(os.environ, VERIF_REPO=R, VERIF_TIER="quick", VERIF_FLAVORS="A", VERIF_STOP="1")
    log = open(WORK + "/mut-%d.log" % seed, "a")
    k = 0
    for key in keys[:count]:
        f, i, old, new, ps = rnd.choice(byline[key]); p = R + "/" + f; text = open(p, errors="surrogateescape").read()
        ls = text.split("\n"); assert ls[i - 1] == old; ls[i - 1] = new
        open(p, "w", errors="surrogateescape").write("\n".join(ls)); verdict = "SURVIVED"; t = time.time(); ran = []
        try:
            for c_ in sorted(ps, key=lambda q: tm.get(q, 5)):
                t1 = time.time(); r = subprocess.run(["python3", V + "/check.py", c_], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); o = r.stdout.decode(errors="replace"); ran.append(c_)
                if r.returncode == 0: tm[c_] = time.time() - t1
                if r.returncode == 1: verdict = "killed by " + c_; break
                if "compiling" in o and "failed" in o: verdict = "nocompile"; break
                if r.returncode != 0: verdict = "ERROR %s %s" % (c_, [l for l in o.splitlines() if "check error" in l][:1])
        finally:
            open(p, "w", errors="surrogateescape").write(text)
        m = "%s %s:%d  %s  =>  %s   [%.0fs %s]" % (verdict, f, i, old.strip(), new.strip(), time.time() - t, ",".join(ran)); print(m); log.write(m + "\n"); log.flush(); sys.stdout.flush()
{"cover": cover, "run": run}[sys.argv[1]]()
