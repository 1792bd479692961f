#!/usr/bin/env python3
"""Runs one property check:  check.py C02 [--tier quick|thorough] [--replay FILE]

Rebuilds what it needs from /repo's working tree, explores, writes evidence/<id>.json, prints
VIOLATION / KNOWN-FINDING lines, exits 0 (held on everything explored), 1 (violation), 2 (check error)."""
import sys, os, json, time, hashlib, subprocess, shutil, signal, glob, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NCPU = os.cpu_count() or 4
JOBS = min(8, NCPU)

INC = ["-I" + REPO + "/include", "-I" + REPO + "/include/aggregation", "-I" + REPO + "/example/sptrsv_src/include",
       "-I" + REPO + "/example"]
BASE = ["-g1", "-w", "-DNDEBUG", "-DMETIS", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
ASAN = ["-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,bounds,bool,return,unreachable",
        "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR=1"]
OMP = ["-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__"]
PAPI = ["-DPAPI", "-DPROFILE", "-I" + HERE + "/src/papi", "-I" + REPO + "/profiler"]
WRAP = ("memset", "memcpy", "memmove", "malloc", "calloc", "realloc", "free")
FLAVORS = {
    # default build of the repository: OpenMP off
    "A": dict(repo=["-O1"] + BASE + ASAN, har=["-O1"] + BASE + ASAN, link=["-fsanitize=address,undefined"], shim=None),
    # OpenMP on, deterministic runtime shim, address sanitizer
    "B": dict(repo=["-O1"] + BASE + ASAN + OMP, har=["-O1"] + BASE + ASAN, link=["-fsanitize=address,undefined"], shim="asan"),
    # the profiling configuration: PAPI replaced by a stand-in that the harness controls
    "P": dict(repo=["-O1"] + BASE + ASAN + PAPI, har=["-O1"] + BASE + ASAN + PAPI, link=["-fsanitize=address,undefined"], shim=None),
    # OpenMP on, controlled scheduler with access-level events
    "S": dict(repo=["-O1"] + BASE + OMP + ["-fsanitize=thread"], har=["-O1"] + BASE,
              link=["-Wl," + ",".join("--wrap=" + f for f in WRAP + ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"))], shim="sched"),
}
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:max_malloc_fill_size=1048576:"
                    "malloc_fill_byte=190:max_free_fill_size=65536:free_fill_byte=222:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:"
                    "allow_user_segv_handler=0:handle_abort=1:detect_container_overflow=1:quarantine_size_mb=8:alloc_dealloc_mismatch=1:malloc_context_size=6",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "OMP_NUM_THREADS": "3",
}

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def h_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(fd.read())
    return h.hexdigest()


def repo_sources():
    s = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/hdagg/*.cpp") + glob.glob(REPO + "/utils/*.cpp")
               + glob.glob(REPO + "/example/sptrsv_src/*.cpp") + glob.glob(REPO + "/utils/external/*.cpp")
               + glob.glob(REPO + "/utils/external/*.c"))
    # SuperNodalTools.cpp needs MKL and is in no build target of the repository
    return [f for f in s if os.path.basename(f) != "SuperNodalTools.cpp"]


class BuildError(Exception):
    pass


def compile_one(src, flags, hdr_hash, std):
    key = hashlib.sha256((" ".join(flags) + std + hdr_hash + h_files([src])).encode()).hexdigest()[:24]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cc = ["gcc"] if src.endswith(".c") else ["g++", "-std=" + std]
    tmp = obj + ".%d.tmp" % os.getpid()
    r = sh(cc + flags + INC + ["-I" + HERE + "/src", "-c", src, "-o", tmp])
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
    if "-DSHIM_SCHED" in flags:  # the runtime itself must not be observed
        sh(["objcopy"] + sum((["--redefine-sym", "%s=__real_%s" % (f, f)] for f in WRAP), []) + [tmp])
    os.replace(tmp, obj)
    return obj


def build(harness, flavor, extra_flags=()):
    fl = FLAVORS[flavor]
    hdrs = [f for f in glob.glob(REPO + "/include/**/*", recursive=True) + glob.glob(REPO + "/example/sptrsv_src/include/*")
            + glob.glob(REPO + "/utils/external/**/*.h", recursive=True) + glob.glob(REPO + "/example/*.h")
            + glob.glob(REPO + "/profiler/*.h") + glob.glob(HERE + "/src/papi/*.h") if os.path.isfile(f)]
    hh = h_files(hdrs)
    myh = h_files(glob.glob(HERE + "/src/*.hpp") + glob.glob(HERE + "/src/omp/*"))
    jobs = []
    for s in repo_sources():
        f = list(fl["repo"])
        if s.endswith(".c"):
            f = [x for x in f if not x.startswith("-std")]
        jobs.append((s, f, hh, "c++11"))
    jobs.append((os.path.join(HERE, "src", harness + ".cpp"), fl["har"] + ["-DFLAVOR_" + flavor] + list(extra_flags), hh + myh, "c++17"))
    if fl["shim"] == "asan":
        jobs.append((os.path.join(HERE, "src/omp/shim.cpp"), ["-O1", "-g1", "-w", "-DSHIM_ASAN"], myh, "c++17"))
    if fl["shim"] == "sched":
        jobs.append((os.path.join(HERE, "src/omp/shim.cpp"), ["-O2", "-g1", "-w", "-DSHIM_SCHED"], myh, "c++17"))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    key = hashlib.sha256(("\n".join(objs) + " ".join(fl["link"])).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", "%s-%s-%s" % (harness, flavor, key))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        r = sh(["g++"] + fl["link"] + ["-o", tmp] + objs + ["-lmetis", "-lm", "-ldl", "-lpthread"])
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (harness, r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, exe)
    return exe


def prune_cache():
    for d, keep in (("obj", 600), ("bin", 60)):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p):
            fs = sorted((os.path.join(p, x) for x in os.listdir(p)), key=lambda x: os.path.getmtime(x), reverse=True)
            for f in fs[keep:]:
                try:
                    os.remove(f)
                except OSError:
                    pass


def read_shm(path):
    try:
        with open(path, "rb") as f:
            b = f.read(16)
        return int.from_bytes(b[:8], "little", signed=True)
    except OSError:
        return -1


def crash_summary(err):
    t = err.decode(errors="replace")
    lines = t.splitlines()
    key = [l for l in lines if "ERROR: AddressSanitizer" in l or "runtime error" in l or "MC-" in l or "terminate called" in l
           or "what():" in l or "hard rss limit" in l]
    frames = [l.strip() for l in lines if l.strip().startswith("#") and (REPO in l or "/repo/" in l)][:3]
    return (" / ".join(x.strip() for x in key[:3]) or "process died") + (" at " + " < ".join(frames) if frames else "")


def fill(env, idx):
    """Uninitialised heap memory holds negative numbers in one half of the shards and positive ones in the other."""
    e = dict(env)
    if idx % JOBS % 2:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("malloc_fill_byte=190", "malloc_fill_byte=1")
    return e


def run_proc(exe, args, env, timeout):
    p = subprocess.Popen([exe] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=env["MC_CWD"])
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err
    except subprocess.TimeoutExpired:
        p.kill()
        _, err = p.communicate()
        return -999, err


def run_shard(exe, prop, tier, k, n, work, env, timeout, known):
    """Runs one shard to the end, stepping over crashing cases. Returns (merged stats, failures, errors)."""
    out = os.path.join(work, "out%d.json" % k)
    shm = os.path.join(work, "shm%d" % k)
    resume = 0
    stats, fails, knowns, errors = [], [], [], []
    env = fill(env, k)
    patience = 10  # CPU seconds one case may take; a shard that exceeds them is run again with more before it counts
    while True:
        if os.path.exists(out):
            os.remove(out)
        sc = os.path.join(work, "scratch%d" % k)
        os.makedirs(sc, exist_ok=True)
        rc, err = run_proc(exe, ["--prop", prop, "--tier", tier, "--shard", str(k), "--nshards", str(n), "--resume", str(resume),
                                 "--out", out, "--shm", shm, "--known", known, "--scratch", sc, "--hang", str(patience)], env, timeout)
        if "MC_TRACE" in env:
            sys.stdout.write("".join(l + "\n" for l in err.decode(errors="replace").splitlines() if l.startswith("TIME ")))
        if rc == 97 and patience == 10:
            patience = 50
            continue
        if rc in (0, 3):
            with open(out) as f:
                d = json.load(f)
            stats.append(d)
            fails += d["fails"]
            knowns += d["knowns"]
            break
        if rc == -999:
            errors.append("shard %d ran out of time" % k)
            break
        idx = read_shm(shm)
        if idx < 0:
            errors.append("shard %d died before its first case (rc %d): %s" % (k, rc, err.decode(errors="replace")[-1500:]))
            break
        fails.append({"idx": idx, "crash": True, "hang": rc == 97, "msg": ("hang: " if rc == 97 else "crash: ") + crash_summary(err),
                      "desc": "", "key": ""})
        resume = idx + 1
        if len(fails) >= 2 or rc == 97:
            break
    return stats, fails, knowns, errors


def confirm(exe, prop, tier, f, work, env, known):
    """Replays one failing case alone; returns the confirmed failure or None."""
    out = os.path.join(work, "confirm.json")
    env = fill(env, f["idx"])
    shm = os.path.join(work, "confirm.shm")
    sc = os.path.join(work, "scratchc")
    os.makedirs(sc, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    rc, err = run_proc(exe, ["--prop", prop, "--tier", tier, "--only", str(f["idx"]), "--out", out, "--shm", shm, "--known", known,
                             "--scratch", sc, "--hang", "60"], env, 300)
    t = err.decode(errors="replace")
    desc = ""
    for l in t.splitlines():
        if l.startswith("CASE "):
            desc = l.split(" ", 2)[2]
            break
    if rc == 3:
        with open(out) as fd:
            d = json.load(fd)
        return dict(d["fails"][0], err=t[-6000:])
    if rc == 0:
        return None
    if rc == 97 or rc == -999:
        m = "does not terminate"
    else:
        m = "crash: " + crash_summary(err)
    return {"idx": f["idx"], "desc": desc, "key": m + " | " + desc, "msg": m, "err": t[-6000:]}


def load_known(prop):
    fs = set()
    p = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            pre = "finding: property=%s key=" % prop
            if l.startswith(pre):
                fs.add(l[len(pre):].rstrip("\n"))
    return fs


def main():
    args = sys.argv[1:]
    prop = args[0]
    if prop == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        try:
            for h, f in sorted({(r["harness"], r["flavor"]) for c in CHECKS.values() for r in c["runs"]}):
                build(h, f)
        except BuildError as e:
            print("setup: build failed (the checks will report it):", str(e)[:500])
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 2
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 2
        else:
            print("unknown argument", args[i]); return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=BUILD)
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["MC_CWD"] = work
    env["VERIF_SEED"] = str(seed)
    known = os.path.join(HERE, "KNOWN_FINDINGS")
    knownset = load_known(prop)
    try:
        if replay:
            d = json.load(open(replay))
            exe = build(d["harness"], d["flavor"])
            e2 = dict(env); e2.update(d.get("env", {}))
            c = confirm(exe, prop, d["tier"], {"idx": d["idx"]}, work, e2, "/dev/null")
            if c is None:
                print("replay: case %d passes" % d["idx"]); return 0
            print(c["err"]); print("replay: %s :: %s" % (c["desc"], c["msg"])); return 1
        totals = dict(states=0, calls=0, compared=0)
        spaces, outcomes, extra, samples = {}, {}, {}, []
        viol, errors, knowns = [], [], []
        tmo = 800 if tier == "quick" else 6 * 3600
        exes = []
        try:
            for run in spec["runs"]:
                skip = run["flavor"] not in os.environ.get("VERIF_FLAVORS", run["flavor"]).split(",")
                exes.append(None if skip else build(run["harness"], run["flavor"]))
        except BuildError as e:
            print("check error:", e); return 2
        tb = time.time()
        for run, exe in zip(spec["runs"], exes):
            if run.get("tiers") and tier not in run["tiers"]:
                continue
            if run["flavor"] not in os.environ.get("VERIF_FLAVORS", run["flavor"]).split(","):
                continue  # development only (tools/mutate.py)
            e2 = dict(env); e2.update(run.get("env", {}))
            n = JOBS
            rdir = os.path.join(work, run["flavor"] + run["harness"])
            os.makedirs(rdir, exist_ok=True)
            with ThreadPoolExecutor(n) as ex:
                res = list(ex.map(lambda k: run_shard(exe, prop, tier, k, n, rdir, e2, tmo, known), range(n)))
            fails = []
            for st, fl, kn, er in res:
                for d in st:
                    for a in totals:
                        totals[a] += d[a]
                    for src, dst in (("spaces", spaces), ("outcomes", outcomes), ("extra", extra)):
                        for kk, vv in d[src].items():
                            kk = run["flavor"] + ":" + kk
                            dst[kk] = (max(dst.get(kk, 0), vv) if src == "outcomes" or kk.endswith("max") else dst.get(kk, 0) + vv)
                    samples += d["samples"][:1]
                fails += fl
                errors += er
                knowns += kn
            fails.sort(key=lambda f: f["idx"])
            ndone = 0
            seen_idx = set()
            for f in fails:
                if f["idx"] in seen_idx:
                    continue
                seen_idx.add(f["idx"])
                if ndone >= 3 or len(viol) >= 3:
                    break
                c = confirm(exe, prop, tier, f, rdir, e2, known)
                if c is None:
                    # state-dependent failure: reproduce by running the shard prefix again
                    st, fl, kn, er = run_shard(exe, prop, tier, f["idx"] % n, n, rdir, e2, tmo, known)
                    again = [x for x in fl if x["idx"] == f["idx"]]
                    if again:
                        c = dict(again[0], err=again[0]["msg"], key=again[0].get("key") or again[0]["msg"])
                        c["msg"] += " (needs the preceding cases of its shard)"
                    else:
                        errors.append("failure of case %d did not reproduce: %s" % (f["idx"], f["msg"])); continue
                if c["key"] in knownset:
                    knowns.append(c); continue
                ndone += 1
                viol.append(dict(c, flavor=run["flavor"], harness=run["harness"], env=run.get("env", {})))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {
            "states": totals["states"], "transitions": totals["calls"], "traces_validated_against_impl": totals["compared"],
            "samples": samples[:12], "exhaustive": not errors and not viol,
            "spaces": spaces, "distinct_outcomes": outcomes, "counters": extra,
            "rule": spec.get("rule", "states = input/configuration points enumerated; transitions = calls into the implementation; "
                             "traces_validated_against_impl = complete outputs compared with the reference model"),
            "build_s": round(tb - t0, 2),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k in knowns:
            if k["key"] not in seen:
                seen.add(k["key"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["key"]))
        print("%s %s: states=%d transitions=%d validated=%d wall=%.1fs (build %.1fs)" % (
            prop, tier, totals["states"], totals["calls"], totals["compared"], time.time() - t0, tb - t0))
        for kk in sorted(spaces):
            print("   space %-40s states=%d distinct outcomes>=%d" % (kk, spaces[kk], outcomes.get(kk, 0)))
        for kk in sorted(extra):
            print("   count %-40s %d" % (kk, extra[kk]))
        if viol:
            os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
            for j, v in enumerate(viol):
                rp = os.path.join(HERE, "replay", "%s-%d.json" % (prop, j))
                with open(rp, "w") as f:
                    json.dump({"property": prop, "harness": v["harness"], "flavor": v["flavor"], "tier": tier, "idx": v["idx"],
                               "env": v["env"], "case": v["desc"], "message": v["msg"], "log": v.get("err", "")}, f, indent=1)
                print("  case: %s" % v["desc"])
                print("  %s" % v["msg"][:1500])
                print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        if errors:
            for e in errors:
                print("check error:", e)
            return 2
        return 0
    except BuildError as e:
        print("check error:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()


if __name__ == "__main__":
    sys.exit(main())
