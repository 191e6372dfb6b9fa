#!/usr/bin/env python3
"""Driver: builds /repo's working tree + the harness of one property, explores, reports.

usage: check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]
       check.py --setup
exit 0: held on everything explored; 1: VIOLATION line(s) printed; 2: the check itself failed.
"""
import sys, os, json, re, subprocess, hashlib, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = os.cpu_count() or 8
IFOPT_SRCS = {"src/Optimization/ipopt_interface.cpp", "src/Optimization/ipopt_solver.cpp",
              "src/Collocation/GaussLobattoLagrangeFunctionals.cpp"}
COMMON = ["-std=c++17", "-w", "-I" + VERIF + "/mc", "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3"]
VARIANTS = {
    # asserts stay on in both (NDEBUG is never defined), as in the project's own build
    "asan": dict(flags=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], link=["-fsanitize=address"]),
    "plain": dict(flags=["-O2", "-g1"], link=[]),
    "trace": dict(flags=["-O1", "-g1", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=0",
                         "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"], link=[],
                  harness_flags=["-O1", "-g1"]),
}

sys.path.insert(0, VERIF)
from registry import CHECKS  # noqa: E402


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def all_headers():
    hs = []
    for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "mc"), os.path.join(VERIF, "ifopt_shim")):
        for d, _, fs in os.walk(root):
            hs += [os.path.join(d, f) for f in fs]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        hs += [os.path.join(d, f) for f in fs if not f.endswith(".cpp")]
    return sorted(hs)


def compile_one(cxx, src, obj, flags):
    if os.path.exists(obj):
        return
    tmp = obj + ".tmp%d.o" % os.getpid()
    r = sh([cxx, "-c", src, "-o", tmp] + flags)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)


def build(check):
    """Compiles library + harness of a check; content-addressed, so never stale."""
    v = VARIANTS[check.get("variant", "asan")]
    ifopt = check.get("ifopt", False)
    inc = (["-I" + VERIF + "/ifopt_shim"] if ifopt else [])
    flags = v["flags"] + COMMON + inc + check.get("flags", [])
    hflags = v.get("harness_flags", v["flags"]) + COMMON + inc + check.get("flags", [])
    hdig = digest(all_headers())
    srcs = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    srcs = [s for s in srcs if ifopt or os.path.relpath(s, REPO) not in IFOPT_SRCS]
    os.makedirs(BUILD, exist_ok=True)
    jobs, objs = [], []
    for s in srcs:
        o = os.path.join(BUILD, "l-%s-%s.o" % (os.path.basename(s)[:-4], digest([s], hdig + " ".join(flags))))
        objs.append(o)
        jobs.append((s, o, flags))
    hobjs = []
    for hsrc in check["sources"]:
        s = os.path.join(VERIF, hsrc)
        hf = flags if hsrc in check.get("instrumented", []) else hflags
        o = os.path.join(BUILD, "h-%s-%s.o" % (os.path.basename(s)[:-4], digest([s], hdig + " ".join(hf))))
        hobjs.append(o)
        jobs.insert(0, (s, o, hf))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, check.get("cxx", "g++"), *j) for j in jobs]:
            f.result()
    exe = os.path.join(BUILD, "x-%s-%s" % (check["id"], hashlib.sha256("".join(objs + hobjs + v["link"]).encode()).hexdigest()[:20]))
    if not os.path.exists(exe):
        r = sh(["g++", "-o", exe + ".tmp"] + hobjs[:-1] + objs + hobjs[-1:] + v["link"] + check.get("link", []) + ["-lpthread"])
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout[-4000:])
        os.replace(exe + ".tmp", exe)
    return exe


def build_python():
    """The pygsplines extension module, built the way the project's build does it."""
    out = os.path.join(BUILD, "py")
    os.makedirs(out, exist_ok=True)
    incs = ["-I" + sh(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_path('include'))"]).stdout.strip()]
    suffix = sh(["/usr/bin/python3", "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).stdout.strip()
    san = ["-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC"]
    # the optimizer interface needs the absent ifopt, as in the project's own build here
    flags = ["-O0", "-fvisibility=hidden"] + san + COMMON + incs + ["-DIPOPT_INTERFACE_H"]
    lflags = ["-O1"] + san + COMMON
    hdig = digest(all_headers())
    bind = sorted(glob.glob(REPO + "/bindings/**/*.*", recursive=True))
    bdig = digest(bind, hdig)
    srcs = [s for s in sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True)) if os.path.relpath(s, REPO) not in IFOPT_SRCS]
    jobs, objs = [], []
    bo = os.path.join(BUILD, "b-bindings-%s.o" % bdig)
    jobs.append((REPO + "/bindings/bindings.cpp", bo, flags))
    for s in srcs:
        o = os.path.join(BUILD, "p-%s-%s.o" % (os.path.basename(s)[:-4], digest([s], hdig + " ".join(lflags))))
        objs.append(o)
        jobs.append((s, o, lflags))
    with ThreadPoolExecutor(NCPU) as ex:
        for f in [ex.submit(compile_one, "g++", *j) for j in jobs]:
            f.result()
    dst = os.path.join(out, hashlib.sha256("".join([bo] + objs).encode()).hexdigest()[:20])
    so = os.path.join(dst, "pygsplines" + suffix)
    if not os.path.exists(so):
        os.makedirs(dst, exist_ok=True)
        wo = bo[:-2] + ".weak.o"
        r = sh(["objcopy", "--wildcard", "--weaken-symbol=_ZN8gsplines12optimization*", bo, wo])
        if r.returncode:
            raise BuildError(r.stdout)
        r = sh(["g++", "-shared", "-fsanitize=address", "-o", so + ".tmp", wo] + objs)
        if r.returncode:
            raise BuildError("linking failed:\n" + r.stdout[-4000:])
        os.replace(so + ".tmp", so)
    return dst


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:max_malloc_fill_size=100000000:malloc_fill_byte=255:allocator_may_return_null=1"
    e["LC_ALL"] = "C.UTF-8"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
        e[k] = "1"
    return e


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) section=(\S+) key=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m:
                out.append(dict(prop=m[1], section=m[2], key=m[3], match=m[4], what=m[5]))
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        for t in ("g++", "gcc", "python3", "/usr/bin/python3", "objcopy"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ok")
        return 0
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = dict(CHECKS[pid], id=pid)
    t0 = time.time()
    try:
        if check.get("python"):
            pydir = build_python()
            base = ["/usr/bin/python3", os.path.join(VERIF, check["python"])]
            env = run_env()
            env["PYTHONPATH"] = REPO + "/python:" + pydir
            env["LD_PRELOAD"] = " ".join(sh(["gcc", "-print-file-name=" + n]).stdout.strip() for n in ("libasan.so", "libstdc++.so"))
            env["PYTHONMALLOC"] = "malloc"
            env["ASAN_OPTIONS"] += ":max_free_fill_size=1000000:free_fill_byte=255"
            env["MPLBACKEND"] = "Agg"
            env["MPLCONFIGDIR"] = os.path.join(BUILD, "mpl")
        else:
            base = [build(check)]
            env = run_env()
    except BuildError as e:
        print("ERROR: cannot build the current tree:", e)
        return 2
    tb = time.time() - t0
    if "--replay" in args:
        rep = json.load(open(args[args.index("--replay") + 1]))
        r = subprocess.run(base + ["--replay", rep["section"], str(rep["index"])] + (["--thorough"] if rep["tier"] == "thorough" else []), env=env)
        return r.returncode
    out = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
    targs = ["--thorough"] if tier == "thorough" else []

    def explore():
        if os.path.exists(out):
            os.remove(out)
        r = subprocess.run(base + ["--out", out, "--jobs", str(NCPU)] + targs, env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE)
        if not os.path.exists(out):
            print("ERROR: explorer ended without a report, exit", r.returncode)
            print(r.stderr.decode(errors="replace")[-3000:])
            return None
        return json.load(open(out))

    res = explore()
    if res is None:
        return 2
    os.remove(out)
    known = [k for k in load_known() if k["prop"] == pid]
    hit, viols, unrepro = [], [], []
    confirmed = 0
    for v in res["violations"]:
        kf = [k for k in known if re.fullmatch(k["section"].replace("*", ".*"), v["section"]) and
              re.fullmatch(k["key"].replace("*", ".*"), v["key"]) and re.search(k["match"], v["note"])]
        if kf:
            if kf[0]["what"] not in hit:
                hit.append(kf[0]["what"])
            continue
        if confirmed >= 3:
            continue
        rr = subprocess.run(base + ["--replay", v["section"], str(v["index"])] + targs, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        v["replay_output"] = rr.stderr.decode(errors="replace")[-6000:]
        if rr.returncode != 0:
            confirmed += 1
            viols.append(v)
        else:
            unrepro.append(v)
    if unrepro and not viols:
        # not reproducible from a fresh process: state left by earlier cases in the same process.
        # Re-explore; the same section failing again is a history-dependent violation.
        res2 = explore()
        again = {x["section"] for x in (res2 or {}).get("violations", [])}
        for v in unrepro:
            if v["section"] in again:
                v["replay_output"] = "only reproducible as part of the section's case sequence (confirmed by a second full exploration)"
                viols.append(v)
                break
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"],
               comparisons=res["comparisons"], samples=res["samples"], sections=res["sections"],
               bounds=check.get("bounds_thorough" if tier == "thorough" else "bounds", check.get("bounds", "")),
               exhaustive=(not res["setfull"]) and not any(s["stopped_early"] for s in res["sections"]),
               known_findings_seen=hit)
    cov.update(res.get("extra", {}))
    if res["setfull"]:
        cov["cap_hit"] = "reached-state table full: state count is a lower bound"
    ev = dict(property=pid, tier=tier, seed=seed, level=check["level"], coverage=cov,
              assumptions=check.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              build_s=round(tb, 2), violations=len(viols))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    print("%s %s: states=%d transitions=%d traces=%d comparisons=%d violations=%d (build %.1fs, total %.1fs)" % (
        pid, tier, res["states"], res["transitions"], res["traces"], res["comparisons"], len(viols), tb, time.time() - t0))
    if viols:
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, v in enumerate(viols):
            p = os.path.join(rd, "%s-%d.json" % (pid, n))
            with open(p, "w") as f:
                json.dump(dict(property=pid, tier=tier, how="python3 /verif/check.py %s --replay %s" % (pid, p), **v), f, indent=1)
            print("  %s[%d] %s: %s\n    case: %s" % (v["section"], v["index"], v["key"], v["msg"][:600], v["note"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    if res["states"] == 0 or res["traces"] == 0:
        print("ERROR: vacuous exploration")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # an error of the check, never a verdict
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
