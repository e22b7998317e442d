#!/usr/bin/env python3
"""Decides one property by seeded deterministic simulation.

usage: check.py <property> [--tier quick|thorough] [--replay FILE] [--scenario S] [--build-only]

Builds the simulator runtime and this property's harness from /repo's current working tree,
explores seeds, and reports.  exit 0: held on everything explored; exit 1: VIOLATION line.
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSIM_REPO", "/repo")
BUILD = os.environ.get("DSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"

sys.path.insert(0, VERIF)
from props import PROPS, COMMON_RULE, ASSUMPTIONS  # noqa: E402

RT_FLAGS = ["-std=c++20", "-O2", "-g", "-fPIC", "-shared", "-fno-stack-protector", "-fno-threadsafe-statics",
            "-fvisibility=hidden", "-march=x86-64-v2"]
H_FLAGS = ["-std=c++20", "-O1", "-g1", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
           "-fPIE", "-fno-omit-frame-pointer", "-w", "-ftemplate-depth=2048", "-fconstexpr-steps=50000000",
           "-ferror-limit=3",
           "-isystem", VERIF + "/sim/shim", "-isystem", BUILD + "/shim", "-I" + VERIF + "/sim", "-I" + VERIF + "/harness",
           "-I" + REPO + "/include"]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_one(cmd):
    r = run(cmd)
    return r.returncode, " ".join(cmd), r.stdout


def digest(files):
    m = hashlib.sha256()
    for f in sorted(files):
        m.update(f.encode())
        with open(f, "rb") as fh:
            m.update(fh.read())
    return m.hexdigest()


def shim_headers():
    """libstdc++ unlocks the spin bit of atomic<shared_ptr> with relaxed order after a load; that is a
    defect of the library (its own data race), not of the code under test: use release there."""
    os.makedirs(os.path.join(BUILD, "shim", "bits"), exist_ok=True)
    src = sorted(glob.glob("/usr/include/c++/*/bits/shared_ptr_atomic.h"))[-1]
    txt = open(src).read().replace("unlock(memory_order_relaxed)", "unlock(memory_order_release)")
    dst = os.path.join(BUILD, "shim", "bits", "shared_ptr_atomic.h")
    if not os.path.exists(dst) or open(dst).read() != txt:
        open(dst, "w").write(txt)
    # what the repository's build configures for Asio: the installed Boost.Asio
    os.makedirs(os.path.join(BUILD, "shim", "exec", "asio"), exist_ok=True)
    txt = open(os.path.join(REPO, "include/exec/asio/asio_config.hpp.in")).read()
    txt = re.sub(r"#cmakedefine01 (\w+)", lambda m: "#define %s %d" % (m.group(1), "BOOST" in m.group(1)), txt)
    dst = os.path.join(BUILD, "shim", "exec", "asio", "asio_config.hpp")
    if not os.path.exists(dst) or open(dst).read() != txt:
        open(dst, "w").write(txt)


def build(pid):
    os.makedirs(BUILD, exist_ok=True)
    shim_headers()
    jobs = []
    rt = os.path.join(BUILD, "libdsim.so")
    rt_src = [os.path.join(VERIF, "sim", f) for f in os.listdir(os.path.join(VERIF, "sim"))
              if f.endswith((".cpp", ".h", ".inc"))]
    key = digest(rt_src) + " ".join(RT_FLAGS)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stamp = rt + ".key"
    fresh = os.path.exists(rt) and os.path.exists(stamp) and open(stamp).read() == key
    if not fresh:
        jobs.append(["g++"] + RT_FLAGS + ["-o", rt + ".tmp", VERIF + "/sim/dsim.cpp", VERIF + "/sim/uring.cpp", "-ldl"])
    if pid is None:
        out, tus, repo_src = None, [], []
    else:
        out = os.path.join(BUILD, pid)
        os.makedirs(out, exist_ok=True)
        objs = [os.path.join(out, "main.o")]
        jobs.append([CXX, "-std=c++20", "-O1", "-fPIE", "-c", VERIF + "/sim/main.cpp", "-o", objs[0]])
        repo_src = PROPS[pid].get("repo_sources", [])
        tus = sorted(glob.glob(os.path.join(VERIF, "harness", pid + "*.cpp")))
    for f in tus:
        o = os.path.join(out, os.path.basename(f)[:-4] + ".o")
        objs.append(o)
        jobs.append([CXX] + H_FLAGS + PROPS[pid].get("flags", []) + ["-c", f, "-o", o])
    for f in repo_src:
        o = os.path.join(out, "repo_" + os.path.basename(f)[:-4] + ".o")
        objs.append(o)
        jobs.append([CXX] + H_FLAGS + ["-c", os.path.join(REPO, f), "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, cmd, txt in ex.map(compile_one, jobs):
            if rc:
                sys.stderr.write("build failed: %s\n%s\n" % (cmd, txt[-6000:]))
                sys.exit(2)
    if not fresh:
        os.rename(rt + ".tmp", rt)
        open(stamp, "w").write(key)
    if pid is None:
        return None
    exe = os.path.join(out, pid)
    rc, cmd, txt = compile_one([CXX, "-no-pie", "-Wl,-z,now", "-o", exe, "-L" + BUILD, "-Wl,-rpath," + BUILD,
                                "-Wl,--no-as-needed", "-ldsim"] + objs + ["-ldsim", "-lpthread"])
    if rc:
        sys.stderr.write("link failed: %s\n%s\n" % (cmd, txt[-6000:]))
        sys.exit(2)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe


def symbolise(exe, addrs):
    try:
        r = run(["llvm-symbolizer-18", "--obj=" + exe, "--no-inlines"] + addrs)
        res = []
        for blk in r.stdout.strip().split("\n\n"):
            ls = blk.split("\n")
            fn = ls[0]
            for _ in range(40):
                n = re.sub(r"<[^<>]*>", "", fn)
                if n == fn:
                    break
                fn = n
            res.append("%s (%s)" % (fn[:120], ls[1].replace(REPO + "/", "") if len(ls) > 1 else "?"))
        return res
    except Exception:  # symbols are a convenience only
        return addrs


def known_for(pid):
    res = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.rstrip("\n")
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            f = line.split("|", 4)
            if len(f) == 5 and f[0] == pid:
                res.append(f[4])
    except FileNotFoundError:
        pass
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--scenario")
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    if a.setup:
        build(None)
        return 0
    pid = a.property
    cfg = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    if a.build_only:
        print(exe)
        return 0
    if a.replay:
        cmd = [exe, "--replay", a.replay] + (["--verbose"] if a.verbose else [])
        r = run(cmd)
        def rep(m):
            return m.group(0) + "{" + symbolise(exe, [m.group(0)])[0] + "}"
        print(re.sub(r"0x4[0-9a-f]{5}\b", rep, r.stdout) if not a.verbose else r.stdout)
        return r.returncode
    thorough = a.tier == "thorough"
    secs = a.seconds or (cfg.get("thorough_s", 600) if thorough else cfg.get("quick_s", 25))
    runs = a.runs or (10**9 if thorough else cfg.get("quick_runs", 400000))
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    res_file = os.path.join(BUILD, pid, "result.json")
    if os.path.exists(res_file):
        os.remove(res_file)
    workers = int(os.environ.get("DSIM_WORKERS", 0)) or min(8, os.cpu_count() or 8)
    cmd = [exe, "--runs", str(runs), "--seconds", str(secs), "--workers", str(workers), "--seed",
           str(seed * 1000000007 % (1 << 62)), "--property", pid, "--out", res_file, "--replay-dir", rdir,
           "--known", os.path.join(VERIF, "known_findings.txt")]
    if a.scenario:
        cmd += ["--scenario", a.scenario]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       timeout=secs + 240)
    if p.returncode not in (0, 1) or not os.path.exists(res_file):
        sys.stderr.write(p.stdout[-3000:] + p.stderr[-3000:])
        sys.stderr.write("check error: exit %d\n" % p.returncode)
        return 3
    r = json.load(open(res_file))
    faults = {k[6:]: v for k, v in r["counters"].items() if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in r["counters"].items() if k.startswith("probe:")}
    tail = {k[5:]: v for k, v in r["counters"].items() if k.startswith("tail:")}
    hours = max(r["explore_s"], 1e-6) / 3600.0
    v = r["violation"]
    samples = [{"seed": r["seed_base"] + i, "how": "build/%s/%s --one --seed %d" % (pid, pid, r["seed_base"] + i)}
               for i in range(3)]
    if v:
        samples = [{"violation": v}] + samples
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": r["runs"],
            "distinct_nontrivial": r["distinct"],
            "rule": COMMON_RULE + " " + cfg["rule"],
            "samples": samples,
            "nontrivial_runs": r["nontrivial"],
            "simulated_runs_per_hour": int(r["runs"] / hours),
            "seeds_per_hour": int(r["runs"] / hours),
            "seed_base": r["seed_base"],
            "simulated_time_s": r["vtime_ns"] / 1e9,
            "scheduling_points": r["steps"],
            "context_switches": r["switches"],
            "instrumented_memory_accesses": r["accesses"],
            "stale_atomic_loads_served": r["stale_loads"],
            "faults_injected": faults,
            "fault_free_configurations": r["fault_free_runs"],
            "strategies": {"random_walk": r["random_walk"], "pct": r["pct"]},
            "scenarios": r["scenarios"],
            "rare_condition_probes": probes,
            "fault_free_tails": tail,
            "longest_run_steps": r["max_steps"],
            "determinism_selfchecks": r["selfchecks"],
            "distinct_measure": "64-bit hash of the run's sequence of synchronisation events (thread, operation, "
                                "object, value source) and fault decisions, per scenario",
            "real_components": cfg["real"],
            "stubbed_components": cfg["stub"],
            "known_finding_hits": r["known"],
            "build_s": round(tb, 1), "explore_s": r["explore_s"],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": 1 if v else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for what in known_for(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print("%s: %d runs, %d distinct non-trivial executions, %.1f s simulated, build %.0f s, explore %.0f s" % (
        pid, r["runs"], r["distinct"], r["vtime_ns"] / 1e9, tb, r["explore_s"]))
    if v:
        print("violation class %s in scenario %s, seed %d (%d decisions minimised to %d)" % (
            v["class"], v["scenario"], v["seed"], v["decisions_before"], v["decisions_after"]))
        print("  " + v["message"])
        pcs = re.findall(r"pc (0x[0-9a-f]+)", v["message"])
        for nm, s in zip(pcs, symbolise(exe, pcs) if pcs else []):
            print("  pc %s = %s" % (nm, s))
        for s in symbolise(exe, v["bt"])[:14] if v["bt"] else []:
            print("    at " + s)
        print("  replay: python3 check.py %s --replay %s" % (pid, os.path.relpath(v["replay"], VERIF)))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if p.returncode != 0:
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
