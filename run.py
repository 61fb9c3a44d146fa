#!/usr/bin/env python3
"""Driver of the checks: builds the simulator from /repo's working tree, searches, writes evidence.

  run.py check C01 [--tier quick|thorough] [--seed N]   decide one property
  run.py replay FILE                                     re-run a replay file exactly
  run.py build                                           build every scenario (setup_cmd)
  run.py audit [--runs N]                                determinism audit over processes and worker counts
"""
import json, os, re, subprocess, sys, time, shutil
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
NCPU = os.cpu_count() or 4

# Configurations of the code under test. Both run the real sources; only compiler settings differ.
COMMON = ["-std=c++17", "-D_USE_MATH_DEFINES", "-DNOMINMAX", "-I" + REPO + "/include", "-g1", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
          "-fsanitize=thread"]
BOUNDS = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]
PLAIN = ["-include", SIM + "/neon/prelude.h"]
NEON = ["-I" + SIM + "/neon", "-DSIM_NEON"] + PLAIN
CONFIGS = {
    # client code built for haswell like the repository's own header checks, library built for the base instruction set
    "a": {"lib": ["-O2", "-DNDEBUG"], "client": ["-O2", "-DNDEBUG", "-march=haswell"]},
    # assertions of the library and of the C++ library armed
    "b": {"lib": ["-O1"] + BOUNDS, "client": ["-O1"] + BOUNDS},
    # everything built for haswell (fused operations allowed)
    "c": {"lib": ["-O3", "-DNDEBUG", "-march=haswell"], "client": ["-O3", "-DNDEBUG", "-march=haswell"]},
    # client code for SSE4.1, between the base instruction set and AVX2
    "d": {"lib": ["-O2", "-DNDEBUG"], "client": ["-O2", "-DNDEBUG", "-msse4.1"]},
    # the library's NEON branches, with the operations of <arm_neon.h> spelled out lane by lane
    "n": {"lib": ["-O1"] + NEON + BOUNDS, "client": ["-O1"] + NEON + BOUNDS},
    # the library's branches for processors without vector instructions
    "s": {"lib": ["-O3", "-DNDEBUG"] + PLAIN, "client": ["-O3", "-DNDEBUG"] + PLAIN},
}
# branches the repository's own build never takes here: a change that breaks only their compilation is no violation
OTHER_ARCH = {"n", "s"}
WRAP = "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"
LIBSRC = ["bvh", "aabb"]

# property -> parts: (scenario, config, quick runs, share of the time)
from parts import PARTS  # noqa: E402

REAL = {
    "bvh": "source/bvh.cpp, source/aabb.cpp and the headers they use, with libstdc++'s containers inlined into them",
    "values": "the library's headers (vectors, matrices, quaternions, colors, IBL, SH, BRDF, geometry), source/aabb.cpp",
    "clock": "the library's headers (angles, vectors, SIMD vectors, quaternions, matrices, transforms)",
    "packed": "include/math/packed-vector.hpp with libstdc++'s vector inlined into it",
    "text": "include/math/hex.hpp, color.hpp, version.hpp, vector headers, with libstdc++'s strings and streams",
    "pick": "source/bvh.cpp, source/aabb.cpp, aabb.hpp, ray.hpp, line.hpp, triangle.hpp, sphere.hpp, plane.hpp",
    "image": "color.hpp, color-space.hpp, hex.hpp, SIMD pow and matrix products, with libstdc++'s map and strings",
    "bake": "sh.hpp, ibl.hpp, brdf.hpp and the vector and matrix headers they use",
    "replica": "simd/float.hpp, simd/int.hpp, simd/uint.hpp, vector headers, matrix headers, quaternion.hpp, version.hpp, flags.hpp, tone-mapping.hpp (gamma)",
    "flight": "source/bvh.cpp, source/aabb.cpp, matrix and transform headers, plane.hpp, aabb.hpp",
    "keys": "isBinaryLess, == and constructors of vector, SIMD, matrix, AABB, color and version headers, with libstdc++'s map and sort inlined into them",
}
STUB = ("simulated: heap (arena with redzones, refusals, reuse, garbage), thread scheduler, function-static guards, once flags and "
        "mutexes, frame clock, floating-point environment, process termination; harness code: callbacks, input generation, oracles")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(out, wanted, skipped=None):
    """wanted: set of (scenario, config). Returns None or the error text.
    With skipped (a dict), a configuration in OTHER_ARCH that does not compile is left out and recorded there."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    jobs = [["g++", "-std=c++17", "-O2", "-c", f"{SIM}/{n}.cpp", "-o", f"{out}/{n}.o"] for n in ("rt", "sim")]
    for c in sorted({c for _, c in wanted}):
        for f in LIBSRC:
            jobs.append(["g++"] + COMMON + CONFIGS[c]["lib"] + ["-c", f"{REPO}/source/{f}.cpp", "-o", f"{out}/{f}.{c}.o"])
    for s, c in sorted(wanted):
        jobs.append(["g++"] + COMMON + CONFIGS[c]["client"] + ["-c", f"{SIM}/sc_{s}.cpp", "-o", f"{out}/sc_{s}.{c}.o"])

    def one(j):
        r = sh(j)
        return None if r.returncode == 0 else " ".join(j) + "\n" + r.stdout
    with ThreadPoolExecutor(NCPU) as ex:
        for j, e in zip(jobs, ex.map(one, jobs)):
            c = os.path.basename(j[-1]).split(".")[1]
            if e and (skipped is None or c not in OTHER_ARCH):
                return e
            if e:
                skipped[c] = e
    links = []
    for s, c in sorted(wanted):
        if skipped and c in skipped:
            continue
        links.append(["g++", "-nodefaultlibs", WRAP, f"{out}/rt.o", f"{out}/sim.o", f"{out}/sc_{s}.{c}.o"] +
                     [f"{out}/{f}.{c}.o" for f in LIBSRC] +
                     ["-lstdc++", "-lm", "-lgcc_s", "-lgcc", "-lc", "-lpthread", "-ldl", "-rdynamic", "-o", f"{out}/sc_{s}.{c}"])
    with ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(one, links):
            if e:
                return e
    return None


def known_findings():
    k = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                k.append(json.loads(line))
    return k


def level_file(prop):
    return os.path.join(HERE, "evidence", prop + ".json")


def check(prop, tier, seed):
    t0 = time.time()
    parts = PARTS[prop]["parts"]
    out = os.path.join(HERE, "build", prop)
    skipped = {}
    err = build(out, {(p["scenario"], p["config"]) for p in parts}, skipped)
    for c, e in sorted(skipped.items()):
        print(f"NOTE: configuration {c} does not compile and is left out: " + next((x for x in e.splitlines() if "error" in x), "")[:300])
    parts = [p for p in parts if p["config"] not in skipped]
    if err:
        sys.stderr.write("build failed:\n" + err[-8000:] + "\n")
        return 2
    tb = time.time() - t0
    replaydir = os.path.join(HERE, "replays")
    os.makedirs(replaydir, exist_ok=True)
    known = [k for k in known_findings() if k.get("property") == prop and k.get("kind") == "finding"]
    results, rc = [], 0
    for i, p in enumerate(parts):
        runs = p["quick"] if tier == "quick" else p["quick"] * PARTS[prop].get("thorough_factor", 40)
        secs = 150 if tier == "quick" else 3000
        js = os.path.join(out, f"part{i}.json")
        cmd = [f"{out}/sc_{p['scenario']}.{p['config']}", "search", "--property", prop, "--seed", str(seed + 1000 * i), "--runs", str(runs),
               "--seconds", str(secs), "--workers", str(min(NCPU, 16)), "--replaydir", replaydir, "--config", f"{p['scenario']}.{p['config']}",
               "--out", js, "--minseconds", "60", "--audit", "50"]
        for k in known:
            cmd += ["--known", k["class"], k["match"]]
        r = sh(cmd)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if not os.path.exists(js):
            sys.stderr.write(f"search ended with status {r.returncode} and left no result\n")
            rc = 2
            break
        d = json.load(open(js))
        d["part"] = p
        results.append(d)
        if r.returncode != 0:
            rc = r.returncode if r.returncode in (1, 2) else 2
            break
    wall = time.time() - t0
    if rc != 2:
        write_evidence(prop, tier, seed, results, wall, tb, skipped)
    for k, n in zip(known, [sum(d["known"][j] for d in results) for j in range(len(known))]):
        if n:
            print(f"KNOWN-FINDING: property={prop} {k['what']} ({n} runs)")
    if rc == 1:
        print(f"VIOLATION property={prop} replay={results[-1]['replay']}")
    elif rc == 0:
        print(f"OK property={prop} runs={sum(d['runs'] for d in results)} wall={wall:.1f}s")
    return rc


def write_evidence(prop, tier, seed, results, wall, tb, skipped):
    faults = ["alloc_fail_nth", "alloc_fail_sustained", "alloc_fail_by_size", "alloc_fail_late", "callback_exception", "preemption",
              "thread_stall", "fpu_mode", "clock_jitter", "clock_stall", "clock_burst", "clock_zero_frame", "text_corruption",
              "heap_reuse", "static_init_contention", "stack_cursor_shift"]
    measures = ["ops", "allocations", "memory_accesses", "context_switches", "parallel_phases", "oracle_checks"]
    runs = sum(d["runs"] for d in results)
    sw = sum(d["wall_s"] for d in results) or 1e-9

    def tot(n, f):
        return sum(d["counters"].get(n, {}).get(f, 0) for d in results)
    probes = {}
    for d in results:
        for n, v in d["counters"].items():
            if n not in faults and n not in measures:
                e = probes.setdefault(n, {"hits": 0, "runs": 0})
                e["hits"] += v["total"]
                e["runs"] += v["runs"]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in results),
        "rule": PARTS[prop]["rule"] + " Counted once per distinct event log (hash of every operation's outcome and results) within a part.",
        "samples": [s for d in results for s in d["samples"]][:4],
        "simulated_runs_per_hour": int(runs / sw * 3600),
        "seeds_per_hour": int(runs / sw * 3600),
        "simulated_time_s": round(sum(d["sim_time_s"] for d in results), 3),
        "faults_fired": {n: {"times": tot(n, "total"), "runs": tot(n, "runs")} for n in faults if tot(n, "total")},
        "measures": {n: tot(n, "total") for n in measures},
        "rare_condition_probes": probes,
        "distinct_interleavings": sum(d["distinct_interleavings"] for d in results),
        "interleaving_measure": "hash of the sequence of context switches (step, from, to) of a run with parallel phases",
        "distinct_states": sum(d["distinct_states"] for d in results),
        "state_measure": "hash of the abstract object state recorded after operations (see DESIGN.md)",
        "determinism_audits": sum(d["audits"] for d in results),
        "determinism_mismatches": sum(d["audit_mismatch"] for d in results),
        "parts": [{"scenario": d["scenario"], "config": d["config"], "seed": d["seed"], "runs": d["runs"], "distinct": d["distinct_runs"],
                   "search_s": round(d["wall_s"], 1)} for d in results],
        "real_components": sorted({REAL[d["scenario"]] for d in results}),
        "stub_components": STUB + ("; <arm_neon.h>, each operation lane by lane, in configuration n" if any(d["config"].endswith(".n") for d in results) else ""),
        "configurations_left_out": sorted(skipped),
        "build_s": round(tb, 1),
    }
    viol = [d for d in results if d["rc"] == 1]
    if viol:
        cov["violation"] = {"class": viol[0]["violation_class"], "message": viol[0]["violation"], "replay": viol[0]["replay"],
                            "run": viol[0]["violation_run"], "minimiser_executions": viol[0]["min_execs"],
                            "operations_before": viol[0]["ops_before"], "operations_after": viol[0]["ops_after"]}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": PARTS[prop].get("assumptions", []) + [
              "sampled schedules, faults and inputs: a quiet batch is evidence, not proof",
              "g++ 13 on x86-64; accesses are observed at compiler-instrumentation granularity"],
          "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(level_file(prop), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    text = open(path).read()
    m = re.search(r"^# config (\w+)\.(\w+)", text, re.M)
    if not m:
        print("no config line")
        return 2
    out = os.path.join(HERE, "build", "replay")
    err = build(out, {(m.group(1), m.group(2))})
    if err:
        sys.stderr.write(err)
        return 2
    return subprocess.run([f"{out}/sc_{m.group(1)}.{m.group(2)}", "replay", path]).returncode


def audit(runs):
    """Same seeds in separate processes and at different worker counts must give identical event logs."""
    parts = {(pr, p["scenario"], p["config"]) for pr in PARTS for p in PARTS[pr]["parts"]}
    out = os.path.join(HERE, "build", "audit")
    err = build(out, {(s, c) for _, s, c in parts})
    if err:
        sys.stderr.write(err)
        return 2
    bad = 0

    def job(a):
        pr, s, c, seed, rep = a
        env = dict(os.environ, AUDIT_NOISE="x" * (rep * 1111))
        return sh([f"{out}/sc_{s}.{c}", "hashes", "--property", pr, "--seed", str(seed), "--runs", str(runs)], env=env).stdout
    for pr, s, c in sorted(parts):
        base = None
        for conc in (1, 3, NCPU, 2 * NCPU):
            with ThreadPoolExecutor(conc) as ex:
                outs = list(ex.map(job, [(pr, s, c, sd, conc) for sd in range(1, 9)]))
            if base is None:
                base = outs
            elif base != outs:
                bad += 1
                print("MISMATCH", pr, s, c, conc)
        print(pr, s, c, "ok" if not bad else "bad", sum(len(o.splitlines()) for o in base), "plans x 4 processes")
        sys.stdout.flush()
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    opt = {a[i][2:]: a[i + 1] for i in range(len(a) - 1) if a[i].startswith("--")}
    tier = opt.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(opt.get("seed") or os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    if not a:
        print(__doc__)
        return 2
    if a[0] == "check":
        return check(a[1], tier, seed)
    if a[0] == "replay":
        return replay(os.path.abspath(a[1]))
    if a[0] == "build":
        e = build(os.path.join(HERE, "build", "all"), {(p["scenario"], p["config"]) for pr in PARTS.values() for p in pr["parts"]})
        if e:
            sys.stderr.write(e)
            return 2
        print("built")
        return 0
    if a[0] == "audit":
        return audit(int(opt.get("runs", "150")))
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
