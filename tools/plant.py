#!/usr/bin/env python3
"""Validates the planted bugs of /verif/seeded (no check uses this).

  plant.py test ID [ID...] [--checks C01,C02 | --own | --none]   validate in a scratch copy: applies, builds, tests pass,
                     demo passes on the clean copy and fails with the patch; then run checks against the copy (SIM_REPO).
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=1500):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests_pass(repo):
    # the repository's own test programs, built like its CMakeLists does
    r = sh("for t in containers matrix quaternion vector; do g++ -std=c++17 -O2 -march=haswell -D_USE_MATH_DEFINES -DNOMINMAX -Iinclude "
           "tests/test-$t.cpp source/bvh.cpp source/aabb.cpp -o _t_$t & done; wait; "
           "for t in containers matrix quaternion vector; do ./_t_$t >/dev/null || { echo FAIL $t; exit 1; }; done", cwd=repo)
    h = sh("for h in version hex tone-mapping color-space color flags matrix/transform brdf ibl sh packed-vector; do "
           "printf '#include <cassert>\\n#include <cstdlib>\\n#include \"math/%s.hpp\"\\n' $h | g++ -std=c++17 -march=haswell -D_USE_MATH_DEFINES "
           "-DNOMINMAX -Iinclude -fsyntax-only -x c++ - || exit 1; done", cwd=repo)
    return r.returncode == 0 and h.returncode == 0, r.stdout + h.stdout


def main():
    ids = [a for a in sys.argv[2:] if not a.startswith("--") and a[:2] not in ("C0", "C1", "C2")]
    mode = [a for a in sys.argv[2:] if a.startswith("--")]
    checks = [a for a in sys.argv[2:] if a[:2] in ("C0", "C1", "C2")]
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(d + "/meta.json"))
        tmp = tempfile.mkdtemp(prefix="plant.")
        try:
            repo = tmp + "/repo"
            shutil.copytree("/repo", repo, symlinks=True, ignore=shutil.ignore_patterns("_build", "docs"))
            demo = tmp + "/demo"
            shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            r = sh(f"bash {demo}/demo.sh", cwd=repo)
            if r.returncode != 0:
                print(i, "DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-1500:]); continue
            r = sh(f"git apply --check {d}/patch.diff && git apply {d}/patch.diff", cwd=repo)
            if r.returncode != 0:
                print(i, "PATCH", r.stdout); continue
            ok, out = tests_pass(repo)
            if not ok:
                print(i, "TESTS", out[-1500:]); continue
            r = sh(f"bash {demo}/demo.sh", cwd=repo)
            if r.returncode == 0:
                print(i, "DEMO PASSES WITH PATCH"); continue
            print(i, f"valid (demo exit {r.returncode}: {r.stdout.strip()[-100:]!r})", flush=True)
            if "--none" in mode:
                continue
            for c in checks or [meta["property"]]:
                env = dict(os.environ, SIM_REPO=repo)
                r = sh(f"python3 {HERE}/run.py check {c}", env=env)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "violation" in l.lower()]
                print("   ", c, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", (v or [r.stdout[-300:]])[0][:200], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
