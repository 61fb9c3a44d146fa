#!/usr/bin/env python3
"""Mutation campaign: changes one token of the library at a time and looks which simulator scenario notices. Development tool, not a check.
   mutate.py OUT.jsonl --files GLOB[,GLOB] --n N --seed S --jobs J [--configs c] ; survivors are printed and written with status "survived"."""
import argparse, fnmatch, hashlib, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R
BASE = "/tmp/mut"
ROUTE = [("*simd/*", ["replica:C20", "replica:C25", "replica:C24", "replica:C21", "keys:C26", "values:C10"]), ("*vector/*", ["replica:C20", "replica:C24", "replica:C25", "keys:C26", "values:C07", "text:C11"]),
    ("*packed-vector*", ["packed:C09"]), ("*matrix/transform*", ["replica:C21", "clock:C08", "flight:C13"]), ("*matrix/projection*", ["replica:C21", "flight:C13"]), ("*matrix/*", ["replica:C21", "replica:C20", "values:C10"]),
    ("*quaternion*", ["replica:C21", "clock:C12", "clock:C08"]), ("*color*", ["image:C15", "keys:C26", "text:C11"]), ("*hex*", ["text:C11", "image:C15"]), ("*bvh*", ["bvh:C01", "bvh:C02", "bvh:C03", "bvh:C04", "bvh:C05", "bvh:C06", "bvh:C27"]),
    ("*source/aabb*", ["pick:C14"]), ("*aabb*", ["pick:C14", "keys:C26", "flight:C13", "bvh:C04"]), ("*plane*", ["pick:C14", "flight:C13"]), ("*ray*", ["pick:C14"]), ("*line*", ["pick:C14"]), ("*sphere*", ["pick:C14"]), ("*triangle*", ["pick:C14"]),
    ("*/sh.hpp", ["bake:C16"]), ("*ibl*", ["bake:C16"]), ("*brdf*", ["bake:C16"]), ("*tone*", ["replica:C24", "image:C15"]), ("*angles*", ["replica:C20"]), ("*version*", ["replica:C25"]), ("*flags*", ["replica:C25"]), ("*common*", ["replica:C20", "clock:C08", "replica:C24", "replica:C25"]),
    ("*types*", ["replica:C20"])]
RUNS = {"replica": 2000, "values": 4000, "packed": 8000, "clock": 12000, "flight": 2500, "pick": 4000, "image": 4000, "text": 6000, "bake": 4000, "bvh": 12000, "keys": 3000}
FLAGS = {"h": ["-march=haswell"], "s4": ["-msse4.1"], "s2": []}

def mutants(line):
    out = []
    def sub(pat, rep, tag):
        for m in re.finditer(pat, line):
            r = rep(m) if callable(rep) else m.expand(rep)
            if r is not None and r != m.group(0):
                out.append((tag, line[:m.start()] + r + line[m.end():]))
    for a, b in (("+", "-"), ("-", "+"), ("*", "/"), ("/", "*"), ("&", "|"), ("|", "&"), ("^", "|"), (">>", "<<"), ("<<", ">>"), ("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("%", "/"), ("<", ">"), (">", "<")):
        sub(r"(?<= )" + re.escape(a) + r"(?= )", b, a + "->" + b)
    for a, b in (("+=", "-="), ("-=", "+="), ("*=", "/="), ("/=", "*="), ("&=", "|="), ("|=", "&="), ("++", "--"), ("^=", "|="), ("<<=", ">>="), (">>=", "<<=")):
        sub(r"(?<![<>])" + re.escape(a), b, a + "->" + b)
    names = [("min", "max"), ("max", "min"), ("sin", "cos"), ("cos", "sin"), ("ceil", "floor"), ("floor", "ceil"), ("round", "floor"), ("true", "false"), ("false", "true"), ("first", "second"), ("left", "right"), ("add", "sub"), ("sub", "add"), ("mul", "add"), ("fma", "fms"), ("Lo", "Hi"), ("lo", "hi"), ("hi", "lo"), ("cmplt", "cmple"), ("cmpgt", "cmpge"), ("cmple", "cmplt"), ("cmpge", "cmpgt"), ("cmpeq", "cmpneq"), ("sll", "srl"), ("srl", "sll"), ("sra", "srl"), ("and", "or"), ("or", "and"), ("exp2", "exp"), ("log2", "log"), ("asin", "acos")]
    for a, b in names:
        sub(r"(?<![A-Za-z])" + a + r"(?=\b|_|s\b|v_|32_|i_)", b, a + "->" + b)
    sub(r"(?<=\.)([xyzw])\b", lambda m: "xyzw"[("xyzw".index(m.group(1)) + 1) % 4], "lane")
    sub(r"\b(get|set|Sw|splat)([XYZW])\b", lambda m: m.group(1) + "XYZW"[("XYZW".index(m.group(2)) + 1) % 4], "lane")
    sub(r"\bc([0-3])\b", lambda m: "c%d" % ((int(m.group(1)) + 1) % 4), "column")
    sub(r"\b([pv])([0-3])\b", lambda m: m.group(1) + "%d" % ((int(m.group(2)) + 1) % 3), "index")
    sub(r"(?<![\w.])(\d+)(?![\w.])", lambda m: str(int(m.group(1)) + 1), "const+1")
    sub(r"(?<![\w.])([1-9]\d*)(?![\w.])", lambda m: str(int(m.group(1)) - 1), "const-1")
    sub(r"(?<![\w.])(\d+\.\d+)(e[-+]\d+)?f?\b", lambda m: repr(float(m.group(1)) * 1.01 + (0.01 if float(m.group(1)) == 0 else 0)) + (m.group(2) or "") + "f", "const*1.01")
    sub(r"(?<![\w.])(0\.0f|1\.0f|0\.5f)", lambda m: {"0.0f": "1.0f", "1.0f": "0.0f", "0.5f": "1.0f"}[m.group(1)], "const-swap")
    sub(r"(?<=[ (])!(?=[A-Za-z(])", "", "drop!")
    sub(r"(?<=[ (,])-(?=[A-Za-z(])", "", "drop-")
    sub(r"\(([A-Za-z_][\w.]*), ([A-Za-z_][\w.]*)\)", lambda m: "(%s, %s)" % (m.group(2), m.group(1)), "swap-args")
    sub(r"\(([A-Za-z_][\w.]*), ([A-Za-z_][\w.]*), ([A-Za-z_][\w.]*)\)", lambda m: "(%s, %s, %s)" % (m.group(1), m.group(3), m.group(2)), "swap-args3")
    if re.match(r"^\t+[A-Za-z_*][^;]*;\s*$", line) and not re.match(r"^\t+(auto|const|static|return|inline|using|typedef|template|struct|union|float|int|uint|psize|f32x4|u32x4|i32x4|bool|#|public|protected|private|std::|_simd|explicit|constexpr|virtual|~|friend|__m)", line):
        out.append(("delete", re.match(r"^\t+", line).group(0) + ";\n"))
    if re.match(r"^\t+(if|else if) \(", line) and line.rstrip().endswith(")"):
        out.append(("if-true", re.sub(r"if \(.*\)$", "if (true)", line.rstrip()) + "\n")); out.append(("if-false", re.sub(r"if \(.*\)$", "if (false)", line.rstrip()) + "\n"))
    for m in re.finditer(r"(?<=; )[A-Za-z_][\w.]* [-+*/&|^]?= [^;]+;", line):
        out.append(("delete", line[:m.start()] + line[m.end():]))
    return out

def targets(globs):
    files = subprocess.run(["git", "-C", R.REPO, "ls-files", "include", "source"], capture_output=True, text=True).stdout.split()
    res = []
    for f in files:
        if not any(fnmatch.fnmatch(f, g) for g in globs) or f.endswith((".in", "matrix.hpp", "math/vector.hpp", "pbr-colors.hpp")):
            continue
        comment = False; neon = False
        for n, line in enumerate(open(os.path.join(R.REPO, f))):
            s = line.strip()
            if s.startswith("/*"): comment = True
            if comment or s.startswith(("//", "*", "#", "template", "using", "assert", "friend")) or not s:
                if "*/" in s: comment = False
                continue
            code = line.split("//")[0] if "//" in line else line
            if "assert(" in code or "toString" in code or "_NEON" in code or "vdupq" in code or "q_f32(" in code: continue
            for tag, new in mutants(code if code.endswith("\n") else code + "\n"):
                res.append((f, n, tag, line, new))
    return res

def preprocess(root, flag):
    r = subprocess.run(["g++", "-std=c++17", "-D_USE_MATH_DEFINES", "-I" + root + "/include", "-E", "-P"] + FLAGS[flag] + [root + "/all.cpp"], capture_output=True)
    return hashlib.md5(r.stdout).hexdigest()

def worker_root(k):
    root = f"{BASE}/w{k}"
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for d in ("include", "source"): shutil.copytree(os.path.join(R.REPO, d), os.path.join(root, d))
    heads = subprocess.run(["git", "-C", R.REPO, "ls-files", "include"], capture_output=True, text=True).stdout.split()
    with open(root + "/all.cpp", "w") as o:
        for h in heads:
            if h.endswith(".hpp") and "pbr" not in h: o.write(f'#include "{h[len("include/"):]}"\n')
        for s in ("aabb", "bvh"): o.write(f'#include "../w{k}/source/{s}.cpp"\n')
    return root

def cc(root, cmd):
    return subprocess.run([c.replace("-I" + R.REPO, "-I" + root).replace(R.REPO + "/source", root + "/source") for c in cmd], capture_output=True, text=True)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", default="*"); ap.add_argument("--n", type=int, default=100); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--scale", type=float, default=1); ap.add_argument("--match", default="")
    a = ap.parse_args()
    os.makedirs(BASE, exist_ok=True)
    if not os.path.exists(BASE + "/rt.o"):
        for n in ("rt", "sim"): subprocess.check_call(["g++", "-std=c++17", "-O2", "-c", f"{R.SIM}/{n}.cpp", "-o", f"{BASE}/{n}.o"])
    all_ = [t for t in targets(a.files.split(",")) if a.match in t[3]]; random.Random(a.seed).shuffle(all_); todo = all_[:a.n]
    print(f"{len(all_)} mutants, {len(todo)} chosen", flush=True)
    roots = [worker_root(k) for k in range(a.jobs)]; base = {f: preprocess(roots[0], f) for f in FLAGS}
    import queue, threading
    free = queue.Queue(); [free.put(k) for k in range(a.jobs)]; lock = threading.Lock(); out = open(a.out, "a"); stat = {}
    basehash = {}
    def do(t):
        k = free.get()
        try:
            f, n, tag, old, new = t; root = roots[k]; path = os.path.join(root, f); src = open(path).read(); lines = src.splitlines(True)
            lines[n] = new
            res = {"file": f, "line": n + 1, "tag": tag, "old": old.strip(), "new": new.strip()}
            try:
                open(path, "w").write("".join(lines))
                diff = [x for x in FLAGS if preprocess(root, x) != preprocess_base(k, x)]
                if not diff: res["status"] = "inactive"; return res
                if cc(root, ["g++", "-std=c++17", "-fsyntax-only", "-D_USE_MATH_DEFINES", "-w", "-I" + R.REPO + "/include"] + FLAGS[diff[0]] + [root + "/all.cpp"]).returncode: res["status"] = "nocompile"; return res
                cfgs = ["c"] if "h" in diff else ["d"] if "s4" in diff else ["b"]
                route = next(r for g, r in ROUTE if fnmatch.fnmatch(f, g)); res["status"] = "survived"; built = set()
                for sp in route:
                    s, p = sp.split(":")
                    for c in cfgs:
                        if c == "d" and s != "replica":
                            if "s2" not in diff: continue
                            c = "b"
                        exe = f"{root}/sc_{s}.{c}"
                        if (s, c) not in built:
                            built.add((s, c)); bad = None
                            for x in R.LIBSRC:
                                r = cc(root, ["g++"] + R.COMMON + R.CONFIGS[c]["lib"] + ["-c", f"{R.REPO}/source/{x}.cpp", "-o", f"{root}/{x}.{c}.o"]); bad = bad or r.returncode
                            r = cc(root, ["g++"] + R.COMMON + R.CONFIGS[c]["client"] + ["-c", f"{R.SIM}/sc_{s}.cpp", "-o", exe + ".o"]); bad = bad or r.returncode
                            if bad: res["status"] = "nocompile"; return res
                            subprocess.run(["g++", "-nodefaultlibs", R.WRAP, BASE + "/rt.o", BASE + "/sim.o", exe + ".o"] + [f"{root}/{x}.{c}.o" for x in R.LIBSRC] + ["-lstdc++", "-lm", "-lgcc_s", "-lgcc", "-lc", "-lpthread", "-ldl", "-rdynamic", "-o", exe], check=True)
                        try: r = subprocess.run([exe, "search", "--property", p, "--seed", "7", "--runs", str(int(RUNS[s] * a.scale)), "--seconds", "200", "--workers", "1", "--replaydir", root, "--config", s + "." + c, "--minseconds", "1", "--out", root + "/o.json"], capture_output=True, text=True, timeout=400)
                        except subprocess.TimeoutExpired: res["status"] = "killed"; res["by"] = sp + " timeout"; return res
                        if r.returncode: res["status"] = "killed"; res["by"] = sp; res["how"] = (r.stdout.strip().splitlines() or ["?"])[-1][:200]; return res
                return res
            finally: open(path, "w").write(src)
        except Exception as e:
            return {"status": "error", "what": repr(e), "file": t[0], "line": t[1] + 1}
        finally: free.put(k)
    pb = {}
    def preprocess_base(k, x):
        if (k, x) not in pb:
            pristine = f"{BASE}/p{k}"
            if not os.path.isdir(pristine): pass
            pb[(k, x)] = None
        return base_of[(k, x)]
    base_of = {(k, x): preprocess(roots[k], x) for k in range(a.jobs) for x in FLAGS}
    with ThreadPoolExecutor(a.jobs) as ex:
        for res in ex.map(do, todo):
            if res is None: continue
            stat[res["status"]] = stat.get(res["status"], 0) + 1
            out.write(json.dumps(res) + "\n"); out.flush()
            if res["status"] in ("survived", "error"): print(json.dumps(res), flush=True)
    print(stat)
if __name__ == "__main__": main()
