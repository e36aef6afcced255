#!/usr/bin/env python3
"""Decides one property by exhaustive symbolic execution of /repo's current code.

  check.py PROPERTY [--tier quick|thorough] [--case NAME] [--keep]
  check.py --setup

The translation units of /repo are compiled by clang with the instrumentation
pass of /verif/engine, linked with the harness of the property and explored
with Z3 (see DESIGN.md).  Objects are cached in /verif/build under a key made
of the content of every file that went into them.
"""
import argparse, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ENGINE = os.path.join(VERIF, "engine")
HARNESS = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
LLVM = "/usr/lib/llvm-18"
CXX = LLVM + "/bin/clang++"
JOBS = os.cpu_count() or 8

COMMON = ["-std=c++14", "-w", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fwrapv", "-fno-strict-aliasing",
          "-fno-delete-null-pointer-checks", "-I" + ENGINE, "-I" + HARNESS,
          "-DDEBUG", "-DLOG_LEVEL=3", "-DUSE_LIBC_EXTENSION", "-DUSE_SYSTEM_EXTENSION",
          "-I" + REPO + "/Projects/Core", "-I" + REPO + "/Projects/Utils", "-I" + REPO + "/Projects/Extensions",
          "-I" + REPO + "/Projects/slang-pkg", "-I/usr/include/jsoncpp"]
PASS = os.path.join(BUILD, "SxPass.so")
SYMFLAGS = ["-include", ENGINE + "/pre.h", "-fpass-plugin=" + PASS]
ASANFLAGS = ["-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-ldl", "-lpthread", "-lcurl", "-ljsoncpp"]
GROUPS = {"utils": "Projects/Utils", "core": "Projects/Core", "ext": "Projects/Extensions", "pkg": "Projects/slang-pkg/Common"}
DEFAULT_GROUPS = ["utils", "core"]

_sha = {}


def sha(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _sha:
        h = hashlib.sha256()
        with open(path, "rb") as f:
            h.update(f.read())
        _sha[k] = h.hexdigest()
    return _sha[k]


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def deps_of(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    return [d for d in t.split(":", 1)[1].split() if d]


def cached(out, key, cmd, dfile=None):
    """Runs cmd (which writes out) unless out is up to date with respect to content."""
    meta = out + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(out) and m["key"] == key and all(os.path.exists(p) and sha(p) == h for p, h in m["deps"].items()):
            return False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for p in (meta, out):
        if os.path.exists(p):
            os.unlink(p)
    r = run(cmd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    deps = {}
    if dfile:
        for d in deps_of(dfile):
            if d.startswith(("/usr/", "/lib")):
                continue
            deps[d] = sha(d)
    json.dump({"key": key, "deps": deps}, open(meta, "w"))
    return True


def key(*parts):
    return hashlib.sha256(json.dumps(parts).encode()).hexdigest()


def build_engine():
    src = ENGINE + "/SxPass.cpp"
    cached(PASS, key("pass", sha(src)), ["g++", "-O1", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-I" + LLVM + "/include", "-o", PASS, src])
    for n in ("rt", "replay"):
        s = "%s/%s.cpp" % (ENGINE, n)
        o = "%s/%s.o" % (BUILD, n)
        cc = ["g++", "-O2", "-std=c++17", "-w", "-I" + ENGINE, "-I" + LLVM + "/include", "-include", ENGINE + "/pre.h", "-c", s, "-o"]
        if n == "replay":
            cached(o, key(n, sha(s), sha(ENGINE + "/sx.h"), cc), cc + [o])
        else:
            # the runtime keeps private copies of the library templates it uses:
            # it must not run the instrumented ones of the program
            sh = ('set -e; "$@" {o}.1; ld -r --force-group-allocation -o {o}.2 {o}.1; '
                  'nm --defined-only {o}.2 | awk \'$2=="W"||$2=="V"||$2=="u"{{print $3}}\' > {o}.syms; '
                  'objcopy --localize-symbols={o}.syms {o}.2 {o}; rm -f {o}.1 {o}.2 {o}.syms').format(o=o)
            cached(o, key(n, sha(s), sha(ENGINE + "/sx.h"), cc, sh), ["bash", "-c", sh, "bash"] + cc)


def flags(mode):
    if mode == "sym":
        return COMMON + SYMFLAGS
    if mode == "asan":
        return COMMON + ASANFLAGS
    return COMMON


def compile_one(mode, src, extra=()):
    rel = os.path.relpath(src, "/").replace("/", "_")
    o = os.path.join(BUILD, mode, rel + ".o")
    d = o + ".d"
    fl = flags(mode) + list(extra)
    k = key(fl, sha(ENGINE + "/SxPass.cpp") if mode == "sym" else "", sha(ENGINE + "/pre.h"))
    cached(o, k, [CXX] + fl + ["-MD", "-MF", d, "-c", src, "-o", o], d)
    return o


def sources(groups):
    out = []
    for g in groups:
        for p in sorted(glob.glob(os.path.join(REPO, GROUPS[g], "**", "*.cpp"), recursive=True)):
            if "/TestSuite/" in p:
                continue
            out.append(p)
    return out


def compile_jobs(cfg, mode):
    jobs = []
    groups = cfg.get("groups", DEFAULT_GROUPS)
    ex = ["-D" + d for d in cfg.get("defines", [])]
    for h in cfg["files"]:
        jobs.append((mode, os.path.join(HARNESS, h), ex))
    for s in sources(groups):
        jobs.append((mode, s, []))
    # large files first
    jobs.sort(key=lambda j: (not j[1].startswith(HARNESS), -os.path.getsize(j[1])))
    if mode == "sym":
        jobs = [(mode, ENGINE + "/models.cpp", []), (mode, ENGINE + "/models_io.cpp", [])] + jobs
    return jobs


def build(prop, cfg, mode):
    """Returns the path of the harness binary built from the current sources."""
    jobs = compile_jobs(cfg, mode)
    with ThreadPoolExecutor(JOBS) as ex_:
        objs = list(ex_.map(lambda j: compile_one(*j), jobs))
    rt = BUILD + ("/rt.o" if mode == "sym" else "/replay.o")
    out = os.path.join(BUILD, mode, "bin", prop)
    k = key("link", [(o, sha(o)) for o in sorted(objs + [rt])])
    cmd = [CXX, "-fuse-ld=lld", "-o", out] + objs + [rt] + LIBS
    if mode == "sym":
        cmd += ["-static-libstdc++", "-static-libgcc", "-no-pie"]
    if mode == "asan":
        cmd += ["-fsanitize=address"]
    cached(out, k, cmd)
    return out


def load_cfg(prop):
    return json.load(open(os.path.join(HARNESS, prop + ".json")))


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


HARMLESS = (r"(__cxa_|__gnu_cxx::stdio_sync_filebuf|std::_Rb_tree|std::__detail::(_List_node_base|_Prime_rehash)|__dynamic_cast|__gxx|_Unwind|std::__throw|std::(ios_base|locale|ctype<char>)::|"
            r"std::(exception|logic_error|runtime_error|out_of_range|invalid_argument|bad_alloc|length_error|bad_cast)|std::(terminate|uncaught)|"
            r"__errno_location|getenv$|(__)?strto\w*_l$|__vsnprintf$|vsnprintf$|operator (new|delete)|free$|malloc$)")


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    return out


def replay(binary, case, inputs, timeout=30, asan=False):
    """Runs the plain build on concrete inputs. Returns (failed, text, observe)."""
    d = os.path.join(BUILD, "tmp")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "in.%d.%s" % (os.getpid(), hashlib.md5(json.dumps([case, inputs], sort_keys=True).encode()).hexdigest()[:12]))
    with open(f, "w") as fh:
        for n, v in inputs.items():
            fh.write("%s %d\n" % (n, v))
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    try:
        r = subprocess.run([binary, case, f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", env=env)
    except subprocess.TimeoutExpired:
        os.unlink(f)
        return "hang", "no result within %d s" % timeout, None
    os.unlink(f)
    m = re.search(r"^OBSERVE (\d+)$", r.stderr, re.M)
    ob = int(m.group(1)) if m else None
    if r.returncode == 42:
        m = re.search(r"^ASSERTION FAILED: (.*)$", r.stderr, re.M)
        return "assert", m.group(1) if m else "", ob
    if r.returncode == 43:
        return "assume", "", ob
    if r.returncode < 0:
        import signal
        t = "killed by signal %d" % -r.returncode
        m = re.search(r"(ERROR: AddressSanitizer.*|.*Assertion '.*' failed.*)", r.stderr)
        return "crash", t + (" (" + m.group(1) + ")" if m else ""), ob
    if r.returncode != 0:
        return "exit", "exit status %d" % r.returncode, ob
    return None, "", ob


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()


def symbol_names(binary):
    tab = {}
    for l in run([LLVM + "/bin/llvm-nm", binary]).stdout.splitlines():
        p = l.split()
        if len(p) == 3:
            tab[int(p[0], 16)] = p[2]
    return tab


def check(prop, tier, only=None, keep=False):
    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = load_cfg(prop)
    lk = lock()
    try:
        build_engine()
        binary = build(prop, cfg, "sym")
        plain = build(prop, cfg, "plain")
    finally:
        lk.close()
    t_build = time.time() - t_start
    cases = subprocess.run([binary, "--list"], stdout=subprocess.PIPE, text=True).stdout.split()
    if tier == "quick":
        cases = [c for c in cases if not c.startswith("T_")]
    if only:
        cases = [c for c in cases if c in only]
    budget = cfg.get("budget_s", {}).get(tier, 400 if tier == "quick" else 3600)
    if tier == "quick":  # slower machines get more time, the whole run stays below 900 s
        budget = max(budget, min(600, 760 - int(t_build)))
    deadline = time.time() + budget
    known = known_findings(prop)
    results, violations, unconfirmed, knownhits = [], [], [], {}
    tmp = os.path.join(BUILD, "tmp")
    os.makedirs(tmp, exist_ok=True)
    asan_bin = None

    def run_case(c, jobs, left):
        out = os.path.join(tmp, "%s.%s.%d.json" % (prop, c, os.getpid()))
        env = dict(os.environ, SX_OUT=out, SX_BUDGET_S=str(max(5, int(left))), SX_JOBS=str(jobs),
                   SX_QUERY_MS=str(cfg.get("query_ms", 20000)), SX_PATH_S=str(cfg.get("path_s", 40)))
        for k, v in cfg.get("env", {}).items():
            env[k] = str(v)
        r = run([binary, c], env=env, timeout=left + 120)
        if os.path.exists(out):
            d = json.load(open(out))
            os.unlink(out)
        else:
            # setup of the case died: the program under test crashed on a concrete run
            d = {"case": c, "died": r.returncode, "text": r.stdout[-2000:], "violations": [{"msg": "the run died in its setup: exit %d" % r.returncode, "inputs": {}}]}
        return d

    conc = int(cfg.get("parallel_cases", 4))
    jobs = max(1, JOBS // conc + 1) if conc > 1 else JOBS

    def guarded(c):
        left = deadline - time.time()
        if left < 1:
            return {"case": c, "skipped": True, "complete": False, "incomplete": {"budget": 1}, "violations": []}
        try:
            return run_case(c, jobs, left)
        except subprocess.TimeoutExpired:
            return {"case": c, "skipped": True, "complete": False, "incomplete": {"budget": 1}, "violations": []}

    with ThreadPoolExecutor(conc) as ex_:
        results = list(ex_.map(guarded, cases))

    def is_known(case, msg, inputs):
        for k in known:
            if k.get("case") and not re.fullmatch(k["case"], case):
                continue
            if k.get("msg") and not re.search(k["msg"], msg):
                continue
            if all(inputs.get(n, 0) in (v if isinstance(v, list) else [v]) for n, v in k.get("inputs", {}).items()):
                return k
        return None

    for d in results:
        for v in d["violations"]:
            if len(violations) >= 5:
                break
            kind, text, _ = replay(plain, d["case"], v["inputs"])
            how = "plain build"
            if kind in (None, "assume"):
                if asan_bin is None:
                    lk = lock()
                    try:
                        asan_bin = build(prop, cfg, "asan")
                    except BuildError as e:
                        asan_bin = ""
                    finally:
                        lk.close()
                if asan_bin:
                    kind, text, _ = replay(asan_bin, d["case"], v["inputs"])
                    how = "address sanitizer build"
            v["case"] = d["case"]
            v["replayed"] = "%s: %s" % (kind, text)
            if kind in (None, "assume"):
                unconfirmed.append(v)
                continue
            k = is_known(d["case"], v["msg"] + " " + text, v["inputs"])
            if k:
                knownhits[k["what"]] = v
                continue
            v["how"] = how
            violations.append(v)

    # the plain build must behave as the explored runs did
    validated, mismatches = 0, []
    per = 6 if tier == "quick" else 24
    work = [(d["case"], s) for d in results for s in d.get("samples", [])[:per]]
    work = work[:200 if tier == "quick" else 2000]

    def val(w):
        return w, replay(plain, w[0], w[1]["inputs"])

    with ThreadPoolExecutor(JOBS) as ex_:
        for (c, s), (kind, text, ob) in ex_.map(val, work):
            if kind is None and ob == s["observe"]:
                validated += 1
            elif kind == "assume" or (kind and is_known(c, str(text), s["inputs"])):
                pass
            elif not violations:
                mismatches.append({"case": c, "inputs": s["inputs"], "got": [kind, text, ob], "want": s["observe"]})

    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    lines = []
    for i, v in enumerate(violations):
        p = os.path.join(EVID, "replay", "%s-%s-%d.json" % (prop, v["case"], i))
        json.dump({"property": prop, "case": v["case"], "message": v["msg"], "inputs": v["inputs"], "replayed_on": v["how"], "result": v["replayed"],
                   "again": "write the inputs as lines 'name value' to FILE; run /verif/build/plain/bin/%s %s FILE" % (prop, v["case"])}, open(p, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))

    agg = lambda k: sum(d.get(k, 0) for d in results)
    funcs, ext = set(), set()
    nm = symbol_names(binary)
    for d in results:
        funcs.update(d.get("functions", []))
        for e in d.get("external", []):
            if e.startswith("@0x"):
                e = nm.get(int(e[3:], 16), e)
            ext.add(e)
    fn = [f for f in demangle(sorted(funcs)) if re.search(r"\b(Slang|Utils|SemVer)::|StringTools|Tools::", f) and not re.match(r"^(std::|void std::|__gnu)", f)]
    fn = [f for f in fn if "::operator()" not in f or "Slang::" in f.split("(")[0]]
    # library functions that were not instrumented: only those that do not look at data of the program
    unmodelled = sorted(e for e in demangle(sorted(ext)) if not re.match(HARMLESS, e) and e not in cfg.get("externals_ok", []))
    incomplete = {d["case"]: d.get("incomplete", {}) or {"budget": 1} for d in results if not d.get("complete") and not d["violations"]}
    if unmodelled:
        incomplete["external functions"] = unmodelled[:20]
    vacuous = []
    for d in results:
        want = cfg.get("reach", {}).get(d["case"], [])
        for w in want:
            if not d.get("reach", {}).get(w):
                vacuous.append("%s:%s" % (d["case"], w))
        if not d.get("skipped") and not d.get("died") and d.get("paths", 0) - d.get("assume_failed_paths", 0) <= 0:
            vacuous.append(d["case"])
        if not d.get("skipped") and not d["violations"] and not d.get("asserts", 0):
            vacuous.append(d["case"] + ": nothing asserted")
    samples = []
    for d in results:
        for s in d.get("samples", [])[-1:]:
            samples.append({"case": d["case"], "inputs": s["inputs"]})
    complete = not incomplete and not vacuous and not mismatches and not unconfirmed
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "model_checking"),
        "coverage": {
            "states": agg("paths"),
            "transitions": agg("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "exhaustive": bool(complete),
            "explanation": "states: feasible symbolic paths of the real code (each stands for all input values that follow it); transitions: branch and enumeration decisions on symbolic conditions along them; traces_validated_against_impl: sampled paths re-run on the uninstrumented build with identical observations.",
            "technique": "exhaustive symbolic execution of the instrumented implementation; Z3 decides every branch and assertion over all values within the bounds",
            "bounds": cfg["bounds"],
            "outside_bounds": cfg.get("outside", ""),
            "cases": {d["case"]: {k: d.get(k) for k in ("paths", "queries", "unsat", "sat", "unknown", "asserts", "assert_queries", "complete", "wall_s", "reach", "max_depth") if d.get(k) not in (None, {}, 0)} for d in results},
            "queries": agg("queries"), "queries_unsat": agg("unsat"), "queries_sat": agg("sat"), "queries_unknown": agg("unknown"), "query_cache_hits": agg("cache_hits"),
            "assertions_checked_on_paths": agg("asserts"), "assertion_queries": agg("assert_queries"),
            "value_enumerations": agg("pins"), "divergences": agg("divergences"), "selfcheck_failures": agg("selfcheck_failures"),
            "solver_s": round(agg("solver_s"), 2), "solver": next((d["z3"] for d in results if d.get("z3")), ""),
            "functions_encoded_count": len(fn), "functions_encoded": fn[:400],
            "external_functions_with_enumerated_arguments": sorted(ext)[:300],
            "incomplete": incomplete, "vacuous": vacuous, "validation_mismatches": mismatches[:10], "unconfirmed_counterexamples": unconfirmed[:10],
            "known_findings_seen": sorted(knownhits),
            "build_s": round(t_build, 1),
        },
        "assumptions": cfg.get("assumptions", []) + [
            "C locale; C library functions are replaced by the models in engine/models.cpp where listed there",
            "compiled by clang 18 at -O1 with wrapping signed arithmetic; the uninstrumented build of sampled paths agrees",
        ],
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for what in sorted(knownhits):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for v, l in zip(violations, lines):
        print("counterexample %s: %s -> %s; inputs %s" % (v["case"], v["msg"], v["replayed"], json.dumps(v["inputs"])))
        print(l)
    print("%s %s: %d cases, %d paths, %d queries, %.1f s solver, %.1f s build, %.1f s total, %s" % (
        prop, tier, len(results), agg("paths"), agg("queries"), agg("solver_s"), t_build, time.time() - t_start,
        "all values within the bounds decided" if complete else "NOT exhaustive: " + json.dumps({"incomplete": incomplete, "vacuous": vacuous, "mismatch": mismatches[:3], "unconfirmed": unconfirmed[:3]})[:3000]))
    return 1 if violations else 0


def setup():
    lk = lock()
    build_engine()
    props = sorted(os.path.basename(p)[:-5] for p in glob.glob(HARNESS + "/C*.json"))
    jobs = []
    for p in props:
        for m in ("sym", "plain"):
            jobs += [j for j in compile_jobs(load_cfg(p), m) if j not in jobs]
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: compile_one(*j), jobs))
    for p in props:
        cfg = load_cfg(p)
        for m in ("sym", "plain"):
            build(p, cfg, m)
    lk.close()
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", action="append")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    return check(a.property, a.tier, a.case)


if __name__ == "__main__":
    sys.exit(main())
