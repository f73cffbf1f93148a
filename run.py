#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

usage: run.py PROPERTY [--tier quick|thorough] [--only CONFIG] [--keep DIR] [-v]

Every run compiles /repo's current working tree to LLVM bitcode, links it with
the property's harnesses and the environment model, lets the symbolic executor
(engine/) decide all assertions within the stated bounds, and replays sample
traces and every counterexample on native code.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
SYMX = os.path.join(ENGINE, "build", "symx")
CXX = "clang++-18"
CFLAGS = ["-std=c++20", "-O1", "-g1", "-Xclang", "-disable-llvm-passes", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
          "-fno-access-control", "-I" + REPO + "/include", "-I" + ENGINE + "/lib", "-I" + VERIF + "/harness", "-w"]
API = "vf_main,_ZN5cocpp6co_ctx10real_entryEPS0_"
JOBS = os.cpu_count() or 4


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    return r.returncode, r.stdout


def must(cmd, what, timeout=600):
    rc, out = sh(cmd, timeout)
    if rc:
        raise CheckError(f"{what} failed ({rc}):\n{out[-3000:]}")
    return out


def build_engine():
    srcs = glob.glob(ENGINE + "/*.cpp") + glob.glob(ENGINE + "/*.h")
    if os.path.exists(SYMX) and all(os.path.getmtime(s) <= os.path.getmtime(SYMX) for s in srcs):
        return
    must(["bash", ENGINE + "/build.sh"], "engine build")
    must([SYMX, "selftest"], "engine self test")


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:32]


def tree_files(sub, ext):
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, sub)):
        out += [os.path.join(d, f) for f in fs if f.endswith(ext)]
    return sorted(out)


def compile_bc(src, out, defs=(), cache=None, hdr=""):
    if cache:
        os.makedirs(cache, exist_ok=True)
        c = os.path.join(cache, digest([src], hdr + " ".join(CFLAGS) + " ".join(defs)) + ".bc")
        if os.path.exists(c):
            shutil.copy(c, out)
            return
    must([CXX] + CFLAGS + list(defs) + ["-emit-llvm", "-c", src, "-o", out], "compiling " + src)
    if cache:
        shutil.copy(out, c + ".%d" % os.getpid())
        os.replace(c + ".%d" % os.getpid(), c)


class Config:
    """One harness instance: source, macros, preparation flags and bounds."""

    def __init__(self, name, harness, defs="", bounds="", prep="", run="", tier="both", timeout=300, qtimeout=120000, no_tu="", finding=None, mem=True, allow_nocex=False, lift=None):
        self.name, self.harness, self.defs, self.bounds = name, harness, defs.split(), bounds
        self.prep, self.run, self.tier, self.timeout = prep.split(), run.split(), tier, timeout
        self.qtimeout = qtimeout
        self.no_tu = no_tu
        self.finding = finding  # identifier in known_findings.txt this configuration is dedicated to
        self.mem = mem
        self.lift = lift  # (source, symbol): machine code to translate into lift.h


DEFAULT_PREP = ["-novis=co_recursive_mutex_with_count::", "-novis=co_env::current_ctx"]


def build_config(c, work, tus):
    d = os.path.join(work, c.name)
    os.makedirs(d, exist_ok=True)
    f = lambda n: os.path.join(d, n)
    extra = []
    if c.lift:
        must([sys.executable, os.path.join(VERIF, "tools", "lift.py"), os.path.join(REPO, c.lift[0]), c.lift[1], f("lift.h"),
              "-std=c++20", "-O3", "-DNDEBUG", "-w", "-I" + REPO + "/include"], "translation of machine code")
        extra = ["-I" + d]
    compile_bc(os.path.join(VERIF, "harness", c.harness + ".cpp"), f("h.bc"), ["-D" + x for x in c.defs] + extra)
    use = [t for t in tus if not (c.no_tu and re.search(c.no_tu, t))]
    must(["llvm-link-18", f("h.bc"), os.path.join(work, "stubs.bc"), "-o", f("base.bc")], "link")
    must(["llvm-link-18", f("base.bc")] + [tus[t] for t in use] + ["-o", f("link.bc")], "link")
    must([SYMX, "prep", f("link.bc"), f("prep.bc")] + DEFAULT_PREP + c.prep, "prep")
    must(["opt-18", "-passes=internalize,globaldce,default<O1>,globaldce", "-internalize-public-api-list=" + API,
          "-vectorize-loops=false", "-vectorize-slp=false", f("prep.bc"), "-o", f("opt.bc")], "opt")
    must([SYMX, "mem", f("opt.bc"), f("fin.bc")], "mem")
    return d


def native(d, work):
    exe = os.path.join(d, "replay")
    if not os.path.exists(exe):
        must([CXX, "-O1", "-w", "-Wno-override-module", os.path.join(d, "fin.bc"), os.path.join(work, "runtime.o"), "-o", exe, "-lpthread", "-ldl"], "native build")
    return exe


def replay(exe, trace):
    try:
        rc, out = sh(["setarch", "-R", exe, trace], timeout=120, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return 99, "replay timed out"
    return rc, out.strip()


def run_config(c, work, tus, log):
    t = time.time()
    d = build_config(c, work, tus)
    tb = time.time() - t
    out = os.path.join(d, "r")
    cmd = [SYMX, "run", os.path.join(d, "fin.bc"), "-out=" + out, f"-timeout={c.timeout}", f"-qtimeout={c.qtimeout}"] + c.run
    try:
        rc, txt = sh(cmd, timeout=c.timeout + 120)
    except subprocess.TimeoutExpired:
        raise CheckError(f"{c.name}: engine did not stop in time")
    if rc not in (0, 1) or not os.path.exists(out + ".json"):
        raise CheckError(f"{c.name}: inconclusive (exit {rc}): {txt[-1500:]}")
    r = json.load(open(out + ".json"))
    r["config"], r["build_s"], r["dir"] = c, tb, d
    r["validated"], r["confirmed"], r["sample"] = 0, [], None
    exe = native(d, work)
    for w in r["witnesses"]:
        rrc, rout = replay(exe, w)
        if rrc != 0:
            raise CheckError(f"{c.name}: native run does not reproduce sample trace {w}: {rrc} {rout}")
        r["validated"] += 1
        if r["sample"] is None:
            r["sample"] = compact(w)
    for v in r["violations"]:
        rrc, rout = replay(exe, v["trace"])
        v["replay_rc"], v["replay_out"] = rrc, rout
    if rc == 0:
        if r["unreached"]:
            raise CheckError(f"{c.name}: vacuous, never reached: {r['unreached']}")
        if not r["reached"]:
            raise CheckError(f"{c.name}: vacuous, no reachability marker")
    log(f"{c.name}: exit {rc} build {tb:.1f}s run {r['wall']:.1f}s states {r['states']} transitions {r['transitions']} depth {r['depth']} "
        f"queries {r['queries']} z3 {r['z3_calls']} solver {r['solver_s']:.1f}s rss {r['maxrss_mb']}MB validated {r['validated']}")
    return r


def compact(trace):
    sched, inp = [], []
    for line in open(trace):
        p = line.split()
        if len(p) >= 2 and p[0] == "T":
            sched.append(p[1])
        if len(p) >= 2 and p[0] == "N":
            inp.append(p[1])
    return {"schedule": " ".join(sched[:200]), "inputs": " ".join(inp[:100])}


def findings(prop):
    """known_findings.txt: 'known: property=ID key=CONFIG kind=KIND match=REGEX | text' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) kind=(\S+) match=/(.*?)/ \| (.*)", line)
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "kind": m.group(3), "match": m.group(4), "text": m.group(5).strip()})
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--keep")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import checks
    spec = checks.PROPS[a.property]
    cfgs = [c for c in spec["configs"] if (not a.only or re.fullmatch(a.only, c.name)) and (a.only or c.tier in ("both", a.tier))]
    if not cfgs:
        raise CheckError("no configurations")
    build_engine()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    work = a.keep or tempfile.mkdtemp(prefix="vf-" + a.property + "-")
    os.makedirs(work, exist_ok=True)

    def log(s):
        print(s, flush=True)
    rcode = 0
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            hdr = digest(tree_files("include", "") + tree_files("source", (".h", ".hpp", ".inl", ".ipp")), REPO)
            srcs = tree_files("source", (".cpp", ".cc", ".cxx"))
            tus, fut = {}, []
            os.makedirs(os.path.join(work, "tu"), exist_ok=True)
            for s in srcs:
                rel = os.path.relpath(s, REPO)
                tus[rel] = os.path.join(work, "tu", rel.replace("/", "_") + ".bc")
                fut.append(ex.submit(compile_bc, s, tus[rel], [], os.path.join(VERIF, ".cache"), hdr))
            fut.append(ex.submit(compile_bc, ENGINE + "/lib/stubs.cpp", os.path.join(work, "stubs.bc"), ["-fno-exceptions"]))
            fut.append(ex.submit(must, [CXX, "-std=c++20", "-O1", "-w", "-I" + ENGINE + "/lib", "-c", ENGINE + "/lib/runtime.cpp", "-o", os.path.join(work, "runtime.o")], "runtime"))
            for x in fut:
                x.result()
            results, errors = [], []
            fs = {ex.submit(run_config, c, work, tus, log): c for c in cfgs}
            for x in cf.as_completed(fs):
                try:
                    results.append(x.result())
                except CheckError as e:
                    errors.append(str(e))
                    log("ERROR " + str(e))
        known = findings(a.property)
        viol, unconf = [], []
        for r in results:
            c = r["config"]
            for v in r["violations"]:
                hit = next((k for k in known if c.finding == k["key"] and v["kind"] == k["kind"] and re.search(k["match"], v["msg"] + " " + v["where"])), None)
                if v["replay_rc"] != 10:
                    unconf.append((c.name, v))
                elif hit:
                    print(f"KNOWN-FINDING: property={a.property} {hit['text']}")
                else:
                    viol.append((r, v))
            if c.finding and not r["violations"]:
                log(f"note: known finding {c.finding} no longer occurs")
        for n, v in unconf:
            log(f"UNCONFIRMED {n}: {v['kind']}: {v['msg']} at {v['where']}: replay {v['replay_rc']} {v['replay_out']}")
        results.sort(key=lambda r: r["config"].name)
        tot = lambda k: sum(r[k] for r in results)
        fn = sorted({x for r in results for x in r["functions"]})
        cov = {
            "states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("validated"),
            "samples": [{"config": r["config"].name, "harness": r["config"].harness, **(r["sample"] or {})} for r in results][:6],
            "exhaustive": not errors and not unconf,
            "queries_discharged": tot("queries"), "solver_calls": tot("z3_calls"), "answered_by_known_model": tot("model_hits"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2), "assertions_evaluated": tot("asserts"), "instructions_executed": tot("instructions"),
            "functions_encoded": fn, "bounds": {r["config"].name: r["config"].bounds for r in results},
            "configurations": [{"name": r["config"].name, "harness": r["config"].harness, "macros": r["config"].defs, "engine_options": r["config"].prep + r["config"].run,
                                "states": r["states"], "transitions": r["transitions"], "depth": r["depth"], "terminal_states": r["terminals"], "queries": r["queries"], "solver_calls": r["z3_calls"], "solver_s": round(r["solver_s"], 2),
                                "wall_s": round(r["wall"], 2), "markers_reached": r["reached"], "assertions": r["assertions"]} for r in results],
            "errors": errors,
        }
        rep = os.path.join(ev, a.property + ".replay")
        if os.path.isdir(rep):
            shutil.rmtree(rep)
        if viol:
            os.makedirs(rep)
            for i, (r, v) in enumerate(viol):
                n = os.path.join(rep, f"{i}.{r['config'].name}")
                shutil.copy(v["trace"], n + ".trace")
                shutil.copy(os.path.join(r["dir"], "replay"), n + ".exe")
                with open(n + ".txt", "w") as f:
                    f.write(f"{v['kind']}: {v['msg']}\nat {v['where']}\nharness {r['config'].harness} {' '.join(r['config'].defs)}\nreplay: {n}.exe {n}.trace  (exit 10 = reproduced)\n{v['replay_out']}\n")
                print(f"{r['config'].name}: {v['kind']}: {v['msg']} at {v['where']}; native replay: {v['replay_out']}")
                print(f"VIOLATION property={a.property} replay={n}.trace")
        evd = {"property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED") or 0), "level": spec.get("level", "model_checking"),
               "coverage": cov, "assumptions": spec.get("assumptions", []) + checks.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
        if not a.only:
            with open(os.path.join(ev, a.property + ".json"), "w") as f:
                json.dump(evd, f, indent=1)
        rcode = 1 if viol else 2 if errors or unconf else 0
        print(f"{a.property}: {'VIOLATED' if rcode == 1 else 'held' if rcode == 0 else 'inconclusive'} in {time.time() - t0:.1f}s, {len(results)} configurations")
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    return rcode


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR", e)
        sys.exit(2)
