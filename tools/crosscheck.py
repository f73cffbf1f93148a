#!/usr/bin/env python3
"""Cross-check sampled Z3 answers with cvc5: crosscheck.py ID... [-n EVERY] [-l LIMIT]

Keeps the final bitcode of every quick configuration, dumps every EVERY-th
query as SMT-LIB and compares cvc5's answer with the one Z3 gave."""
import argparse, collections, concurrent.futures, glob, os, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks

def decide(f):
    want = f.split(".")[-2]
    try:
        out = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=20000", f], capture_output=True, text=True, timeout=40).stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    got = next((l for l in out.split("\n") if l in ("sat", "unsat")), None)
    if "(error" in out or got is None:
        return "inconclusive", f
    return ("agree" if got == want else "DISAGREE"), f

def main():
    a = argparse.ArgumentParser()
    a.add_argument("ids", nargs="+"); a.add_argument("-n", type=int, default=20); a.add_argument("-l", type=int, default=60)
    o = a.parse_args()
    bad = 0
    for p in o.ids:
        with tempfile.TemporaryDirectory(prefix="xc_") as d:
            subprocess.run([sys.executable, os.path.join(ROOT, "run.py"), p, "--keep", d], capture_output=True)
            tot = collections.Counter()
            for c in checks.PROPS[p]["configs"]:
                fin = os.path.join(d, c.name, "fin.bc")
                if c.tier == "thorough" or not os.path.exists(fin): continue
                q = os.path.join(d, c.name, "q"); os.makedirs(q)
                subprocess.run([os.path.join(ROOT, "engine/build/symx"), "run", fin, "-out=" + os.path.join(d, c.name, "x"),
                                "-dump=" + q, f"-dumpevery={o.n}", "-timeout=200", *c.run], capture_output=True)
                fs = sorted(glob.glob(q + "/*"))
                fs = fs[::max(1, len(fs) // o.l)][:o.l]
                with concurrent.futures.ThreadPoolExecutor(3) as ex:
                    for r, f in ex.map(decide, fs):
                        tot[r] += 1
                        if r == "DISAGREE": print("DISAGREE", p, c.name, f); bad = 1
            print(p, dict(tot), flush=True)
    sys.exit(bad)
main()
