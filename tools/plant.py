#!/usr/bin/env python3
"""Try one planted bug: build, tests, demonstration with and without it, and its property's check.
usage: plant.py ID [--nocheck] [--notest]      (works in /repo and restores it)"""
import json, os, subprocess, sys
ID = sys.argv[1]
D = f"/verif/seeded/{ID}"
meta = json.load(open(D + "/meta.json"))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def demo(): return sh(f"bash {D}/demo.sh", cwd="/repo", timeout=400)
assert sh("git -C /repo status --porcelain").stdout == "", "dirty /repo"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
if "--nodemo" not in sys.argv:
    r = sh("bash /opt/vp/build.sh"); assert r.returncode == 0, r.stdout[-2000:]
    d = demo(); print("demo unchanged:", d.returncode, d.stdout[-300:])
try:
    r = sh(f"git -C /repo apply {D}/patch.diff"); assert r.returncode == 0, r.stdout
    r = sh("bash /opt/vp/build.sh"); print("build:", r.returncode, "" if r.returncode == 0 else r.stdout[-3000:])
    if "--notest" not in sys.argv:
        for _ in range(2):
            sh("bash /opt/vp/test.sh /tmp/plant_out.json"); o = json.load(open("/tmp/plant_out.json"))
            print("tests: passed", len(o["passed"]), "failed", o["failed"])
    if "--nodemo" not in sys.argv:
        d = demo(); print("demo patched:", d.returncode, d.stdout[-300:])
    if "--nocheck" not in sys.argv:
        c = sh(f"python3 /verif/run.py {meta['property']}"); print("check:", c.returncode, c.stdout[-1500:])
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")
