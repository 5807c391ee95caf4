#!/usr/bin/env python3
"""Tries planted changes: seedcheck.py ID... - builds, tests, demonstration and check with and without the patch."""
import json, os, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    out = tempfile.mktemp()
    sh(f"bash /opt/vp/test.sh {out}")
    o = json.load(open(out)); os.unlink(out)
    p = set(o["passed"])
    return [s for s in b if s not in p]
def demo(d):
    return sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
checks_only = "--checks" in sys.argv
for i in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = f"{VERIF}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    tmp = tempfile.mkdtemp()
    sh(f"cp {d}/* {tmp}; rm -f {tmp}/*.diff {tmp}/meta.json")
    res = {"id": i, "property": meta["property"]}
    if not checks_only:
        r = demo(tmp); res["demo_clean"] = r.returncode
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(i, "DOES NOT APPLY", a.stderr); continue
    try:
        res["build"] = sh("bash /opt/vp/build.sh").returncode
        if not checks_only:
            res["tests_missing"] = stable()
            r = demo(tmp); res["demo_patched"] = r.returncode
        c = sh(f"VERIF_SEED=1 VERIF_TIER=quick python3 {VERIF}/check.py {meta['property']}")
        res["check"] = c.returncode
        res["out"] = c.stdout[-600:] + c.stderr[-300:]
    finally:
        sh("git -C /repo checkout -- .")
        sh(f"rm -rf {tmp}")
    ok = res["check"] == 1 and (checks_only or (res["demo_clean"] == 0 and res["demo_patched"] != 0 and not res["tests_missing"] and not res["build"]))
    print("OK " if ok else "BAD", json.dumps(res) if not ok else f"{i} {res['property']}", flush=True)
