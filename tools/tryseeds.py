#!/usr/bin/env python3
"""Confirms planted bugs (build, tests, demo with and without) and runs the check of their property on them, in a scratch copy of /repo's HEAD.
usage: tryseeds.py [--nocheck] [--notest] [--seconds N] [--also Cxx,...] [id...]"""
import sys, os, subprocess, json, time, tempfile, shutil
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here); seeded = os.path.join(verif, "seeded")
args = sys.argv[1:]; nocheck = "--nocheck" in args; notest = "--notest" in args; also = []; seconds = ""
if "--also" in args: i = args.index("--also"); also = args[i + 1].split(","); del args[i:i + 2]
if "--seconds" in args: i = args.index("--seconds"); seconds = " --seconds " + args[i + 1]; del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(seeded))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
top = tempfile.mkdtemp(prefix="tryseeds."); repo = top + "/repo"; vp = top + "/vp"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
try:
    assert sh(f"git clone -q /repo {repo}").returncode == 0
    shutil.copytree("/opt/vp", vp)
    for d, _, fs in os.walk(vp):
        for f in fs:
            if f in ("build.sh", "test.sh", "CMakeLists.txt"):
                p = os.path.join(d, f); t = open(p).read().replace("/repo", repo).replace("/opt/vp", vp); open(p, "w").write(t)
    for i in ids:
        d = os.path.join(seeded, i); prop = json.load(open(d + "/meta.json"))["property"]; t0 = time.time(); res = []
        if not notest:
            r = sh(f"cd {repo} && {d}/demo.sh"); res.append(f"demo clean {r.returncode}" + (" " + r.stderr[-300:] if r.returncode else ""))
        r = sh(f"git -C {repo} apply {d}/patch.diff")
        if r.returncode: print(i, "*** DOES NOT APPLY", r.stderr); continue
        try:
            if not notest:
                r = sh(f"bash {vp}/build.sh"); res.append("builds" if r.returncode == 0 else "*** BUILD FAILS " + r.stdout[-1500:])
                sh(f"bash {vp}/test.sh {top}/try.json"); o = json.load(open(top + "/try.json")) if os.path.exists(top + "/try.json") else {}
                failed = stable - set(o.get("passed", []))
                res.append("tests pass" if not failed else f"*** TESTS FAIL {sorted(failed)[:5]}")
                if os.path.exists(top + "/try.json"): os.unlink(top + "/try.json")
                r = sh(f"cd {repo} && {d}/demo.sh"); res.append(("" if r.returncode else "*** ") + f"demo patched {r.returncode} {r.stderr.strip()[-120:]}")
            if not nocheck:
                for p in [prop] + also:
                    t = time.time(); r = sh(f"WF_REPO={repo} python3 {verif}/check.py {p}{seconds}", timeout=900)
                    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]; k = [l[:100] for l in r.stdout.split("\n") if l.startswith("kind=")]
                    res.append(f"check {p} -> {r.returncode} {k} {time.time()-t:.0f}s" + ("" if r.returncode == 1 and v else " *** MISSED " + (r.stdout + r.stderr)[-400:]))
        finally: sh(f"git -C {repo} checkout -- .")
        print(f"{i}: " + "; ".join(res) + f" [{time.time()-t0:.0f}s]", flush=True)
finally:
    shutil.rmtree(top)
