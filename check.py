#!/usr/bin/env python3
"""Decides one property by seeded simulation of the real code. See DESIGN.md.

  check.py C01 [--tier quick|thorough] [--seconds N]   run the check of a property
  check.py --setup                                     build everything for the current tree of /repo
  check.py --replay FILE [--verbose]                   run a replay file again (exit 1: same violation)
  check.py --determinism [C01 ...]                     many seeds twice, in different processes and worker counts
"""
import concurrent.futures as cf, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
CXX = "g++-13"
COMMON = ["-std=c++23", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
FLAVOURS = {
    "asan": (COMMON + ["-O1", "-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR"],
             ["-fsanitize=address,undefined"]),
    "fast": (COMMON + ["-O2", "-DSIM_FAST"], []),
}
KIT = ["core", "net", "actors", "disk", "runner", "http_kit", "browser"]  # none of these includes anything from /repo
FILES = {"C01": "http_scn", "C02": "http_scn", "C05": "http_scn", "C06": "http_scn", "C07": "file_scn",
         "C09": "ws_scn", "C10": "ws_scn", "C11": "ws_scn", "C12": "ws_scn",
         "C13": "wf_calls", "C14": "wf_calls", "C15": "wf_calls", "C16": "wf_calls",
         "C17": "wf_links", "C18": "wf_links", "C20": "wf_links", "C21": "wf_links",
         "C03": "wf_chaos", "C04": "wf_chaos", "C19": "wf_chaos",
         "C22": "page_scn", "C23": "ws_scn", "C24": "wf_links", "C25": "oom_scn"}
SANITIZED = {"C04": 7, "C03": 5}  # of 8 workers; the others run the same scenarios in the build without sanitizers
LEVEL = "exploration"


def run_options(prop):
    """what every run of a property needs, replays included"""
    known = ",".join(k.split(" id=", 1)[1].split()[0] for k in load_known(prop) if " id=" in k)
    opts = ["--known", known] if known else []
    if prop == "C22":
        opts += ["--browser", os.path.join(VERIF, "tools", "browser.js")]
    return opts


class CheckError(Exception):
    pass


def tree_hash(root):
    h = hashlib.sha256()
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_hashes = {}


def hash_sources():
    if not _hashes:
        h = hashlib.sha256(tree_hash(os.path.join(SIM, "shim")).encode())
        for f in sorted(os.listdir(SIM)):
            if f.endswith(".hpp"):
                h.update(open(os.path.join(SIM, f), "rb").read())
        _hashes["sim"] = h.hexdigest()
        _hashes["repo"] = tree_hash(os.path.join(REPO, "include"))


def object_path(tu, flavour):
    h = hashlib.sha256()
    h.update(repr(FLAVOURS[flavour]).encode())
    h.update(_hashes["sim"].encode())
    if tu not in KIT:
        h.update((REPO + _hashes["repo"]).encode())
    h.update(open(os.path.join(SIM, tu + ".cpp"), "rb").read())
    return os.path.join(BUILD, "obj", "%s-%s-%s.o" % (tu, flavour, h.hexdigest()[:24]))


def run_cmd(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return -1, "timed out after %d s: %s" % (timeout, " ".join(cmd[:3]))


def compile_one(job):
    tu, flavour = job
    out = object_path(tu, flavour)
    if os.path.exists(out):
        os.utime(out)
        return
    tmp = out + ".%d.tmp" % os.getpid()
    rc, text = run_cmd([CXX] + FLAVOURS[flavour][0] + ["-I", os.path.join(SIM, "shim"), "-I", os.path.join(REPO, "include"), "-c", os.path.join(SIM, tu + ".cpp"), "-o", tmp], 600)
    if rc != 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        raise CheckError("%s (%s) does not compile:\n%s" % (tu, flavour, text[:6000]))
    os.rename(tmp, out)


def prune(keep=6):
    groups = {}
    d = os.path.join(BUILD, "obj")
    for f in os.listdir(d):
        groups.setdefault(f.rsplit("-", 1)[0], []).append(os.path.join(d, f))
    for fs in groups.values():
        for f in sorted(fs, key=os.path.getmtime)[:-keep]:
            os.unlink(f)


def build(wanted):
    """wanted: set of (scenario file, flavour); returns {(file, flavour): binary}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hash_sources()
    jobs = sorted({(k, fl) for _, fl in wanted for k in KIT} | set(wanted), key=lambda j: (j[0] in KIT, j[1] == "fast"))
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 8)) as ex:
        for f in [ex.submit(compile_one, j) for j in jobs]:
            f.result()
    bins = {}
    for tu, fl in sorted(wanted):
        objs = [object_path(t, fl) for t in KIT + [tu]]
        h = hashlib.sha256("".join(objs).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (tu, fl, h))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            rc, text = run_cmd([CXX] + FLAVOURS[fl][1] + ["-rdynamic"] + objs + ["-o", tmp, "-ldl"], 300)
            if rc != 0:
                raise CheckError("link of %s (%s) failed:\n%s" % (tu, fl, text[:4000]))
            os.rename(tmp, out)
            same = sorted((os.path.join(BUILD, "bin", f) for f in os.listdir(os.path.join(BUILD, "bin")) if f.startswith("%s-%s-" % (tu, fl)) and not f.endswith(".tmp")), key=os.path.getmtime)
            for f in same[:-4]:
                os.unlink(f)
        bins[(tu, fl)] = out
    prune()
    return bins


def plan(prop, workers):
    """the flavour and extra options of each worker"""
    asan = min(workers, SANITIZED.get(prop, 3))
    out = [("asan", [])] * asan + [("fast", [])] * (workers - asan)
    if prop == "C17":
        out[-1] = ("fast", ["--scenario", "marathon", "--cpu", "60"])
    return out


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                known.append(line[len("finding: "):])
    return known


def confirm(binary, prop, replay):
    """a fresh process must reproduce the replay file exactly, twice"""
    codes = [run_cmd([binary, "--replay", replay, "--cpu", "25"] + run_options(prop), 900)[0] for _ in range(2)]
    return codes == [1, 1]


def check_assets(binary, prop):
    """The embedded files must be what they are said to be once decoded as their encoding says."""
    d = tempfile.mkdtemp(prefix="wfassets.")
    try:
        rc, text = run_cmd([binary, "--assets", d], 120)
        if rc != 0:
            raise CheckError("cannot read the embedded files: rc=%d %s" % (rc, text[:1000]))
        rc, text = run_cmd(["node", os.path.join(VERIF, "tools", "decode_assets.js"), os.path.join(d, "list")], 120)
        bad = [l for l in text.splitlines() if l.startswith("BAD ")]
        good = [l for l in text.splitlines() if l.startswith("OK ")]
        if rc not in (0, 1) or (rc == 1) != bool(bad) or not (good or bad):
            raise CheckError("decode_assets.js failed: rc=%d %s" % (rc, text[:1000]))
        return good, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main_check(prop, tier, seconds):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if seconds is None:
        seconds = float(os.environ.get("WF_SECONDS", 0)) or (22 if tier == "quick" else 900)
    tu = FILES[prop]
    workers = int(os.environ.get("WF_WORKERS", "8"))
    todo = plan(prop, workers)
    bins = build({(tu, fl) for fl, _ in todo})
    built = time.time()
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(replays, f))
    tmp = tempfile.mkdtemp(prefix="wfcheck.")
    results, assets = [], None
    try:
        with cf.ThreadPoolExecutor(workers + 1) as ex:
            def one(i):
                fl, extra = todo[i]
                out = os.path.join(tmp, "w%d.json" % i)
                d = os.path.join(replays)
                rc, text = run_cmd([bins[(tu, fl)], "--property", prop, "--seed", str(seed), "--worker", str(i), "--seconds", str(seconds),
                                    "--minimise", "25" if tier == "quick" else "120", "--replay-dir", d, "--out", out] + extra + run_options(prop), seconds + 600)
                if not os.path.exists(out):
                    raise CheckError("worker %d of %s ended without a result: rc=%d %s" % (i, prop, rc, text[:3000]))
                r = json.load(open(out))
                r["flavour"] = fl
                r["worker"] = i
                return r
            futures = [ex.submit(one, i) for i in range(workers)]
            if prop == "C07":
                assets = check_assets(bins[(tu, "asan")], prop)
            results = [f.result() for f in futures]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    violations, unconfirmed = [], []
    for r in results:
        v = r["violation"]
        if v:
            v["build"] = r["flavour"]
            (violations if confirm(bins[(tu, r["flavour"])], prop, v["replay"]) else unconfirmed).append(v)
    if assets and assets[1]:
        path = os.path.join(replays, "C07-assets.replay")
        open(path, "w").write("wfsim-replay assets\nproperty C07\n" + "\n".join(assets[1]) + "\n")
        violations.append({"kind": "asset", "scenario": "assets", "seed": 0, "message": assets[1][0], "replay": path, "build": "asan", "decisions": 10**9})

    traces, scheds = set(), set()
    faults, probes, scen = {}, {}, {}
    for r in results:
        traces.update(r.pop("traces"))
        scheds.update(r.pop("scheds"))
        for k, (n, m) in r["faults"].items():
            a = faults.setdefault(k, [0, 0])
            a[0] += n
            a[1] += m
        for k, (n, m) in r["probes"].items():
            a = probes.setdefault(k, [0, 0])
            a[0] += n
            a[1] += m
        for k, n in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + n
    runs = sum(r["runs"] for r in results)
    wall = max(r["wall"] for r in results)
    samples = []
    for r in results:
        samples += r["samples"][:1]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(traces),
            "rule": "One evaluation is one simulated run of the real server code in its own process: workload, configuration, network and disk faults and every scheduling decision are drawn from one seed. "
                    "A run is non-trivial when the exchange the property speaks about completed in it (the scenario sets a flag where its oracle judged something); runs are distinct by the hash of "
                    "everything the server and the clients observed (requests handed to the network, completions, bytes, closes, files opened, in order).",
            "samples": samples[:6] or ["(none)"],
            "runs_per_hour": round(runs / max(wall, 0.001) * 3600),
            "seeds_per_hour": round(runs / max(wall, 0.001) * 3600),
            "simulated_seconds": round(sum(r["sim_seconds"] for r in results), 3),
            "simulated_events": sum(r["events"] for r in results),
            "distinct_schedules": len(scheds),
            "distinct_schedules_measure": "hash of the order in which the simulator ran server completions and client actions and of the sizes it cut transfers to",
            "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items()) if v[0]},
            "faults_not_used": sorted(k for k, v in faults.items() if not v[0]),
            "probes": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
            "scenarios": scen,
            "workers": [{"build": r["flavour"], "runs": r["runs"], "nontrivial": r["nontrivial"]} for r in results],
            "real_components": "all of /repo/include that the scenario reaches, compiled unchanged from the current tree: " + REAL[tu],
            "stub_components": "the Networking TS implementation (simulated sockets, acceptor, timers and event loop), the clients, the wall clock; the disk is a scratch directory whose open/read calls go through fault injection",
            "unreproducible_runs": sum(r["unreproducible"] for r in results),
            "build_seconds": round(built - t0, 1),
        },
        "assumptions": ["bytes of one direction of a connection arrive in order and unaltered (TCP)", "one thread runs the event loop, as WebFront documents",
                        "the simulated Networking TS has the semantics of the real one as far as the server uses it (see DESIGN.md)"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if assets:
        evidence["coverage"]["embedded_files_decoded"] = assets[0]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct non-trivial, %d schedules), %.0f simulated s, %d events, build %.0f s, run %.0f s" %
          (prop, tier, seed, runs, len(traces), len(scheds), evidence["coverage"]["simulated_seconds"], evidence["coverage"]["simulated_events"], built - t0, wall))
    for k in load_known(prop):
        print("KNOWN-FINDING: " + k)
    if violations:
        best = min(violations, key=lambda v: (v.get("decisions", 0), v["replay"]))
        print("kind=%s scenario=%s build=%s seed=%s\n%s" % (best["kind"], best["scenario"], best["build"], best["seed"], best["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, best["replay"]))
        return 1
    if unconfirmed:
        raise CheckError("a violation was not reproduced by a fresh process: %s" % json.dumps(unconfirmed[0])[:1500])
    bad = [r["unreproducible_last"] for r in results if r["unreproducible"]]
    if bad:
        raise CheckError("runs that do not repeat: " + bad[0])
    if not traces:
        raise CheckError("no run was non-trivial")
    return 0


REAL = {
    "http_scn": "HTTPServer, Encodings, MimeType, FileSystem, NativeFS, IndexFS, TCPNetworkingTS (and WebSocket, Logger where connections are upgraded)",
    "file_scn": "FileSystem, NativeFS, IndexFS, JasmineFS, ReactFS, BabelFS",
    "ws_scn": "HTTPServer, WebSocket, Encodings, TCPNetworkingTS, IndexFS",
    "wf_calls": "WebFront, WebLink, Messages, JsFunction, HTTPServer, WebSocket, Logger, TypeErasedFunction, TCPNetworkingTS, NativeFS, IndexFS",
    "wf_links": "WebFront, WebLink, Messages, JsFunction, HTTPServer, WebSocket, Logger, TypeErasedFunction, TCPNetworkingTS, NativeFS, IndexFS",
    "page_scn": "WebFront, WebLink, Messages, JsFunction, HTTPServer, WebSocket, Logger, TypeErasedFunction, Encodings, MimeType, TCPNetworkingTS, NativeFS, IndexFS, and the page script they serve (WebFront.js), executed by node",
    "oom_scn": "WebFront, WebLink, Messages, JsFunction, HTTPServer, WebSocket, Logger, TypeErasedFunction, TCPNetworkingTS, NativeFS, IndexFS",
    "wf_chaos": "WebFront, WebLink, Messages, JsFunction, HTTPServer, WebSocket, Logger, TypeErasedFunction, TCPNetworkingTS, NativeFS, IndexFS",
}


def replay(path, verbose):
    head = open(path, errors="replace").read(400).splitlines()
    info = dict(l.split(" ", 1) for l in head if " " in l)
    prop = info["property"]
    if head[0] == "wfsim-replay assets":
        bins = build({(FILES[prop], "asan")})
        good, bad = check_assets(bins[(FILES[prop], "asan")], prop)
        print("\n".join(bad))
        return 1 if bad else 0
    bins = build({(FILES[prop], info["build"])})
    cmd = [bins[(FILES[prop], info["build"])], "--replay", path, "--cpu", "25"] + run_options(prop) + (["--verbose"] if verbose else [])
    return subprocess.call(cmd)


def determinism(props):
    """the same seeds in different processes must give the same traces"""
    bins = build({(FILES[p], fl) for p in props for fl in ("asan", "fast")})
    ok = True
    for p in props:
        for fl in ("asan", "fast"):
            def one(args):
                seed, again = args
                out = tempfile.mktemp(prefix="wfdet.")
                run_cmd([bins[(FILES[p], fl)], "--property", p, "--seed", str(seed), "--runs", "60", "--seconds", "600", "--out", out] + run_options(p), 900)
                r = json.load(open(out))
                os.unlink(out)
                return r["runs"], r["events"], r["nontrivial"], sorted(r["traces"]), sorted(r["scheds"]), r["faults"], r["probes"]
            with cf.ThreadPoolExecutor(8) as ex:
                a = list(ex.map(one, [(s, 0) for s in range(1, 9)]))
            with cf.ThreadPoolExecutor(3) as ex:
                b = list(ex.map(one, [(s, 1) for s in range(1, 9)]))
            same = a == b
            ok &= same
            print("%s %s: %s" % (p, fl, "identical" if same else "DIFFERENT"))
            if not same:
                for i, (x, y) in enumerate(zip(a, b)):
                    if x != y:
                        print("   seed", i + 1, [k for k in range(7) if x[k] != y[k]])
    return 0 if ok else 2


def main():
    args = sys.argv[1:]
    try:
        if args and args[0] == "--setup":
            build({(f, fl) for f in set(FILES.values()) for fl in FLAVOURS})
            return 0
        if args and args[0] == "--replay":
            return replay(args[1], "--verbose" in args)
        if args and args[0] == "--determinism":
            return determinism(args[1:] or sorted(FILES))
        prop = args[0]
        tier = os.environ.get("VERIF_TIER", "quick")
        seconds = None
        if "--tier" in args:
            tier = args[args.index("--tier") + 1]
        if "--seconds" in args:
            seconds = float(args[args.index("--seconds") + 1])
        if prop not in FILES or tier not in ("quick", "thorough"):
            raise CheckError("unknown property or tier")
        return main_check(prop, tier, seconds)
    except CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        print("CHECK ERROR: %s" % str(e)[:2000])
        return 2
    except Exception:  # never an exit code that could be taken for a verdict
        import traceback
        traceback.print_exc()
        return 2


sys.exit(main())
