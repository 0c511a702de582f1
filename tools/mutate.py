#!/usr/bin/env python3
"""Mutation testing of the checks: small mutations of /repo's headers, each run through all the scenarios for a few seconds.
Survivors are looked at by hand: blind spots of the checks, or mutations that keep the behaviour.
usage: mutate.py OUT.jsonl [--count N] [--seed S] [--seconds T] [--only FILE:LINE] [--jobs J]"""
import sys, os, re, random, subprocess, json, tempfile, shutil, time, concurrent.futures as cf, threading
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here); sim = os.path.join(verif, "sim")
a = sys.argv[1:]
def opt(n, d):
    if n in a: i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return type(d)(v)
    return d
count = opt("--count", 100); seed = opt("--seed", 1); seconds = opt("--seconds", 4); only = opt("--only", ""); jobs = opt("--jobs", 2); files_opt = opt("--files", "")
out = a[0]
FILES = files_opt.split(",") if files_opt else ["http/HTTPServer.hpp", "http/WebSocket.hpp", "weblink/WebLink.hpp", "weblink/Messages.hpp", "WebFront.hpp", "JsFunction.hpp", "tooling/Logger.hpp",
         "system/FileSystem.hpp", "system/NativeFS.hpp", "http/Encodings.hpp", "http/MimeType.hpp", "networking/TCPNetworkingTS.hpp", "networking/BasicNetworking.hpp"]
TUS = ["http_scn", "file_scn", "ws_scn", "wf_calls", "wf_links", "wf_chaos", "page_scn", "oom_scn"]
KIT = ["core", "net", "actors", "disk", "runner", "http_kit", "browser"]
PROPS = ["C01", "C02", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C23", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C24", "C03", "C04", "C19", "C22", "C25"]
FL = {"fast": ["-O1", "-DSIM_FAST"], "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_SANITIZE_VECTOR"]}
COMMON = ["g++-13", "-std=c++23", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern", "-I", sim + "/shim"]
def mutations():
    m = []
    for f in FILES:
        lines = open("/repo/include/" + f, newline="").read().split("\n")
        for i, l in enumerate(lines):
            c = l.split("//")[0].rstrip("\r")
            s = c.strip()
            if not s or s.startswith(("#", "/", "*", "using", "namespace", "template", "static_assert", "friend")) or "cout" in s or re.match(r"\s*0x", c) or "log::" in s and "Sink" not in s: continue
            def put(new, what):
                if new != c: m.append((f, i, new, what))
            code = re.sub(r'"[^"]*"|\'(\\.|[^\'])\'', lambda x: "\0" * len(x.group(0)), c) # no mutations inside literals
            for pat, rep in ((r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
                             (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-zA-Z(])", ""), (r" \? (.*) : ", None), (r"\+\+", "--")):
                if rep is None: continue
                if pat in (r" < ", r" > ") and re.search(r"template|span<|function<|array<|tuple<", c): continue
                for x in re.finditer(pat, code): put(c[:x.start()] + rep + c[x.end():], pat + "->" + rep)
            for x in re.finditer(r"(?<![\w.x])(\d+)u?(?![\w.x])", code):
                n = int(x.group(1)); put(c[:x.start()] + str(n + 1) + c[x.end():], "+1")
                if n > 0: put(c[:x.start()] + str(n - 1) + c[x.end():], "-1")
            if re.match(r"\s*(if \(.*\) )?[\w:.\->]+(\(.*\)|\s*(=|\+=|\|=|&=)\s.*);\s*$", c) and not re.match(r"\s*(return|throw|const|auto|static|std::\w+[<\s]|typename|size_t|bool|int|uint)", c):
                put(re.match(r"\s*", c).group(0) + ";", "delete")
            if re.match(r"\s*if \((?!constexpr).*\) \S", c): put(re.sub(r"if \(", "if (false && ", c, count=1), "never")
            if re.search(r"\bbreak;", code): put(c[:code.index("break;")] + ";" + c[code.index("break;") + 6:], "nobreak")
            if re.match(r"\s*return .*;", c) and "bool" not in c: pass
    return m
ms = mutations()
random.Random(seed).shuffle(ms)
if only:
    f, l = only.split(":"); ms = [x for x in ms if x[0].endswith(f) and x[1] + 1 == int(l)]
done = set()
if os.path.exists(out):
    for l in open(out): j = json.loads(l); done.add((j["file"], j["line"], j["new"]))
ms = [x for x in ms if (x[0], x[1] + 1, x[2].strip()) not in done][:count]
top = tempfile.mkdtemp(prefix="mutate."); objs = {}
def sh(c, t=300):
    try: return subprocess.run(c, capture_output=True, text=True, errors="replace", timeout=t)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 99; stdout = ""; stderr = "timeout"
        return R
lock = threading.Lock()
def build(inc, fl, d):
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda t: sh(COMMON + FL[fl] + ["-I", inc, "-c", f"{sim}/{t}.cpp", "-o", f"{d}/{t}.{fl}.o"]), TUS))
    if any(r.returncode for r in rs): return None
    exe = f"{d}/sim.{fl}"
    r = sh(["g++-13", "-rdynamic"] + (["-fsanitize=address,undefined"] if fl == "asan" else []) + [f"{d}/{t}.{fl}.o" for t in TUS] + [f"{top}/{k}.{fl}.o" for k in KIT] + ["-ldl", "-o", exe])
    return exe if r.returncode == 0 else None
def run(exe, p, n):
    cmd = [exe, "--property", p, "--seconds", str(seconds), "--seed", str(n), "--nominimise", "--replay-dir", top + "/rp", "--browser", verif + "/tools/browser.js"]
    if p == "C22": cmd += ["--known", "nested-arrays,huge-calls"]
    r = sh(cmd, 120)
    v = re.search(r'"violation":\{.*?"kind":"([^"]*)","message":"([^"]{0,200})', r.stdout)
    if v: return p, v[1], v[2]
    if r.returncode not in (0, 1): return p, "runner-exit", str(r.returncode) + r.stderr[-100:]
    return None
def one(k, mu):
    f, i, new, what = mu
    d = os.path.join(top, f"m{k}"); os.makedirs(d); t0 = time.time()
    try:
        shutil.copytree("/repo/include", d + "/include")
        p = f"{d}/include/{f}"; L = open(p, newline="").read().split("\n"); old = L[i]; L[i] = new + ("\r" if old.endswith("\r") else ""); open(p, "w", newline="").write("\n".join(L))
        res = dict(file=f, line=i + 1, what=what, old=old.strip(), new=new.strip())
        for fl in ("fast", "asan"):
            exe = build(d + "/include", fl, d)
            if not exe: res["result"] = "does not compile"; return res
            with cf.ThreadPoolExecutor(8 // jobs) as ex:
                hit = None
                futs = [ex.submit(run, exe, p, 1000 + k) for p in PROPS]
                for x in cf.as_completed(futs):
                    if x.result():
                        hit = x.result(); [y.cancel() for y in futs]; break
            if hit: res.update(result="killed", by=hit[0], kind=hit[1], message=hit[2], flavour=fl); return res
        res["result"] = "survived"
        return res
    finally:
        shutil.rmtree(d)
        with lock:
            open(out, "a").write(json.dumps(res | {"seconds": round(time.time() - t0)}) + "\n")
try:
    for fl in FL:
        with cf.ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda t: sh(COMMON + FL[fl] + ["-c", f"{sim}/{t}.cpp", "-o", f"{top}/{t}.{fl}.o"]), KIT))
            assert not any(r.returncode for r in rs), rs
    with cf.ThreadPoolExecutor(jobs) as ex: list(ex.map(lambda x: one(*x), enumerate(ms)))
finally:
    shutil.rmtree(top)
