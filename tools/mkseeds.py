#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds*.py, for the current HEAD of /repo.
usage: mkseeds.py [id...]"""
import sys, os, subprocess, json, shutil, hashlib, base64, tempfile, importlib.util, glob, re
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded")
kit = os.path.join(here, "seedkit")
seeds = []
for f in sorted(glob.glob(os.path.join(here, "seeds*.py"))):
    spec = importlib.util.spec_from_file_location("m", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    seeds += m.S
want = sys.argv[1:]
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
def original(path, line):
    r = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", f"{line},{line}", path], capture_output=True, text=True).stdout
    return r.startswith("^")
accept19 = base64.b64encode(hashlib.sha1(b"0123456789abcdef012" + b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11").digest()).decode()
for s in seeds:
    if want and s["id"] not in want: continue
    w = tempfile.mkdtemp(prefix="mkseed.")
    try:
        subprocess.run(f"git -C /repo archive HEAD include | tar -x -C {w} && cd {w} && git init -q && git add -A && git -c user.name=a -c user.email=a@a commit -qm a", shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f); t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
        # at least one hunk changes original lines, or inserts between two of them
        ok = False; cur = None
        for l in subprocess.run(["git", "-C", w, "diff", "-U0"], capture_output=True).stdout.decode(errors="replace").split("\n"):
            if l.startswith("--- a/"): cur = l[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                at, n = int(m[1]), int(m[2] or 1)
                old = [original(cur, x) for x in (range(at, at + n) if n else (at, at + 1))]
                ok |= any(old) if n else all(old)
        d = os.path.join(out, s["id"])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        shutil.copytree(os.path.join(kit, "net"), os.path.join(d, "net"))
        shutil.copy(os.path.join(kit, "kit.hpp"), d)
        os.makedirs(os.path.join(d, "root"))
        open(os.path.join(d, "root", "one.txt"), "w").write("the first file")
        open(os.path.join(d, "root", "two.txt"), "w").write("the second file")
        sh = open(os.path.join(kit, "demo.sh")).read().replace("@FLAGS@ ", s["flags"] + " " if s["flags"] else "")
        open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        g = s["globals"].replace("@ACCEPT19@", accept19)
        open(os.path.join(d, "demo.cpp"), "w").write(f'#include "kit.hpp"\n{g}\nint main() {{{s["demo"]}}}\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"], "" if ok else "*** NO ORIGINAL LINE CHANGED")
    finally:
        shutil.rmtree(w)
