#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo and tells which checks catch them.
usage: plant.py make DEFS.py   build /verif/seeded/<id>/ from definitions, keeping the ones that are confirmed
       plant.py confirm [ID..] confirm existing ones        plant.py catch [ID..] run the property's check against each (in /repo, undone afterwards)"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = "/verif"; S = V + "/seeded"
def sh(c, cwd=None, t=600):
    try: r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode(errors="replace")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def scratch():
    d = tempfile.mkdtemp(prefix="plant"); r = d + "/repo"; sh(f"cp -a /repo {r}"); return d, r
def builds(r):   # build and tests of a scratch copy, as build.sh and test.sh do it
    b = r + "/_b"; rc, o = sh(f". /opt/vp/env.sh; cmake -S {r} -B {b} -G Ninja -DCMAKE_BUILD_TYPE=Debug && ninja -C {b}", t=900)
    for h in "handle.hpp iterator.hpp range.hpp variant.hpp variant.inl.hpp writable.hpp".split():
        rc, o2 = sh(f"""printf '#include <cstdlib>\\n#include <iostream>\\n#include "{h}"\\nint main() {{ }}\\n' | g++ -std=gnu++20 -isystem {r}/include -fsyntax-only -x c++ -""")
        if rc: return False, o2
    rc, o = sh(f"ctest --test-dir {b} 2>&1 | tail -15")
    return "100% tests passed" in o, o
def confirm(i, r):
    d = f"{S}/{i}"; sh("git checkout -q -- . && git clean -qfdx -e _build", r)
    rc, o = sh(f"bash {d}/demo.sh", r, 300)
    if rc: return f"demo fails on the unchanged tree: {o[-800:]}"
    rc, o = sh(f"git apply {d}/patch.diff", r)
    if rc: return "patch does not apply: " + o
    ok, o = builds(r)
    if not ok: return "build or tests fail: " + o[-1500:]
    rc, o = sh(f"bash {d}/demo.sh", r, 300)
    if rc == 0: return "demo passes with the change"
    if rc == 2: return "demo does not build with the change: " + o[-1500:]
    return ""
DEMO = '''#!/bin/bash
# Exit 0: the property holds for this demonstration's input; 1: it does not; 2: the demonstration does not compile.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'cd / && rm -rf "$t"' EXIT
g++ -std=gnu++20 -O1 %s -I"$PWD/include" "$here/demo.cpp" %s -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo > out.txt 2> err.txt; rc=$?; [ $rc = 0 ] || { tail -3 err.txt; exit 1; }
'''
def make(defs):
    g = {}; exec(open(defs).read(), g); d, r = scratch(); only = sys.argv[3:]
    for s in g["SEEDS"]:
        i = s["id"]
        if only and i not in only: continue
        if not only and os.path.exists(f"{S}/{i}/meta.json"): continue
        sh("git checkout -q -- . && git clean -qfdx -e _build", r); bad = ""
        for f, a, b in s["edits"]:
            t = open(f"{r}/{f}", newline="").read(); crlf = "\r\n" in t
            if crlf: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
            if t.count(a) != 1: bad = f"{t.count(a)} occurrences of {a!r} in {f}"; break
            open(f"{r}/{f}", "w", newline="").write(t.replace(a, b))
        if bad: print(i, "BAD", bad); continue
        os.makedirs(f"{S}/{i}", exist_ok=True); rc, o = sh(f"git diff > {S}/{i}/patch.diff", r)
        open(f"{S}/{i}/demo.cpp", "w").write(g["PRE"] + s["demo"]); open(f"{S}/{i}/demo.sh", "w").write(DEMO % (s.get("flags", ""), s.get("src", "")))
        e = confirm(i, r)
        if e: print(i, "NOT CONFIRMED", e, flush=True); shutil.rmtree(f"{S}/{i}"); continue
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{S}/{i}/meta.json", "w"), indent=1); print(i, "ok", flush=True)
    shutil.rmtree(d)
def ids(): return sys.argv[2:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(S + "/*/meta.json"))
def catch():
    assert sh("git -C /repo status --porcelain -uno")[1] == "", "/repo is not clean"
    n = 0; missed = []
    for i in ids():
        p = json.load(open(f"{S}/{i}/meta.json"))["property"]; rc, o = sh(f"git -C /repo apply {S}/{i}/patch.diff")
        if rc: print(i, "patch does not apply"); continue
        try: rc, o = sh(f"VERIF_TIER=quick VERIF_SEED=1 python3 check.py {p}", V, 900)
        finally: sh("git -C /repo checkout -- .")
        c = rc == 1 and f"VIOLATION property={p}" in o; n += c
        if not c: missed.append(i)
        print(i, p, "caught" if c else f"MISSED rc={rc}", "" if c else o[-600:], next((l for l in o.splitlines() if "VIOLATION" in l), "")[:150], flush=True)
    print(n, "caught; missed:", missed)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2])
    elif sys.argv[1] == "confirm":
        d, r = scratch()
        for i in ids(): print(i, confirm(i, r) or "ok", flush=True)
        shutil.rmtree(d)
    else: catch()
