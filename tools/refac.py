#!/usr/bin/env python3
"""Run the quick checks on edits of /repo that keep its behaviour (refactorings/*.diff): every check has to stay quiet.
usage: refac.py [id ...]          refac.py --add DEFS.py [id ...]   (make the diffs from lists of replacements, as in plant.py)"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = V + "/refactorings"
sys.path.insert(0, V + "/tools"); import plant as P

def scratch(d, i):
    r = d + "/" + i; P.sh(f"cp -a /repo {r}; cd {r} && git checkout -q -- . && git clean -qfdx -e _build"); return r

def add(defs, only, d):
    g = {}; exec(open(defs).read(), g); props = json.load(open(D + "/props.json")) if os.path.exists(D + "/props.json") else {}
    for (i, ps, edits) in g["REF"]:
        if only and i not in only: continue
        r = scratch(d, i); bad = ""
        for f, a, b in edits:
            t = open(f"{r}/{f}", newline="").read()
            if "\r\n" in t: a = a.replace("\n", "\r\n"); b = b.replace("\n", "\r\n")
            if t.count(a) != 1: bad += f"{t.count(a)} occurrences of {a[:120]!r} in {f}\n"; continue
            open(f"{r}/{f}", "w", newline="").write(t.replace(a, b))
        if bad: print(i, "BAD", bad); continue
        ok, o = P.builds(r)
        if not ok: print(i, "BUILD", o[-1500:]); continue
        P.sh(f"rm -rf {r}/_b; cd {r} && git diff > {D}/{i}.diff"); props[i] = ps; shutil.rmtree(r); print(i, "made", flush=True)
    json.dump(props, open(D + "/props.json", "w"), indent=1, sort_keys=True)

def run(only, d):
    props = json.load(open(D + "/props.json")); bad = 0
    for i, ps in sorted(props.items()):
        if only and i not in only: continue
        r = scratch(d, i); rc, o = P.sh(f"cd {r} && git apply {D}/{i}.diff")
        if rc: print(i, "DOES NOT APPLY", o); bad += 1; continue
        for p in ps:
            t0 = time.time(); rc, o = P.sh(f"VS_REPO={r} VS_OUT={d}/w VERIF_TIER=quick VERIF_SEED=1 python3 check.py {p}", V, 900)
            q = rc == 0 and "VIOLATION" not in o; bad += not q
            print(i, p, "quiet" if q else "ALARM rc=%d %s" % (rc, o[-1800:]), round(time.time() - t0), flush=True)
        shutil.rmtree(r)
    print("all quiet" if not bad else "%d alarms" % bad); return bad

d = tempfile.mkdtemp(prefix="refac")
try:
    if sys.argv[1:2] == ["--add"]: add(sys.argv[2], sys.argv[3:], d)
    else: sys.exit(1 if run(sys.argv[1:], d) else 0)
finally: shutil.rmtree(d)
