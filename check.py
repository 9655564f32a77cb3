#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo by symbolic execution of its current source (see DESIGN.md).

Exit 0: every assertion was shown for every input within the bounds.  Exit 1 + VIOLATION line: a counterexample that the
native build of the same code reproduces.  Any other exit: the check could not give an answer."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VS_REPO", "/repo"); W = os.environ.get("VS_OUT", V)   # where out/ and evidence/ go
B = os.path.join(V, "build"); JOBS = int(os.environ.get("VS_JOBS", "8"))
CL = "clang++"; GX = "g++"
BC = ["-std=gnu++20", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-delete-null-pointer-checks", "-fwrapv", "-fno-strict-aliasing",
      "-fno-finite-loops", "-fno-threadsafe-statics", "-w", "-emit-llvm", "-c"]
NATIVE = ["-std=gnu++20", "-O0", "-g1", "-w", "-rdynamic", "-fsanitize=address,bounds,return,unreachable,null,vptr", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"]

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def die(msg, code=2): print("ERROR:", msg); sys.exit(code)

def newer(target, *src): return os.path.exists(target) and all(os.path.getmtime(target) >= os.path.getmtime(s) for s in src)

def setup():
    """build the engine and the run-time model (idempotent)"""
    os.makedirs(B, exist_ok=True); E = os.path.join(V, "engine"); vsx = os.path.join(B, "vsx"); jobs = []
    src = [os.path.join(E, f) for f in ("vsx.cpp", "vsx_exec.inc", "expr.h")]
    if not newer(vsx, *src):
        cf = [x for x in subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split() if not x.startswith(("-std", "-O"))]
        lf = subprocess.check_output(["llvm-config-18", "--ldflags"], text=True).split()
        jobs.append((["g++", "-O2", "-std=c++17", "-w"] + cf + [src[0], "-o", vsx + ".tmp"] + lf + ["-lLLVM-18", "-lz3"], vsx))
    m = os.path.join(E, "stdmodel.cpp"); mb = os.path.join(B, "stdmodel.bc")
    if not newer(mb, m): jobs.append(([CL] + BC + ["-fno-access-control", "-fno-builtin", m, "-o", mb + ".tmp"], mb))
    n = os.path.join(E, "vs_native.cpp"); no = os.path.join(B, "vs_native.o")
    if not newer(no, n): jobs.append(([GX] + [f for f in NATIVE if f != "-rdynamic"] + ["-O1", "-c", n, "-o", no + ".tmp"], no))
    with ThreadPoolExecutor(4) as ex:
        for (cmd, out), r in zip(jobs, ex.map(lambda j: sh(j[0]), jobs)):
            if r.returncode: die("build of %s failed:\n%s" % (out, r.stdout[-3000:]))
            os.replace(out + ".tmp", out)

def meta(src, tier):
    t = open(src).read(); m = {"params": {}, "bounds": [], "outside": [], "stubs": [], "flags": [], "encodes": [], "max_instr": "400000000", "entries": [], "timeout": "700" if tier == "quick" else "6000", "rlimit": "20000000"}
    for k, v in re.findall(r"^//@[ \t]*(\w+)[ \t]*(.*)$", t, re.M):
        if k in ("quick", "thorough"):
            if k == "quick" or tier == "thorough": m["params"].update(dict(x.split("=") for x in v.split() if "=" in x))
        elif k in ("bounds", "outside", "stubs", "flags", "encodes"): m[k].append(v.strip())
        elif k in m: m[k] = v.strip()
    m["reach"] = sorted(set(re.findall(r'vs_reach\("([^"]+)"\)', t))); m["entries"] = re.findall(r"^TEST\((\w+)\)", t, re.M)
    return m

class Native:
    def __init__(self, exe, params): self.exe, self.params = exe, params
    def run(self, entry, inputs, fill=None, timeout=20, path=None):
        p = path or tempfile.mktemp(dir=os.path.dirname(self.exe), suffix=".in")
        with open(p, "w") as f: f.writelines("%s %d %s\n" % (n, b, v) for n, b, v in inputs)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=70:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0", UBSAN_OPTIONS="exitcode=71", VS_PARAMS=",".join("%s=%s" % x for x in self.params.items()))
        if fill is not None: env["VS_FILL"] = str(fill)
        try:
            r = subprocess.run([self.exe, "t_" + entry if not entry.startswith("t_") else entry, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=os.path.dirname(self.exe))
            return r.returncode, r.stdout[-200000:].decode("latin1")
        except subprocess.TimeoutExpired: return "hang", ""
        finally:
            if not path: os.unlink(p)

def main():
    if len(sys.argv) < 2: die("usage: check.py <property>|--setup")
    setup()
    if sys.argv[1] == "--setup": return 0
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    if tier not in ("quick", "thorough"): tier = "quick"
    out = os.path.join(W, "out", pid); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    srcs = sorted(glob.glob(os.path.join(V, "harness", pid + "*.cpp"))) or die("no harness for " + pid)
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf): known = [k for k in json.load(open(kf))["known"] if k["property"] == pid]
    agg = {"paths": 0, "forks": 0, "queries": 0, "cached": 0, "sat": 0, "unsat": 0, "unknown": 0, "external": 0, "second": 0, "asserts": 0, "asserts_symbolic": 0, "instructions": 0, "error_paths": 0, "infeasible": 0, "solver_s": 0.0}
    fns, lines, checks, notes, bounds, outside, stubs, samples, viol, problems, kn, entries_info = set(), set(), {}, set(), [], [], [], [], [], [], [], {}; validated = 0; mism = []

    for src in srcs:
        m = meta(src, tier); base = os.path.splitext(os.path.basename(src))[0]; wd = os.path.join(out, base); os.makedirs(wd)
        fns |= set(m["encodes"]); bounds += m["bounds"]; outside += m["outside"]; stubs += m["stubs"]
        bc = os.path.join(wd, "h.bc"); exe = os.path.join(wd, "native"); inc = ["-I" + REPO + "/include", "-I" + os.path.join(V, "harness"), "-DVS_REPO_DIR=\"%s\"" % REPO] + " ".join(m["flags"]).replace("@REPO@", REPO).replace("\\\"", "\"").split()
        natf = subprocess.Popen([GX] + NATIVE + inc + ["-DVS_NATIVE", src, os.path.join(B, "vs_native.o"), "-o", exe, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        r = sh([CL] + BC + inc + [src, "-o", bc])
        if r.returncode: natf.kill(); die("harness %s does not compile against the current tree:\n%s" % (base, r.stdout[-4000:]))
        cmd = [os.path.join(B, "vsx"), "--jobs", str(JOBS), "--out", wd, "--timeout", m["timeout"], "--max-instr", m["max_instr"], "--rlimit", m["rlimit"], "--repo", REPO + "/"]
        for k, v in m["params"].items(): cmd += ["-D", "%s=%s" % (k, v)]
        r = sh(cmd + [bc, os.path.join(B, "stdmodel.bc")]); no, _ = natf.communicate()
        if natf.returncode: die("native build of %s failed:\n%s" % (base, no[-4000:]))
        if r.returncode: problems.append("engine failed on %s: %s" % (base, r.stdout[-1500:]))
        nat = Native(exe, m["params"]); reached = set(); per = {}
        for jf in sorted(glob.glob(os.path.join(wd, "t_*.json"))):
            j = json.load(open(jf)); e = per.setdefault(j["entry"], {"paths": 0, "tests": [], "viol": {}, "err": 0, "s": 0.0})
            for k in agg: agg[k] += j.get(k, 0)
            e["paths"] += j["paths"]; e["tests"] += j["tests"]; e["err"] += j["error_paths"]; e["s"] = max(e["s"], j["wall_s"]); reached |= set(j["reached"]); fns |= set(j["functions"]); lines |= set(j["lines"])
            for k, v in j["checks"].items(): c = checks.setdefault(k, [0, 0]); c[0] += v[0]; c[1] += v[1]
            for v in j["violations"]: e["viol"].setdefault((v["kind"], v["msg"]), []).append(v)
            notes |= set(j["notes"]); problems += ["not modelled: " + u for u in j["unsupported"]]
            if j["incomplete"] and not j["unsupported"]: problems.append("%s: exploration incomplete (%s)" % (j["entry"], "; ".join(j["notes"]) or "?"))
        for en in m["entries"]:
            e = per.get("t_" + en)
            if not e: problems.append("no result for entry " + en)
            elif e["paths"] == 0 and not e["viol"]: problems.append("entry %s has no completed path" % en)
            if e: entries_info[en] = {"paths": e["paths"], "seconds": round(e["s"], 2)}
        # counterexamples: replay natively
        jobs = []
        for en, e in per.items():
            for (kind, msg), vs in e["viol"].items():
                for v in vs[:4]: jobs.append((en, kind, msg, v))
        def confirm(a, nat=nat):
            i, (en, kind, msg, v) = a; p = os.path.join(wd, "cex%d.in" % i)
            for fill in (None, 0xA5, 0, 0xFF, 1):
                rc, o = nat.run(en, v["inputs"], fill, path=p, timeout=30)
                if rc == "hang" or rc not in (0, 77, 67, 98, 99): return (rc, o, p, fill)
            return (0, o, p, None)
        done = set(); unconf = []
        with ThreadPoolExecutor(JOBS) as ex: res = list(ex.map(confirm, enumerate(jobs)))
        # a counterexample that rests on an uninitialised local may need another initial content than the usual pattern
        bad = [i for i, r in enumerate(res) if r[0] == 0]
        if bad:
            exe0 = exe + "0"; r0 = sh([GX] + [f.replace("=pattern", "=zero") for f in NATIVE] + inc + ["-DVS_NATIVE", src, os.path.join(B, "vs_native.o"), "-o", exe0, "-ldl"])
            if r0.returncode == 0:
                with ThreadPoolExecutor(JOBS) as ex:
                    for i, r in zip(bad, ex.map(lambda i: confirm((i, jobs[i]), Native(exe0, m["params"])), bad)):
                        if r[0] != 0: res[i] = r + (exe0,)
        for (en, kind, msg, v), (rc, o, p, fill, *ex0) in zip(jobs, res):
            if (en, kind, msg) in done: continue
            if rc == 0: unconf.append((en, kind, msg, v)); continue
            done.add((en, kind, msg)); k = next((k for k in known if k["entry"] == en[2:] and k["message"] == msg), None)
            sc = os.path.splitext(p)[0] + ".sh"
            with open(sc, "w") as f:
                f.write("#!/bin/sh\n# %s: %s\n# %s\n# inputs: %s\ncd %s && %sASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1 VS_PARAMS=%s timeout 60 ./%s %s %s\n" % (kind, msg, v["where"], v["inputs"], wd, "" if fill is None else "VS_FILL=%d " % fill, ",".join("%s=%s" % x for x in m["params"].items()), "native0" if ex0 else "native", en, p))
            os.chmod(sc, 0o755)
            d = {"entry": en, "kind": kind, "message": msg, "where": v["where"], "inputs": v["inputs"], "native": str(rc), "output": "\n".join(x for x in o.splitlines() if x.strip())[-600:], "replay": sc}
            (kn if k else viol).append(d)
        for en, kind, msg, v in unconf:
            if (en, kind, msg) not in done: problems.append("counterexample not reproduced natively: %s: %s: %s @ %s inputs %s" % (en, kind, msg, v["where"], v["inputs"])); done.add((en, kind, msg))
        # completed paths: the native run on the path's own inputs must agree
        sel = []
        for en, e in per.items(): sel += [(en, t) for t in e["tests"][:: max(1, len(e["tests"]) // (25 if tier == "quick" else 80))]]
        def agree(a):
            en, t = a; rc, o = nat.run(en, t["inputs"]); ob = re.findall(r"^VS-OBS (\d+)", o, re.M); end = re.findall(r"VS-END (\w+)", o)
            ok = rc == 0 and end == [t["end"]] and len(ob) == len(t["obs"]) and all(x is None or x == y for x, y in zip(t["obs"], ob))
            return ok, rc, o, ob
        with ThreadPoolExecutor(JOBS) as ex:
            for (en, t), (ok, rc, o, ob) in zip(sel, ex.map(agree, sel)):
                if ok: validated += 1
                else: mism.append("%s inputs %s: engine end=%s obs=%s, native rc=%s obs=%s %s" % (en, t["inputs"], t["end"], t["obs"], rc, ob, o[-300:]))
                if ok and len(samples) < 6 and len([s for s in samples if s["entry"] == en]) < 2: samples.append({"entry": en, "inputs": ["%s:%s=%s" % (a, b, c) for a, b, c in t["inputs"]][:40], "end": t["end"], "observed": t["obs"][:20]})
        miss = [x for x in m["reach"] if x not in reached]
        if miss and not viol and not kn: problems.append("%s: never reached: %s" % (base, ", ".join(miss)))
        os.remove(bc)
        if not viol and not kn and not problems and not mism: shutil.rmtree(wd)
    if mism: problems += ["engine and native run disagree: " + x for x in mism[:5]]
    if not samples: samples = [{"entry": v["entry"], "counterexample": v["inputs"], "message": v["message"]} for v in (viol + kn)[:3]] or ["none"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {"states": agg["paths"] + agg["forks"] + agg["error_paths"], "transitions": agg["instructions"], "traces_validated_against_impl": validated, "samples": samples,
                       "paths_completed": agg["paths"], "assertions_decided": agg["asserts"], "assertions_decided_with_symbolic_condition": agg["asserts_symbolic"],
                       "queries": {"sent": agg["queries"], "answered_from_cache": agg["cached"], "sat": agg["sat"], "unsat": agg["unsat"], "unknown": agg["unknown"], "decided_by_the_second_engine": agg["second"], "sent_to_an_external_solver": agg["external"]},
                       "solver_seconds": round(agg["solver_s"], 2), "functions_encoded": sorted({f if len(f) <= 240 else f[:240] + "..." for f in fns})[:500], "functions_encoded_number": len(fns), "repo_lines_encoded": len(lines), "entries": entries_info, "assertions": {k: v[0] for k, v in sorted(checks.items())}, "bounds": bounds, "outside_the_claim": outside, "parameters": m["params"], "complete_within_bounds": not problems, "problems": problems[:20], "known_findings_seen": [d["message"] for d in kn]},
          "assumptions": ["Within the stated bounds only.", "clang 18's IR of the source (unoptimised, plus scalar promotion) stands for the code; libstdc++ 13 templates are executed, its compiled parts, the exception run-time and the allocator are modelled in engine/stdmodel.cpp.", "Allocations above 917504 bytes fail with bad_alloc; others succeed unless the harness injects a failure."] + stubs}
    os.makedirs(os.path.join(W, "evidence"), exist_ok=True)
    with open(os.path.join(W, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    if os.environ.get("VS_LINES"): open(os.path.join(os.environ["VS_LINES"], pid), "w").write("\n".join(sorted(lines)))
    print("%s %s: %d paths, %d assertions (%d symbolic), %d queries, %.1fs solver, %d traces validated, %d repo functions, %.1fs" % (pid, tier, agg["paths"], agg["asserts"], agg["asserts_symbolic"], agg["queries"], agg["solver_s"], validated, len(fns), time.time() - t0))
    for d in kn: print("KNOWN-FINDING: property=%s %s: %s" % (pid, d["entry"], d["message"]))
    for k in known:
        if not any(d["message"] == k["message"] and d["entry"][2:] == k["entry"] for d in kn) and not problems: print("note: listed finding no longer seen: %s %s" % (k["entry"], k["message"]))
    for d in viol:
        print("VIOLATION property=%s replay=%s" % (pid, d["replay"])); print("  %s: %s: %s\n  at %s\n  inputs %s\n  native: %s %s" % (d["entry"], d["kind"], d["message"], d["where"][:400], d["inputs"][:30], d["native"], d["output"][-300:]))
    if viol: return 1
    if problems:
        for p in problems[:12]: print("ERROR:", p[:1500])
        return 2
    return 0
if __name__ == "__main__": sys.exit(main())
