#!/usr/bin/env python3
"""Driver: check.py <property> [--tier quick|thorough]

Compiles /repo's current sources and the property's harness to LLVM bitcode,
decides every case with the symbolic executor (engine/), replays any
counterexample against a native build of the same sources, writes
evidence/<id>.json, and exits 0 (held), 1 (violation) or 2 (no answer).
"""
import sys, os, json, subprocess, time, shutil, hashlib, re, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(HERE, ".work")
CLANGXX, CLANG = "/usr/bin/clang++", "/usr/bin/clang"
LL = "/usr/lib/llvm-18/bin/"
sys.path.insert(0, HERE)
import specs, gen_ri, slc

BCFLAGS = ["-std=gnu++17", "-O1", "-g1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-threadsafe-statics",
           "-fno-unroll-loops", "-DNDEBUG", "-w", "-fno-pie", "-fno-pic", "-emit-llvm", "-c"]
NATFLAGS = ["-std=gnu++17", "-O1", "-g1", "-ffp-contract=off", "-DNDEBUG", "-w", "-c", "-fsanitize=address,integer-divide-by-zero,bounds",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def die(msg, code=2):
    print(msg); sys.exit(code)

def ensure_engine():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in sorted(os.listdir(os.path.join(HERE, "engine"))): h.update(open(os.path.join(HERE, "engine", f), "rb").read())
        for f in sorted(os.listdir(os.path.join(HERE, "rt"))): h.update(open(os.path.join(HERE, "rt", f), "rb").read())
        stamp = os.path.join(WORK, "engine.stamp")
        if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(os.path.join(WORK, "vsym")): return
        jobs = [
            ["bash", os.path.join(HERE, "engine", "build.sh"), WORK],
            [CLANGXX, "-std=gnu++17", "-O1", "-fno-builtin", "-fno-access-control", "-fno-vectorize", "-fno-slp-vectorize", "-fno-threadsafe-statics", "-w", "-emit-llvm", "-c", os.path.join(HERE, "rt", "rt.cpp"), "-o", os.path.join(WORK, "rt.bc")],
            [CLANG, "-O1", "-fno-builtin", "-w", "-emit-llvm", "-c", os.path.join(HERE, "rt", "rt_c.c"), "-o", os.path.join(WORK, "rt_c.bc")]]
        with ThreadPoolExecutor(3) as ex:
            for r, j in zip(ex.map(sh, jobs), jobs):
                if r.returncode: die("engine build failed: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
        open(stamp, "w").write(h.hexdigest())

def gen_headers(d):
    inc = os.path.join(d, "geninc", "aqsis"); os.makedirs(inc, exist_ok=True)
    for n in ("config", "version"):
        p = os.path.join(REPO, "include/aqsis/%s.h.in.cmake" % n)
        t = open(p, errors="replace").read()
        t = re.sub(r"#cmakedefine\s+(\w+)", r"#define \1", t)
        t = t.replace("${AQSIS_SYSTEM_TYPE}", "POSIX")
        for k, v in (("VERSION_MAJOR", "1"), ("VERSION_MINOR", "8"), ("VERSION_BUILD", "4"), ("BUILDTYPE", ""), ("SCM_REVISION", "0")): t = t.replace("${%s}" % k, v)
        open(os.path.join(inc, n + ".h"), "w").write(t)
    try: open(os.path.join(d, "geninc", "ri_calls.inc"), "w").write(gen_ri.generate(os.path.join(REPO, "include/aqsis/riutil/ricxx.h"))); open(os.path.join(d, "geninc", "ri_capi.inc"), "w").write(gen_ri.gen_capi(os.path.join(REPO, "include/aqsis/riutil/ricxx.h"))); open(os.path.join(d, "geninc", "ri_rules.inc"), "w").write(gen_ri.gen_rules(os.path.join(REPO, "include/aqsis/riutil/ricxx.h"), os.path.join(HERE, "harness/ri_rules.json")))
    except Exception: pass
    return os.path.dirname(inc)

def incflags(spec, gen):
    inc = ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness")]
    for i in spec.get("inc", []): inc.append("-I" + (i if i.startswith("/") else os.path.join(REPO, i)))
    return inc + ["-D" + x for x in spec.get("defs", [])] + spec.get("flags", [])

def compile_all(spec, d, native):
    gen = gen_headers(d)
    if spec.get("shaders"):
        err = slc.shaders(REPO, HERE, gen, incflags(spec, gen), CLANGXX)
        if err: return None, err
    fl = incflags(spec, gen)
    jobs = []
    ext = ".o" if native else ".bc"
    base = NATFLAGS if native else BCFLAGS
    if not native and spec.get("opt"): base = [("-" + spec["opt"]) if x == "-O1" else x for x in base]
    srcs = [os.path.join(REPO, s) if not s.startswith("/") else s for s in spec.get("sources", [])] + [os.path.join(HERE, "harness", spec["harness"])]
    for h in spec.get("extra", []): srcs.append(os.path.join(HERE, "harness", h))
    if native: srcs.append(os.path.join(HERE, "harness", "replay.cpp"))
    for i, s in enumerate(srcs):
        o = os.path.join(d, "%d_%s%s" % (i, os.path.basename(s).replace(".", "_"), ext))
        ef = spec.get("hflags", []) if s.startswith(HERE) else spec.get("srcflags", [])
        sf = spec.get("perfile", {}).get(os.path.basename(s), [])
        jobs.append(([CLANGXX] + base + fl + ef + sf + [s, "-o", o], o))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: sh(j[0]), jobs))
    for r, j in zip(rs, jobs):
        if r.returncode: return None, "compile failed: %s\n%s" % (" ".join(j[0]), r.stdout[-4000:])
    return [j[1] for j in jobs], ""

def link_bc(objs, d):
    out = os.path.join(d, "all.bc")
    # harness definitions of stubs win over nothing; real sources never clash with rt
    r = sh([LL + "llvm-link"] + objs + [os.path.join(WORK, "rt.bc"), os.path.join(WORK, "rt_c.bc"), "-o", out + ".0"])
    if r.returncode: return None, r.stdout
    r = sh([LL + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=harness", out + ".0", "-o", out])
    if r.returncode: return None, r.stdout
    return out, ""

def run_case(args):
    spec, case, tier, bc, d, tlimit = args
    name = case.get("name", str(case["id"]))
    outp = os.path.join(d, "out_%s.json" % name)
    cmd = [os.path.join(WORK, "vsym"), bc, "--out=" + outp, "--case=%d" % case["id"], "--tier=%d" % (0 if tier == "quick" else 1), "--time=%g" % tlimit]
    if case.get("fp", spec.get("fp")) == "real": cmd.append("--fp=real")
    for o in spec.get("opts", []) + case.get("opts", []): cmd.append(o)
    t = time.time()
    try: r = sh(cmd, timeout=tlimit + 90)
    except subprocess.TimeoutExpired: return case, None, "engine timeout", time.time() - t
    try: j = json.load(open(outp))
    except Exception as e: return case, None, "engine died rc=%d: %s" % (r.returncode, r.stdout[-1500:]), time.time() - t
    j["log"] = r.stdout[-500:]
    return case, j, "", time.time() - t

def ok_native(exe, env, path):
    """does the native build of this case survive an empty (all zero) input?"""
    p = path + ".zero"; open(p, "w").close()
    try: r = sh([exe, p], env=env, timeout=60)
    except subprocess.TimeoutExpired: return False
    finally: os.unlink(p)
    return r.returncode in (0, 1, 3)

def replay(spec, exe, case, tier, viol, path):
    with open(path, "w") as f:
        f.write("# property=%s harness=%s case=%d kind=%s\n# %s\n# at %s\n" % (spec["id"], spec["harness"], case["id"], viol["kind"], viol["msg"], viol["where"]))
        for n, sz, hx in viol["inputs"]: f.write("%s %d %s\n" % (re.sub(r"\s", "_", n), sz, hx))
    env = dict(os.environ, VS_CASE=str(case["id"]), VS_TIER="0" if tier == "quick" else "1",
               ASAN_OPTIONS="exitcode=77:detect_leaks=0:malloc_fill_byte=165:max_malloc_fill_size=1000000000:allocator_may_return_null=0", UBSAN_OPTIONS="exitcode=77")
    try: r = sh([exe, path], env=env, timeout=60)
    except subprocess.TimeoutExpired: return ("limit" == viol["kind"]), "native run does not terminate within 60 s"
    last = r.stdout[-1500:]
    if r.returncode == 1 and "REPLAY-VIOLATION" in r.stdout: return True, [l for l in r.stdout.splitlines() if "REPLAY-VIOLATION" in l][-1]
    if r.returncode == 77 or r.returncode < 0 or "AddressSanitizer" in r.stdout or "terminate called" in r.stdout or "runtime error" in r.stdout:
        # a crash confirms a memory or trap violation; for a failed assertion it must not be the native build itself that is broken
        if viol["kind"] != "assert" or ok_native(exe, env, path): return True, last
        return False, "native build does not run this case: " + last
    return False, "rc=%d %s" % (r.returncode, last)

def load_known():
    k = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) match=(\S+) (.*)", l.strip())
            if m: k.append({"property": m.group(1), "case": m.group(2), "match": m.group(3), "text": m.group(4)})
    return k

def main():
    if len(sys.argv) < 2: die("usage: check.py <property> [--tier quick|thorough] [--case NAME] [-v]")
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
    verbose = "-v" in sys.argv
    t0 = time.time()
    ensure_engine()
    parts = specs.PROPS[pid]["parts"]
    budget = 780 if tier == "quick" else 6 * 3600
    ev = {"property": pid, "tier": tier, "functions": set(), "cases": [], "queries": 0, "asserts": 0, "paths": 0, "solver_s": 0.0, "assumptions": set(), "insts": 0, "unsat": 0, "sat": 0, "unknown": 0, "aq": 0}
    viols, incompl, knownhits = [], [], []
    known = [k for k in load_known() if k["property"] == pid]
    root = tempfile.mkdtemp(prefix="vs_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    try:
        jobs = []
        builds = {}
        def build(pi):
            part = parts[pi]
            d = os.path.join(root, "p%d" % pi); os.makedirs(d)
            objs, err = compile_all(part, d, False)
            if objs is None: return pi, None, err
            bc, err = link_bc(objs, d)
            return pi, bc, err
        with ThreadPoolExecutor(4) as ex:
            for pi, bc, err in ex.map(build, range(len(parts))):
                part = parts[pi]; part["id"] = pid
                if bc is None: incompl.append("%s: %s" % (part["harness"], err)); continue
                builds[pi] = bc
                for c in part["cases"]:
                    if tier == "quick" and c.get("thorough"): continue
                    if tier != "quick" and c.get("quickonly"): continue
                    if only and c.get("name", str(c["id"])) != only: continue
                    jobs.append((part, c, tier, bc, os.path.join(root, "p%d" % pi), c.get("time", 0) or (budget - (time.time() - t0))))
        jobs.sort(key=lambda j: -j[1].get("weight", 1))
        def go(j):
            part, c, tr, bc, d, tl = j
            tl = min(tl, budget - (time.time() - t0))
            if tl < 5: return c, None, "no time left", 0
            return run_case((part, c, tr, bc, d, tl))
        exes = {}
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            for (part, c, *_rest), (case, j, err, dt) in zip(jobs, ex.map(go, jobs)):
                nm = "%s/%s" % (part["harness"].replace(".cpp", ""), c.get("name", str(c["id"])))
                if j is None: incompl.append("%s: %s" % (nm, err)); continue
                st = j["stats"]
                ev["functions"].update(j["functions"]); ev["queries"] += st["queries"]; ev["asserts"] += st["asserts"]; ev["paths"] += st["paths"]; ev["solver_s"] += st["solver_s"]
                ev["insts"] += st["insts"]; ev["unsat"] += st["unsat"]; ev["sat"] += st["sat"]; ev["unknown"] += st["unknown"]; ev["aq"] += st["assert_queries"]
                ev["assumptions"].update(j["assumptions"])
                ev["cases"].append({"case": nm, "bounds": c.get("bounds", part.get("bounds", "")), "status": j["status"], "paths": st["paths"], "assumed_away": st["paths_assumed_away"], "queries": st["queries"], "solver_s": st["solver_s"], "wall_s": round(dt, 2), "reach": j["reach"], "asserts": j["asserts"], "sample": j["sample"], "fp": c.get("fp", part.get("fp", "ieee"))})
                if verbose: print("%-40s %-10s paths=%d q=%d solver=%.1f wall=%.1f reach=%s %s" % (nm, j["status"], st["paths"], st["queries"], st["solver_s"], dt, j["reach"], j["incomplete"]))
                if j["status"] == "violation":
                    for v in j["violations"]: viols.append((part, c, v))
                elif j["status"] == "incomplete": incompl.append("%s: %s" % (nm, j["incomplete"]))
                else:
                    for lab in c.get("reach", part.get("reach", [])):
                        if not j["reach"].get(lab): incompl.append("%s: vacuous, label '%s' never reached" % (nm, lab))
                    if not st["asserts"] and not c.get("noassert"): incompl.append("%s: vacuous, no assertion reached" % nm)
        confirmed, unrep = [], []
        rdir = os.path.join(HERE, ".replays"); 
        for part, c, v in viols:
            pi = parts.index(part)
            if pi not in exes:
                d = os.path.join(root, "n%d" % pi); os.makedirs(d)
                objs, err = compile_all(part, d, True)
                exe = os.path.join(d, "replay")
                if objs is not None:
                    r = sh([CLANGXX, "-fsanitize=address,undefined", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-o", exe] + objs + part.get("libs", []) + ["-lboost_filesystem", "-lboost_system", "-lz"])
                    if r.returncode: objs, err = None, r.stdout
                exes[pi] = exe if objs is not None else None
                if objs is None: incompl.append("native build for replay failed: " + err[-2500:])
            if not exes[pi]: unrep.append((c, v, "no native build")); continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s_%s_%s.txt" % (pid, part["harness"].replace(".cpp", ""), c.get("name", str(c["id"]))))
            ok, how = replay(part, exes[pi], c, tier, v, path)
            if verbose: print("REPLAY", ok, how[-800:])
            if ok:
                kf = [k for k in known if k["case"] in (c.get("name", str(c["id"])), "*") and re.search(k["match"], v["msg"].replace(" ", "_"))]
                if kf: knownhits.append((kf[0], v))
                else: confirmed.append((part, c, v, path, how))
            else: unrep.append((c, v, how))
        for k in known:
            hit = [v for kk, v in knownhits if kk is k]
            if hit: print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
        for part, c, v, path, how in confirmed:
            print("counterexample: %s: %s" % (v["kind"], v["msg"]))
            print("  at %s" % v["where"][:600])
            print("  inputs: %s" % " ".join("%s=%s" % (n, h) for n, _, h in v["inputs"])[:800])
            print("  native replay: %s" % how.strip()[-600:])
        for c, v, how in unrep:
            incompl.append("solver counterexample not reproduced natively (%s; case %s; at %s; inputs %s): %s" % (v["msg"], c.get("name", c["id"]), v["where"][:300], " ".join("%s=%s" % (n, h) for n, _, h in v["inputs"])[:300], how[-300:]))
        res = "violation" if confirmed else "inconclusive" if incompl else "held"
        meta = specs.PROPS[pid]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        write_evidence(pid, tier, meta, ev, res, incompl, confirmed, time.time() - t0, knownhits)
        for m in incompl: print("INCONCLUSIVE: " + m[:3000])
        for part, c, v, path, how in confirmed:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%s %s: %s; %d cases, %d paths, %d assertions, %d solver queries (%d unsat), solver %.1fs, wall %.1fs" % (pid, tier, res, len(ev["cases"]), ev["paths"], ev["asserts"], ev["queries"], ev["unsat"], ev["solver_s"], time.time() - t0))
        sys.exit({"held": 0, "violation": 1, "inconclusive": 2}[res])
    finally:
        if "--keep" in sys.argv: print("kept", root)
        else: shutil.rmtree(root, ignore_errors=True)

def write_evidence(pid, tier, meta, ev, res, incompl, confirmed, wall, knownhits):
    fns = sorted(re.sub(r" \[/.*?/(libs|include|tools|prototypes|renderer)/", r" [\1/", f) for f in ev["functions"])
    out = specs.evidence(pid, tier, meta, ev, res, incompl, confirmed, wall, knownhits, fns)
    json.dump(out, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)

if __name__ == "__main__":
    if sys.argv[1:2] == ["--setup"]:
        ensure_engine(); print("engine ready"); sys.exit(0)
    main()
