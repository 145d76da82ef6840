#!/usr/bin/env python3
"""Driver: builds /repo's current sources with the harness of one property, explores, writes evidence.

  run.py <ID> <quick|thorough>         decide a property
  run.py --replay <replay file>        re-run a recorded counterexample on the current tree
Exit 0 held, 1 violation (with a VIOLATION line), 2 error of the check itself.
"""
import sys, os, json, glob, subprocess, tempfile, shutil, time, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import spec
REPO = os.environ.get("VP_REPO", "/repo")
ALLOC = ["malloc", "calloc", "realloc", "reallocarray", "strdup", "__strdup", "strndup", "__strndup",
         "posix_memalign", "asprintf", "vasprintf"]
VARIANTS = {
    # library flags are the Makefile's, plus instrumentation
    "asan":  dict(cc="gcc", lib=["-Os", "-std=c99", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE"],
                  har=["-O1", "-std=gnu11", "-g", "-fsanitize=address", "-U_FORTIFY_SOURCE"], ld=["-fsanitize=address"]),
    "plain": dict(cc="gcc", lib=["-Os", "-std=c99", "-g"], har=["-O2", "-std=gnu11", "-g"], ld=[]),
    "O2":    dict(cc="gcc", lib=["-O2", "-std=c99", "-g"], har=["-O2", "-std=gnu11", "-g"], ld=[]),
    # memory accesses of the library become calls into our own scheduler (checks/sched_rt.c)
    "sched": dict(cc="gcc", lib=["-Os", "-std=c99", "-g", "-fsanitize=thread", "-fno-builtin"],
                  har=["-O1", "-std=gnu11", "-g"], ld=[]),
}

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout

def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH", "LD_PRELOAD", "C_INCLUDE_PATH"): e.pop(k, None)
    e["LC_ALL"] = "C"; e["TZ"] = "UTC"
    e["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=76:abort_on_error=0:allocator_may_return_null=1:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:hard_rss_limit_mb=3500:max_allocation_size_mb=2048:detect_stack_use_after_return=0:handle_abort=0:print_legend=0"
    return e

def build_lib(variant, d, only=None):
    v = VARIANTS[variant]
    od = os.path.join(d, "lib-" + variant); os.makedirs(od, exist_ok=True)
    srcs = sorted(glob.glob(REPO + "/src/*/*.c"))
    if not srcs: raise BuildError("no sources under %s/src" % REPO)
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(od, s[len(REPO)+5:].replace("/", "__")[:-2] + ".o")
        objs.append(o)
        jobs.append([v["cc"], *v["lib"], "-w", "-I", REPO + "/include", "-c", s, "-o", o])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex: list(ex.map(lambda c: sh(c, env=env(), cwd=REPO), jobs))
    a = os.path.join(od, "libulz.a")
    if os.path.exists(a): os.unlink(a)
    sh(["ar", "rcs", a, *objs])
    return a

def build_part(part, d):
    variant = part.get("variant", "asan"); v = VARIANTS[variant]
    name = os.path.splitext(os.path.basename(part["src"][0]))[0]
    objs = []; jobs = []
    wraps = [] if part.get("nowrap") else ALLOC + part.get("wraps", [])
    srcs = [V + "/checks/" + s for s in part["src"]] + [V + "/engine/engine.c", V + "/engine/wraps.c"]
    for i, s in enumerate(srcs):
        o = os.path.join(d, "%s-%s-%d.o" % (name, variant, i)); objs.append(o)
        jobs.append([v["cc"], *v["har"], *("-fno-builtin-" + f for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")), *part.get("cflags", []), "-w", "-I", V + "/engine", "-I", REPO + "/include", "-DREPO=\"" + REPO + "\"", "-c", s, "-o", o])
    for i, (m, fl) in enumerate(part.get("multi", [])):   # one object per configuration of an included source
        o = os.path.join(d, "%s-%s-m%d.o" % (name, variant, i)); objs.append(o)
        jobs.append([v["cc"], *v["har"], *fl, "-w", "-I", V + "/engine", "-I", REPO + "/include", "-c", V + "/checks/" + m, "-o", o])
    for h in part.get("helpers", []):   # programs the harness starts
        jobs.append(["gcc", "-O1", "-static", "-w", V + "/checks/" + h, "-o", os.path.join(d, h[:-2])])
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(sh, j, env=env()) for j in jobs]
        lib = build_lib(variant, d) if part.get("lib", True) else None
        for f in fs: f.result()
    exe = os.path.join(d, name + "-" + variant)
    cmd = [v["cc"], *v["ld"], *objs] + ([lib] if lib else []) + ["-Wl,--wrap=" + w for w in dict.fromkeys(wraps)] + part.get("libs", []) + ["-o", exe, "-lm", "-lpthread"]
    sh(cmd, env=env())
    return exe

def known():
    p = os.path.join(V, "known_findings.jsonl")
    if not os.path.exists(p): return []
    return [json.loads(l) for l in open(p) if l.strip() and not l.startswith("#") and not l.startswith("fixed:")]

def decide(pid, tier):
    t0 = time.time()
    c = spec.CHECKS[pid]
    d = tempfile.mkdtemp(prefix="vp-%s-" % pid.lower())
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    viol = None; results = []; err = None
    try:
        for k, part in enumerate(c["parts"]):
            if part.get("tier") and part["tier"] != tier: continue
            exe = build_part(part, d)
            out = os.path.join(d, "out%d.json" % k); tr = os.path.join(d, "trace%d.txt" % k)
            scratch = os.path.join(d, "scratch%d" % k); os.makedirs(scratch); os.chmod(scratch, 0o755)
            e = env(); e["VP_SCRATCH"] = scratch; e["VP_BUILD"] = d
            left = float(os.environ.get("VP_BUDGET") or (600 if tier == "quick" else 6 * 3600)) - (time.time() - t0)
            r = subprocess.run([exe, "--tier", tier, "--seconds", str(max(left / (len(c["parts"]) - k), 20)), "--out", out, "--trace", tr], cwd=scratch, env=e)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                m = ""
                if os.path.exists(out): m = json.load(open(out)).get("message", "")
                err = "part %s ended with %s %s" % (part["src"][0], r.returncode, m); break
            j = json.load(open(out)); j["part"] = part["src"][0] + " (" + part.get("variant", "asan") + ")"
            results.append(j)
            if j["result"] == "violation":
                trace = open(tr, errors="replace").read() if os.path.exists(tr) else ""
                rp = os.path.join(V, "replays", "%s-%s.json" % (pid, hashlib.sha1((j["scenario"] + j["message"]).encode()).hexdigest()[:10]))
                json.dump(dict(property=pid, part=k, tier=tier, scenario=j["scenario"], unit=j["unit"], mode=j["mode"], choices=j["choices"],
                    history=j.get("history"), message=j["message"], trace=trace[-20000:].splitlines()), open(rp, "w"), indent=1)
                viol = (rp, j); break
    except BuildError as e:
        # the library or a header no longer builds against its own public interface: no verdict
        err = "build failed: " + str(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if err and not viol:
        print("ERROR property=%s %s" % (pid, err)); return 2
    tot = lambda k: sum(j[k] for j in results)
    samples = [s for j in results for s in j.get("samples", [])][:10]
    if viol: samples.append("VIOLATION: " + viol[1]["message"])
    cov = dict(samples=samples or ["(none)"], rule=c["rule"], comparisons=tot("checks"),
        exhaustive=all(j["complete"] for j in results) and not viol, states_not_counted=tot("states_dropped"),
        parts=[dict(part=j["part"], scenarios=j["scenarios"], wall_s=j["wall"]) for j in results])
    if c["level"] == "model_checking":
        cov.update(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("histories"))
    else:
        cov.update(evaluations=tot("histories"), distinct_nontrivial=tot("states"), transitions=tot("transitions"))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=c["level"], coverage=cov,
        assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    if viol:
        print("scenario %s unit %s: %s" % (viol[1]["scenario"], viol[1]["unit"], viol[1]["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, viol[0])); return 1
    print("%s held: %d executions, %d transitions, %d states, %.1f s" % (pid, tot("executions"), tot("transitions"), tot("states"), time.time() - t0))
    return 0

def do_replay(path):
    r = json.load(open(path)); c = spec.CHECKS[r["property"]]
    d = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        exe = build_part(c["parts"][r["part"]], d)
        scratch = os.path.join(d, "scratch"); os.makedirs(scratch)
        e = env(); e["VP_SCRATCH"] = scratch; e["VP_BUILD"] = d
        h = ",".join("%d:%d" % tuple(x) for x in (r.get("history") or []))
        tr = os.path.join(d, "trace.txt")
        p = subprocess.run([exe, "--tier", r["tier"], "--trace", tr, "--replay", r["scenario"], str(r["unit"]), str(r["mode"]), ",".join(map(str, r["choices"])), h], cwd=scratch, env=e)
        if os.path.exists(tr): print(open(tr, errors="replace").read()[-8000:])
        if p.returncode == 1: print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": sys.exit(do_replay(sys.argv[2]))
    if len(sys.argv) < 2 or sys.argv[1] not in spec.CHECKS: sys.exit("usage: run.py ID quick|thorough")
    sys.exit(decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
