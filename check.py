#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE]   decides one property for /repo's working tree
   check.py --build                                      only builds the explorer
Exit 0: held on everything explored; 1 with a VIOLATION line: broken; 2: the check could not run."""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CHRONO_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
COMMON = ["-std=c++17", "-w", "-I" + REPO, "-I" + os.path.join(HERE, "harness"), "-ftrivial-auto-var-init=pattern"]
VARIANT = {"plain": ["-O1"],
           "san": ["-O1", "-fsanitize=address,signed-integer-overflow,bounds,shift,integer-divide-by-zero,float-cast-overflow", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
           "sched": ["-O1", "-pthread"]}
# sched: every memory access and synchronisation of the library code calls harness/sched_rt.cpp
INSTRUMENT = ["-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
ENV = dict(os.environ, TZ="UTC", MALLOC_PERTURB_="90", LC_ALL="C",
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")


def repo_sources():
    files = [os.path.join(REPO, "time.cpp")]
    for ext in ("cpp", "hpp", "h", "cc", "hxx", "cxx"):
        files += glob.glob(os.path.join(REPO, "src", "**", "*." + ext), recursive=True)
        files += glob.glob(os.path.join(REPO, "*." + ext))
    return sorted(set(files))


def build(variant, pid):
    """compiles the explorer of one property (all: of every property) with the repository's current sources; returns the executable"""
    harness = [f for f in sorted(glob.glob(os.path.join(HERE, "harness", "*")))
               if not os.path.basename(f).startswith("props_") or pid == "all" or "PROPERTY(%s," % pid in open(f).read()]
    harness = [f for f in harness if (variant == "sched") or not os.path.basename(f).startswith(("sched", "props_sched"))]
    h = hashlib.sha256(repr((COMMON, VARIANT[variant], INSTRUMENT)).encode())
    for f in harness + repo_sources():
        h.update(f.encode()); h.update(open(f, "rb").read())
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(BUILD, variant + "-" + h.hexdigest()[:16])
        exe = os.path.join(out, "mc")
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(BUILD, variant + "-*")):
            if time.time() - os.path.getmtime(old) > 1800:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        units = [f for f in harness if f.endswith(".cpp")]
        units += [f for f in repo_sources() if f.startswith(os.path.join(REPO, "src") + os.sep) and f.endswith((".cpp", ".cc", ".cxx"))]
        units = list(dict.fromkeys(units))

        def compile_one(job):
            i, f = job
            o = os.path.join(out, "%d_%s.o" % (i, os.path.basename(f)))
            extra = INSTRUMENT if variant == "sched" and instrumented(f) else []
            p = subprocess.run(["g++"] + COMMON + VARIANT[variant] + extra + ["-c", f, "-o", o], capture_output=True, text=True)
            return o, f, p
        def instrumented(f):
            return os.path.basename(f).startswith("ad_") or f.startswith(REPO + os.sep)
        objs = []
        units.sort(key=lambda f: -os.path.getsize(f))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as pool:
            for o, f, p in pool.map(compile_one, enumerate(units)):
                if p.returncode:
                    sys.stderr.write("cannot compile %s\n%s\n" % (f, p.stderr[:6000]))
                    sys.exit(2)
                objs.append((not instrumented(f), o))
        objs = [o for _, o in sorted(objs)]      # of a function in several units the linker takes the first: the instrumented one
        p = subprocess.run(["g++"] + VARIANT[variant] + ["-Wl,--allow-multiple-definition"] + objs + ["-o", exe + ".tmp"], capture_output=True, text=True)
        if p.returncode:
            sys.stderr.write("cannot link\n%s\n" % p.stderr[:6000])
            sys.exit(2)
        for o in objs:
            os.unlink(o)
        os.rename(exe + ".tmp", exe)
        return exe


def known_findings():
    known = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                prop, _, what = line[len("finding:"):].strip().partition(" ")
                known.append((prop.split("=")[1], what))
    return known


def passes(pid):
    if pid == "C29":
        return [("sched", pid)]
    return [("plain", pid)] + ([("san", "C01S")] if pid == "C01" else [])


def limits(variant):
    import resource
    if variant == "san":      # deep regex recursion needs more stack with instrumented frames
        def f():
            soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
            want = 256 << 20
            resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))
        return f
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    if a.build:
        print(build("plain", "all"))
        print(build("sched", "C29"))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        exe = build(r["variant"], r["explorer"])
        cmd = [exe, r["explorer"], "--tier", r["tier"], "--case", str(r["case"])]
        if r["mode"].startswith("prefix"):
            cmd += ["--prefix", r["mode"].split()[1]]
        return subprocess.run(cmd, env=ENV, preexec_fn=limits(r["variant"])).returncode
    pid, t0 = a.property, time.time()
    runs = []
    for variant, eid in passes(pid):
        exe = build(variant, eid)
        out = os.path.join(BUILD, "%s.%d.json" % (eid, os.getpid()))
        p = subprocess.run([exe, eid, "--tier", a.tier, "--out", out, "--workers", str(min(os.cpu_count() or 8, 16))], env=ENV, preexec_fn=limits(variant))
        if p.returncode:
            sys.stderr.write("the explorer ended with status %d\n" % p.returncode)
            return 2
        r = json.load(open(out)); os.unlink(out)
        r["variant"] = variant
        runs.append(r)
        if any(v["mode"] != "unconfirmed" for v in r["violations"]):
            break
    bad, fluke = [], []
    for r in runs:
        for v in r["violations"]:
            (fluke if v["mode"] == "unconfirmed" else bad).append((r, v))
    known = [w for p, w in known_findings() if p == pid]
    hit, new = [], []
    for r, v in bad:
        (hit if v["desc"] in known else new).append((r, v))
    coverage = {
        "states": sum(r["distinct"] for r in runs),
        "transitions": sum(r["ops"] for r in runs),
        "traces_validated_against_impl": sum(r["cases"] for r in runs),
        "samples": [s for r in runs for s in r["samples"]][:10],
        "exhaustive": not new and not any(r["budget_hit"] or r["info"].get("cases cut off at the limit") for r in runs),
        "meaning": "states: distinct behaviours observed on the real code; transitions: calls executed on the real code; traces: enumerated cases, each executed on the real code and compared with the reference model",
        "space": [r["bounds"] for r in runs], "oracle": [r["oracle"] for r in runs],
        "cases_rerun_after_crash_or_hang": sum(r["suspects"] for r in runs),
        "not_reproduced": [v["desc"] + ": " + v["what"] for _, v in fluke],
    }
    for r in runs:
        for k, n in r["info"].items():
            coverage["bound_" + k.replace(" ", "_")] = n
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking", "coverage": coverage,
          "assumptions": ["the reference model in harness/model*.cpp states the property correctly", "g++ and Boost.DateTime behave as documented", "behaviour outside the enumerated space is not judged"],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    path = os.path.join(HERE, "evidence", pid + ".json")
    json.dump(ev, open(path + ".tmp", "w"), indent=1)
    os.rename(path + ".tmp", path)
    print("%s %s: %d cases, %d calls, %d distinct behaviours, %.1f s" % (pid, a.tier, coverage["traces_validated_against_impl"], coverage["transitions"], coverage["states"], ev["wall_s"]))
    for r, v in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["desc"]))
    for i, (r, v) in enumerate(new):
        rp = os.path.join(HERE, "evidence", "%s.replay%d.json" % (pid, i))
        json.dump({"property": pid, "explorer": r["property"], "variant": r["variant"], "tier": a.tier, "case": v["case"], "mode": v["mode"], "desc": v["desc"], "what": v["what"],
                   "how": "python3 check.py --replay <this file>"}, open(rp, "w"), indent=1)
        print("  %s\n    %s" % (v["desc"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
