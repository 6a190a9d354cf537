#!/usr/bin/env python3
"""Decide one property by symbolic execution of the code in /repo.

  check.py C46 [--tier quick|thorough] [--only HARNESS] [--keep]

Pipeline: compile the harness and the real sources to LLVM bitcode -> link what the harness needs ->
run every harness/shard through the symbolic executor -> replay each counterexample against a native
build of the same sources -> write evidence/<id>.json.
Exit: 0 held, 1 violation (VIOLATION line), anything else: the check itself failed.
"""
import glob
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SYMX = os.path.join(BUILD, "engine", "symx")
NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()
TOTAL_BUDGET = 840.0

CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
CC = CXX.replace("clang++", "clang")
LINK = "/usr/lib/llvm-18/bin/llvm-link"
NM = "/usr/lib/llvm-18/bin/llvm-nm"
OPT = "/usr/lib/llvm-18/bin/opt"

DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE", "-DZSTD_CODEC_AVAILABLE",
        "-DRAPIDJSON_HAS_STDSTRING"]
INC = ["-I" + REPO + p for p in ("/src", "/include", "/test", "/third_party/roaring_bitmap", "/third_party/xxhash")] + ["-I" + ROOT + "/models/arrow"]
SYM_FLAGS = ["-O2", "-fno-pic", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fwrapv", "-fno-strict-aliasing",
             "-fno-delete-null-pointer-checks", "-gline-tables-only", "-fno-access-control", "-w",
             "-include", ROOT + "/models/include/vp_pre.h", "-DVP_SYMBOLIC=1", "-DROARING_DISABLE_X64", "-DXXH_VECTOR=0",
             "-emit-llvm", "-I" + ROOT + "/models/include"]
NATIVE_FLAGS = ["-O1", "-g", "-fwrapv", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks",
                "-fno-access-control", "-w", "-fsanitize=address", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def sources():
    lst = os.path.join(ROOT, "tools", "sources.txt")
    out = []
    for line in open(lst):
        line = line.strip()
        if line and os.path.exists(os.path.join(REPO, line)):
            out.append(line)
    return out


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def build_engine():
    r = sh(["make", "-s", "-j%d" % NPROC, "-C", os.path.join(ROOT, "engine"), "B=" + os.path.join(BUILD, "engine")])
    if r.returncode != 0 or not os.path.exists(SYMX):
        raise CheckError("engine build failed:\n" + r.stderr[-3000:])


def header_opts(path):
    opts = {"flags": [], "native_flags": [], "wall": {}, "qtime": {}, "preempt": {}, "max_steps": None, "replay": "asan", "defs": [],
            "bounds": [], "assume": [], "stubs": [], "extra": [], "mem": 3500, "fair": None}
    for line in open(path):
        m = re.match(r"//\s*vp-(\w+):\s*(.*)", line.strip())
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k in ("bounds", "assume", "stubs"):
            opts[k].append(v)
        elif k in ("flags", "native_flags", "extra", "defs"):
            opts[k] += v.split()
        elif k in ("wall", "qtime", "preempt"):
            for p in v.split():
                t, x = p.split("=")
                opts[k][t] = x
        else:
            opts[k] = v
    extra = []
    for e in opts["extra"]:
        hits = sorted(os.path.relpath(f, REPO) for f in glob.glob(os.path.join(REPO, e)) if not f.endswith("_test.cpp")) if "*" in e else [e]
        extra += [h for h in hits if h not in extra and h not in sources()]
    opts["extra"] = extra
    return opts


def compile_one(src, out, flags, std=True):
    c = src.endswith(".c")
    cmd = [CC if c else CXX] + ([] if c else ["-std=c++17"]) + flags + DEFS + INC + ["-I" + ROOT + "/harness", "-c", src, "-o", out]
    r = sh(cmd)
    return r.returncode, r.stderr


def obj_name(src):
    return src.replace("/", "_")


def build_bitcode(work, harness, opts):
    jobs = {}
    flags = SYM_FLAGS + opts["flags"]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        hb = os.path.join(work, "harness.bc")
        jobs[ex.submit(compile_one, harness, hb, flags + opts["defs"])] = ("harness", hb)
        mb = os.path.join(work, "models.bc")
        jobs[ex.submit(compile_one, os.path.join(ROOT, "models/libstdcxx.cpp"), mb, SYM_FLAGS + ["-fno-builtin"])] = ("models", mb)
        pb = os.path.join(work, "posix.bc")
        jobs[ex.submit(compile_one, os.path.join(ROOT, "models/posix.cpp"), pb, SYM_FLAGS + ["-fno-builtin"])] = ("models", pb)
        # largest first
        ss = sorted(sources(), key=lambda s: -os.path.getsize(os.path.join(REPO, s)))
        for s in ss:
            o = os.path.join(work, obj_name(s) + ".bc")
            jobs[ex.submit(compile_one, os.path.join(REPO, s), o, flags)] = (s, o)
        for s in opts["extra"]:
            o = os.path.join(work, obj_name(s) + ".bc")
            jobs[ex.submit(compile_one, os.path.join(REPO, s), o, flags)] = (s, o)
        eng = ex.submit(build_engine)
        objs, failed = {}, {}
        for f in cf.as_completed(jobs):
            name, o = jobs[f]
            rc, err = f.result()
            if rc == 0:
                objs[name if name != "models" else o] = o
            else:
                failed[name if name != "models" else o] = err
        eng.result()
    if "harness" in failed:
        raise CheckError("harness does not compile against /repo:\n" + failed["harness"][-4000:])
    for k in failed:
        if k.endswith("models.bc") or k.endswith("posix.bc"):
            raise CheckError("models do not compile:\n" + failed[k][-3000:])
    # archive-style closure
    r = sh([NM, "--format=posix"] + list(objs.values()))
    defs, undef, weak = {}, {}, {}
    cur = None
    for line in r.stdout.splitlines():
        if line.endswith(":") and " " not in line:
            cur = line[:-1]
            defs[cur], undef[cur], weak[cur] = set(), set(), set()
            continue
        p = line.split()
        if len(p) < 2:
            continue
        n, t = p[0], p[1]
        if t in "Uwv" and t != "W":
            if t == "U":
                undef[cur].add(n)
        elif t in "TDBRV":
            (weak if t == "V" else defs)[cur].add(n)
        elif t == "W":
            weak[cur].add(n)
    provider = {}
    for o in objs.values():
        for n in defs.get(o, ()):
            provider.setdefault(n, o)
    for o in objs.values():
        for n in weak.get(o, ()):
            provider.setdefault(n, o)
    have = [objs["harness"], os.path.join(work, "models.bc"), os.path.join(work, "posix.bc")]
    chosen = set(have)
    sat = set()
    for o in have:
        sat |= defs.get(o, set()) | weak.get(o, set())
    todo = set()
    for o in have:
        todo |= undef.get(o, set())
    missing = set()
    while todo:
        n = todo.pop()
        if n in sat or n in missing:
            continue
        p = provider.get(n)
        if p is None:
            missing.add(n)
            continue
        chosen.add(p)
        sat |= defs[p] | weak[p]
        todo |= undef[p]
    bad = sorted(n for n in missing if "6paimon" in n)
    mod = os.path.join(work, "all.bc")
    lst = [objs["harness"]] + sorted(chosen - {objs["harness"]})
    # models may be overridden by the harness
    r = sh([LINK, "-o", mod, objs["harness"]] + sorted(chosen - set(have)) + [have[1], have[2]])
    if r.returncode != 0:
        raise CheckError("llvm-link failed: " + r.stderr[-2000:])
    mod2 = os.path.join(work, "mod.bc")
    r = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=vpm_*,vp_*,main", mod, "-o", mod2])
    if r.returncode != 0:
        raise CheckError("opt failed: " + r.stderr[-2000:])
    linked = [k for k, v in objs.items() if v in chosen and k != "harness" and not k.endswith(".bc")]
    return mod2, linked, failed, bad


_running = set()
_stop = False


def stop_all():
    """A confirmed violation settles the check: end the other runs."""
    global _stop
    _stop = True
    for p in list(_running):
        p.kill()


def run_symx(mod, h, shard, tier, work, wall, opts, grace):
    out = os.path.join(work, "res-%s-%d.json" % (h, shard))
    t = "thorough" if tier else "quick"
    cmd = [SYMX, mod, "--harness", h, "--shard", str(shard), "--tier", str(tier), "--wall", str(int(wall)), "--out", out,
           "--qtime", str(opts["qtime"].get(t, "60000")), "--mem", str(opts["mem"])]
    if opts["preempt"]:
        cmd += ["--preempt", opts["preempt"].get(t, "2")]
    if opts["fair"]:
        cmd += ["--fair", opts["fair"]]
    if opts["max_steps"]:
        cmd += ["--max-steps", opts["max_steps"]]
    if grace:
        cmd += ["--grace", str(grace)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    _running.add(p)
    try:
        if _stop:
            p.kill()
        _, err = p.communicate(timeout=wall + 90)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"harness": h, "shard": shard, "status": "error", "error": "executor timed out"}
    finally:
        _running.discard(p)
    if _stop and not os.path.exists(out):
        return {"harness": h, "shard": shard, "status": "stopped", "inconclusive": ["stopped after a confirmed violation"]}
    r = subprocess.CompletedProcess(cmd, p.returncode, "", err)
    if r.returncode != 0 or not os.path.exists(out):
        return {"harness": h, "shard": shard, "status": "error", "error": "executor exit %d: %s" % (r.returncode, r.stderr[-1500:])}
    d = json.load(open(out))
    d["stderr"] = r.stderr[-1500:]
    return d


# ---------------------------------------------------------------------------------------------- native replay
_native = {}


def native_build(work, harness, linked, opts, key):
    if key in _native:
        return _native[key]
    nd = os.path.join(work, "native-" + key)
    os.makedirs(nd, exist_ok=True)
    flags = [f for f in NATIVE_FLAGS]
    if key != "asan":
        flags = [f.replace("address", "thread") for f in flags]
    flags += opts["native_flags"]
    srcs = list(dict.fromkeys(sources() + opts["extra"]))
    jobs, objs = {}, []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        jobs[ex.submit(compile_one, harness, nd + "/harness.o", flags + opts["defs"])] = ("harness", nd + "/harness.o")
        nflags = flags + {"asan": ["-DVP_ASAN"], "tsan": [], "sched": ["-DVP_SCHED", "-fno-sanitize=thread"]}[key]
        jobs[ex.submit(compile_one, ROOT + "/models/native.cpp", nd + "/native.o", nflags)] = ("native", nd + "/native.o")
        if key == "sched":
            jobs[ex.submit(compile_one, ROOT + "/models/sched_rt.cpp", nd + "/sched_rt.o", nflags)] = ("sched_rt", nd + "/sched_rt.o")
        for s in srcs:
            if s not in linked:
                continue
            o = nd + "/" + obj_name(s) + ".o"
            jobs[ex.submit(compile_one, os.path.join(REPO, s), o, flags)] = (s, o)
        for f in cf.as_completed(jobs):
            n, o = jobs[f]
            rc, err = f.result()
            if rc != 0:
                raise CheckError("native build of %s failed: %s" % (n, err[-2000:]))
            objs.append(o)
    exe = nd + "/replay"
    san = {"asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"], "sched": []}[key]
    link = [CXX] + san + ["-rdynamic", "-Wl,--unresolved-symbols=ignore-all"] + opts["native_flags"] + objs
    r = sh(link + ["-o", exe, "-lfmt", "-ltbb", "-lpthread", "-ldl"])
    if r.returncode == 0:
        # data of classes whose sources are not linked (vtables, type descriptors) is looked up at start
        gaps = sorted(set(re.findall(r" U (_ZT[VISC]\S*(?:6paimon|5arrow)\S*)", sh(["nm", "-D", "--undefined-only", exe]).stdout)))
        if gaps:
            with open(nd + "/gaps.s", "w") as f:
                f.write(".data\n" + "".join(".globl %s\n.p2align 4\n%s: .zero 512\n" % (g, g) for g in gaps) + ".section .note.GNU-stack,\"\",@progbits\n")
            r = sh(link + [nd + "/gaps.s", "-o", exe, "-lfmt", "-ltbb", "-lpthread", "-ldl"])
    if r.returncode != 0:
        raise CheckError("native link failed: " + r.stderr[-2000:])
    _native[key] = exe
    return exe


def write_replay(prop, n, h, shard, tier, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.replay" % (prop, n))
    with open(p, "w") as f:
        f.write("# property %s harness %s: [%s] %s\n# at %s\n" % (prop, h, v["kind"], v["msg"], v["loc"]))
        for s in v["stack"][:12]:
            f.write("#   %s\n" % s)
        f.write("harness %s\nshard %d\ntier %d\n" % (h, shard, tier))
        for name, hx in v["values"]:
            f.write("v %s %s\n" % (name.replace(" ", "_"), hx or "-"))
        if v["schedule"]:
            f.write("schedule %s\n" % ",".join(map(str, v["schedule"])))
    return p


def threaded(v):
    return len(set(v["schedule"])) > 1


def replay(path, exe, timeout=60):
    env = dict(os.environ)
    env["VP_REPLAY"] = path
    env["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:max_allocation_size_mb=64:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=1"
    env["TSAN_OPTIONS"] = "exitcode=99:halt_on_error=1"
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd="/")
    except subprocess.TimeoutExpired:
        return "timeout", "native run did not finish in %d s" % timeout
    out = (r.stdout + r.stderr).decode("latin1")
    if r.returncode == 0:
        return "clean", out
    if r.returncode == 77:
        return "mismatch", out
    if "symbol lookup error" in out:
        return "code not linked", out
    return "confirmed", "exit %d\n%s" % (r.returncode, out[-3000:])


# ---------------------------------------------------------------------------------------------- known findings
def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) kind=(\S+) at=(\S+) msg=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.groups())
    return res


def match_known(known, h, v):
    for k in known:
        if k[1] == h and k[2] == v["kind"] and k[3] in v["loc"].replace(" ", "") and k[4] == v["msg"]:
            return k
    return None


def main():
    prop = sys.argv[1]
    tier_name = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier_name = a.pop(0)
        elif x == "--only":
            only = a.pop(0)
        elif x == "--keep":
            keep = True
    tier = 1 if tier_name == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1"))
    harness = os.path.join(ROOT, "harness", prop + ".cpp")
    work = os.path.join(BUILD, "work-" + prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    opts = header_opts(harness)
    mod, linked, failed, bad = build_bitcode(work, harness, opts)
    t_build = time.time() - T0
    r = sh([SYMX, "--list", mod])
    tasks = []
    for line in r.stdout.split("\n"):
        if line.strip():
            n, k = line.split()
            for s in range(int(k)):
                if only is None or n == only:
                    tasks.append((n, s))
    if not tasks:
        raise CheckError("no harness found in module: " + r.stderr)
    default_wall = 500 if tier else 300
    wall = float(opts["wall"].get(tier_name, default_wall))
    wall = max(30, min(wall, TOTAL_BUDGET - (time.time() - T0) - 150))
    results = []
    deadline = T0 + TOTAL_BUDGET - 150

    def job(n, s):
        w = min(wall, deadline - time.time())
        if _stop:
            return {"harness": n, "shard": s, "status": "stopped", "inconclusive": ["not started after a confirmed violation"]}
        if w < 5:
            return {"harness": n, "shard": s, "status": "inconclusive", "inconclusive": ["time budget of the check used up"], "violations": []}
        return run_symx(mod, n, s, tier, work, w, opts, 0 if known_findings(prop) else 15)

    known = known_findings(prop)
    reports, knowns, seen = [], [], set()

    def handle(d, v):
        key = (d["harness"], v["kind"], v["msg"], v["loc"])
        if key in seen:
            return
        seen.add(key)
        k = match_known(known, d["harness"], v)
        if k:
            knowns.append((k, d, v))
            return
        n = len(reports) + 1
        p = write_replay(prop, n, d["harness"], d["shard"], tier, v)
        conf, text = "unreplayed", ""
        if n <= 6:
            # races: thread sanitizer; other violations of threaded runs: search a native schedule
            modes = ["tsan", "sched"] if v["kind"] == "race" else ["sched", "asan"] if threaded(v) else ["asan"]
            for mode in modes:
                exe = native_build(work, harness, linked, opts, mode)
                for attempt in range(10 if mode == "tsan" else 1):
                    conf, text = replay(p, exe, 90)
                    if mode == "tsan" and conf == "confirmed" and "data race" not in text and "ASSERTION VIOLATED" not in text:
                        conf = "other failure"
                    if conf != "clean":
                        break
                if conf != "clean":
                    break
            if conf == "timeout":
                conf = "confirmed" if v["kind"] in ("nontermination", "deadlock") else "timeout"
            with open(p, "a") as f:
                f.write("# native replay: %s\n" % conf)
                for l in text.strip().splitlines()[-25:]:
                    f.write("#   %s\n" % l)
        reports.append((d, v, p, conf, text))
        if conf == "confirmed":
            stop_all()

    with cf.ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(job, n, s) for n, s in tasks]
        try:
            for f in cf.as_completed(futs):
                for v in f.result().get("violations", []):
                    handle(f.result(), v)
        except BaseException:
            stop_all()
            raise
        results = [f.result() for f in futs]
    if os.environ.get("VP_VERBOSE"):
        for d in results:
            print("%-28s #%d %-12s paths=%s cut=%s insts=%s queries=%s solver=%.1fs wall=%.1fs %s" % (
                d["harness"], d["shard"], d["status"], d.get("paths"), d.get("paths_cut"), d.get("instructions"),
                d.get("queries"), d.get("solver_s", 0), d.get("wall_s", 0), d.get("error", "") or "; ".join(d.get("inconclusive", []))[:600]))
    errors = []
    for d in results:
        if d["status"] == "error":
            errors.append("%s#%d: %s" % (d["harness"], d["shard"], d["error"]))
        for x in d.get("inconclusive", []):
            errors.append("%s#%d: inconclusive: %s" % (d["harness"], d["shard"], x))
    # vacuity guard: every declared witness must have been reached by some shard
    exp, got = {}, {}
    for d in results:
        exp.setdefault(d["harness"], set()).update(d.get("expected", []))
        got.setdefault(d["harness"], set()).update(d.get("reached", []))
    for h in exp:
        for l in sorted(exp[h] - got[h]):
            errors.append("%s: witness '%s' not reached (vacuous)" % (h, l))
        if not exp[h]:
            errors.append("%s: no reachability witness declared" % h)
    for k in {x[0] for x in knowns}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[5]))
    confirmed = [x for x in reports if x[3] == "confirmed"]
    wrote = False
    for d, v, p, conf, text in reports:
        if conf == "confirmed":
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("  [%s] %s" % (v["kind"], v["msg"]))
            print("  harness %s at %s" % (d["harness"], v["loc"]))
            wrote = True
        elif not confirmed:
            errors.append("%s: counterexample not confirmed natively (%s): [%s] %s at %s" % (d["harness"], conf, v["kind"], v["msg"], v["loc"]))
    # evidence
    tot = lambda k: sum(d.get(k, 0) or 0 for d in results)
    fns = sorted({f for d in results for f in d.get("functions", [])})
    man = {}
    try:
        for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
            man[c["property"]] = c
    except Exception:
        pass
    level = man.get(prop, {}).get("level", "other")
    samples = [s for d in results for s in d.get("samples", [])][:12]
    cov = {
        "explanation": "symbolic execution of the compiled sources: %d paths completed (%d ended by an assumption or a reported "
                       "violation), %d solver queries (%d unsat, %d sat), every assertion and memory access decided for all "
                       "values within the stated bounds" % (tot("paths"), tot("paths_cut"), tot("queries"), tot("queries_unsat"), tot("queries_sat")),
        "paths": tot("paths"), "paths_cut": tot("paths_cut"), "instructions": tot("instructions"), "forks": tot("forks"),
        "assertions_checked": tot("assert_checks"), "memory_checks": tot("memory_checks"), "scheduling_points": tot("sched_points"), "fairness_switches": tot("fair_switches"),
        "solver_queries": tot("queries"), "queries_unsat": tot("queries_unsat"), "queries_sat": tot("queries_sat"),
        "queries_unknown": tot("queries_unknown"), "solver_seconds": round(tot("solver_s"), 2),
        "solver": next((d.get("solver") for d in results if d.get("solver")), ""),
        "query_cache_hits": tot("query_cache_hits"), "symbolic_bytes": tot("symbolic_bytes"),
        "functions_encoded": len(fns), "functions": fns[:150],
        "bounds": opts["bounds"], "harnesses": sorted({d["harness"] for d in results}), "shards": len(results),
        "sources_linked": linked, "witnesses_reached": sorted({l for g in got.values() for l in g}),
        "per_harness": [{k: d.get(k) for k in ("harness", "shard", "status", "paths", "queries", "solver_s", "wall_s", "insts_covered", "insts_total")} for d in results][:80],
        "decided_by": {"cache": tot("query_cache_hits"), "recent_models": tot("model_hits"), "range_evaluation": tot("queries_small"), "linear_integer": tot("queries_linear")},
        "violations_replayed_natively": len([x for x in reports if x[3] != "unreplayed"]),
        "samples": samples or ["(single path)"],
        "models_used": sorted({m for d in results for m in d.get("models_used", [])}),
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": prop, "tier": tier_name, "seed": seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - T0, 2),
        "assumptions": opts["assume"] + opts["stubs"],
        "violations": [{"kind": v["kind"], "message": v["msg"], "where": v["loc"], "replay": p, "native": conf} for d, v, p, conf, t in reports],
    }
    if knowns:
        ev["coverage"]["known_findings"] = sorted({x[0][5] for x in knowns})
    if errors:
        ev["coverage"]["errors"] = errors[:20]
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
    if wrote:
        return 1
    if errors:
        for e in errors[:12]:
            print("CHECK-ERROR property=%s %s" % (prop, e))
        if bad:
            print("  unresolved: " + ", ".join(bad[:8]))
        for f in list(failed)[:4]:
            print("  not compiled: %s: %s" % (f, failed[f][-300:]))
        return 2
    print("OK property=%s tier=%s paths=%d queries=%d solver=%.1fs wall=%.1fs" % (prop, tier_name, tot("paths"), tot("queries"), tot("solver_s"), time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK-ERROR " + str(e))
        sys.exit(2)
