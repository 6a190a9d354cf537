#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property with a harness, a reason for every other property."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C54": "the map is a thin wrapper over oneTBB, whose lock-free runtime is only installed as a shared library without source to encode",
}
TECH = {}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    h = os.path.join(ROOT, "harness", p + ".cpp")
    if not os.path.exists(h):
        na.append({"property": p, "reason": NA.get(p, "not encoded yet")})
        continue
    src = open(h).read()
    bounds = " ".join(re.findall(r"^// vp-bounds: (.*)$", src, re.M))
    threads = "vp_thread_create" in src or "std::thread" in src
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s --tier quick" % p,
        "thorough_cmd": "python3 check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "symbolic execution of the compiled sources with SMT verdicts" + (" over all interleavings within a preemption bound" if threads else ""),
        "level": "other",
        "level_note": ("Bounded: every assertion and memory access on every feasible path is decided by the solver for all values within: " + bounds)[:1500],
    })
m = {
    "version": 1,
    "setup_cmd": "make -s -j8 -C engine",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check compiles /repo's current sources to LLVM bitcode, links them with its harness and executes them symbolically with the engine in engine/ (LLVM 18 + Z3). "
             "Counterexamples are replayed against a native sanitizer build of the same sources before they are reported. Checks build the engine themselves if it is missing.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
