#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN
TECH = {
    "C05": "runtime monitoring: replay and distribution monitor over drawn values (processes, threads, sources)",
    "C11": "runtime monitoring: coefficients recovered from recorded shares, freshness and distribution monitor",
    "C18": "runtime monitoring: adversarial protocol client, freshness and slot-order monitor over recorded sessions",
    "C19": "AddressSanitizer, UndefinedBehaviorSanitizer and valgrind memcheck over boundary and hostile workloads",
    "C20": "runtime monitoring: interposed allocator, live-heap growth monitor",
    "C21": "copy and lifetime monitor under AddressSanitizer and memcheck",
    "C22": "ThreadSanitizer (with libgmp's accesses announced to it) and comparison with single-threaded runs",
    "C26": "runtime monitoring: linkage and correlation monitor over the keys a receiver sends",
    "C24": "runtime monitoring: discrete-logarithm monitor over recorded ciphertexts and tags",
}
WORD = {"rel": "the shipped build", "asan": "the AddressSanitizer/UBSan build", "asann": "the AddressSanitizer/UBSan build without assertions", "tsan": "the ThreadSanitizer build", "memcheck": "valgrind memcheck"}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in PLAN:
        continue
    cfgs = []
    for r in PLAN[i]["runs"]:
        if WORD[r["config"]] not in cfgs:
            cfgs.append(WORD[r["config"]])
    checks.append({
        "property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH.get(i, "runtime monitoring against an independent oracle, partly under AddressSanitizer and UBSan" if len(cfgs) > 1 else "runtime monitoring against an independent oracle"),
        "level": "exploration",
        "level_note": "Observed in " + ", ".join(cfgs) + ": " + PLAN[i]["rule"] + ". Assumes: " + "; ".join(PLAN[i]["assumptions"]) + ".",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the monitors observe through the public interface, interposed libgmp/libc functions and the sanitizers. "
              "Every check compiles /repo/src and /repo/includes itself. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
