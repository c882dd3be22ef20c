#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]; hs = glob.glob(f"{V}/harness/{i}_*.cpp")
    if hs:
        runs = [l for h in hs for l in open(h) if l.startswith("//@ run")]
        weak = any("--weak" in l for l in runs); b = any("--preempt" in l for l in runs)
        checks.append({"property": i, "quick_cmd": f"python3 tools/run_check.py {i} quick", "thorough_cmd": f"python3 tools/run_check.py {i} thorough", "technique": "symbolic execution of the library's LLVM IR (inputs, schedules and read-from choices as bit-vector variables), assertions decided by Z3",
          "level": "model_checking", "level_note": f"{len(runs)} bounded harness runs; within the stated numbers of threads, coroutines and operations every input and every schedule" + (" (some runs: up to the stated number of preemptions)" if b else "") + (", also with non-sequentially-consistent reads as C++11 permits (--weak runs)" if weak else "") + " is decided. Trusted: clang's front end and coroutine passes, the executor in engine/, Z3, the models of pthreads, malloc and exceptions in rt/."})
    else: na.append({"property": i, "reason": "no check yet"})
json.dump({"version": 1, "setup_cmd": "python3 tools/run_check.py --setup", "checks": checks, "not_applicable": na, "notes": "No hooks in /repo: harnesses use the public API; the IR is compiled from /repo's working tree on every run."}, open(V + "/MANIFEST.json", "w"), indent=1)
