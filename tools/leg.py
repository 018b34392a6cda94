#!/usr/bin/env python3
"""Verdict of a sanitizer leg; adds what it observed to the evidence file."""
import glob, json, os, sys

what, V, pid, tier, seed, rc = sys.argv[1:7]
rc = int(rc)
ev_path = f"{V}/evidence/{pid}.json"


def violation(key, text, kind, log=""):
    os.makedirs(f"{V}/evidence/replays", exist_ok=True)
    path = f"{V}/evidence/replays/{pid}-{tier}-s{seed}-{kind}.json"
    with open(path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(seed), "case": -1, "kind": kind, "key": key,
                   "what": text, "report": log[:8000],
                   "rerun": f"bash {V}/check.sh {pid} {tier} --replay {path}"}, f, indent=1)
    print(f"[{key}] {text}")
    print(log[:2500])
    print(f"VIOLATION property={pid} replay={path}")


if what == "crash":
    violation("process-died", f"the process died with signal {rc - 128} inside the library workload", "plain")
    with open(ev_path, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration",
                   "coverage": {"evaluations": 0, "distinct_nontrivial": 0,
                                "rule": "the process died; the counts of this run were lost with it",
                                "died_with_signal": rc - 128},
                   "assumptions": [], "wall_s": 0.0, "violations": 1}, f, indent=1)
    sys.exit(1)

kind, logs = sys.argv[7:9]
reports = "\n".join(open(p, errors="replace").read() for p in sorted(glob.glob(logs + "/report*")))
n = reports.count("WARNING: ThreadSanitizer") + reports.count("ERROR: AddressSanitizer")
try:
    leg = json.load(open(logs + "/leg.json"))["coverage"]
except (OSError, ValueError):
    leg = {}
try:
    ev = json.load(open(ev_path))
except (OSError, ValueError):
    ev = None
if ev is not None:
    ev["coverage"]["sanitizer"] = {
        "kind": {"tsan": "ThreadSanitizer, standard library instrumented", "asan": "AddressSanitizer"}[kind],
        "cases": leg.get("cases", 0), "library_calls": leg.get("library_calls", 0), "reports": n, "exit": rc}
    if n or rc == 1:
        ev["violations"] = max(1, ev["violations"])
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
if n:
    violation("sanitizer-report", f"{n} {kind} reports", kind, reports)
    sys.exit(1)
if rc == 1:
    sys.exit(1)
if rc or not leg.get("cases"):
    print(f"inconclusive: {kind} leg ended with {rc}")
    sys.exit(2)
print(f"{kind}: {leg['cases']} cases, {leg['library_calls']} calls, no report")
