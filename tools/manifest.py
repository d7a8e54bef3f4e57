#!/usr/bin/env python3
# Writes MANIFEST.json from the list of claimed properties.
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(D + "/properties.jsonl") if l.strip()]
NOTE = ("Bounded: every value within the bounds stated in DESIGN.md and in the harness is decided by the solver over the "
        "SSA of /repo's current source; counterexamples are replayed against the real code before they are reported. "
        "Trusted: golang.org/x/tools/go/ssa, the executor in engine/, z3, and the modelled parts listed in DESIGN.md "
        "(reflect, sync, time zone, float formatting, error texts).")
claimed = {}
exec(open(D + "/tools/claims.py").read())
checks, na = [], []
for i in ids:
    if i in CLAIMED:
        tech = "symbolic execution of the Go SSA of /repo with an SMT solver (z3) deciding every branch and assertion"
        if i == "C22":
            tech += "; every memory access of two symbolic threads goes through a lockset and ownership monitor, so that a conflict is found for whatever order the threads run in, and is confirmed by the race detector"
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": tech,
                       "level": "model_checking", "level_note": (CLAIMED[i] + " " + NOTE).strip()})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "none", "enable": "no hooks: the checks read /repo's unmodified source", "source_commits": []}},
          open(D + "/MANIFEST.json", "w"), indent=1)
