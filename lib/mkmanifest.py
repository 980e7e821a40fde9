#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
T = {
    "input": "stateless model checking of the implementation: exhaustive enumeration of an input grid and of schedules/short reads within a deviation bound, against an independent codec",
    "sched": "stateless model checking of the implementation: all schedules, wake-ups and network answers within a deviation bound under a controlled scheduler and simulated network, with happens-before state caching",
    "hist": "model checking of the implementation against a reference model: all operation histories up to a depth, and schedules within a deviation bound",
    "race": "stateless model checking of the implementation with a happens-before race detector on every explored schedule",
}
TECH = dict(C01="input", C02="input", C03="input", C04="input", C06="hist", C16="hist", C19="hist", C18="race", C09="hist", C17="hist")
NOTE = ("Real code, rewritten so that the explorer schedules goroutines, channels, locks, timers and the network; every execution within "
        "the stated bounds is run. Trusted: Go compiler, rewriter and shims (litmus programs in setup_cmd), simulated stream network.")
CLAIMED = os.environ.get("CLAIM", "").split() or [p["id"] for p in props]
m = dict(version=1, setup_cmd="python3 check.py --selftest",
         hooks=dict(guard="verif", enable="no hooks in /repo: the checks rewrite a scratch copy of /repo's working tree", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i not in CLAIMED:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
        continue
    m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                            technique=T[TECH.get(i, "sched")], level="model_checking", level_note=NOTE))
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
