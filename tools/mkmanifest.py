#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TA = "stateless model checking: all thread interleavings, faults and timings of the compiled code up to a deviation bound"
TB = "explicit enumeration of all operation sequences / inputs up to a depth on the compiled code against a reference model"
NA = "Explores the compiled implementation itself (rebuilt from /repo): every execution inside the stated deviation bound of each scenario is run under a controlled scheduler, virtual clock and virtual kernel, with oracle, data-race, use-after-free, leak, deadlock and descriptor monitors. Trusts the virtual kernel and the scenarios' reach; says nothing beyond the bounds."
NB = "Runs the compiled implementation (rebuilt from /repo, address and undefined-behaviour sanitizers) on every operation sequence or input of the stated alphabet and depth and compares each step with an independent reference model. Says nothing beyond that alphabet and depth."
HOOK = "ef9d19c842f1c4f7384ba1785fdd803c445131a9"
ch, na = [], []
for p in props:
    i = p["id"]
    if i in checks.PARTS:
        es = {x[0] for x in checks.PARTS[i]}
        ch.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": " + ".join(([TA] if "a" in es else []) + ([TB] if "b" in es else [])),
                   "level": "model_checking", "level_note": " ".join(([NA] if "a" in es else []) + ([NB] if "b" in es else []))})
    else: na.append({"property": i, "reason": checks.NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "KANON_VERIF", "enable": "the checks compile /repo's sources with -DKANON_VERIF; the only hook lets the checks of P21, P22 and P23 also define KANON_VERIF_LARGE_STREAM_SIZE=256, the size of the buffers of the asynchronous log", "source_commits": [HOOK]},
     "checks": ch, "not_applicable": na,
     "notes": "Engines: engine_a (controlled scheduler and virtual kernel, model checks interleavings), engine_b (enumerates operation sequences). check.py builds from /repo's working tree into build/ (ignored by git)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(ch), "claimed,", len(na), "not")
