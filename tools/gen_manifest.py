#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a source file, the others under not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = {
    "default": "explicit-state model checking of the real code: breadth-first exploration of all operation histories up to state equivalence, compared with a reference model",
    "C13": "stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler, with vector-clock race detection",
    "C22": "explicit-state model checking: exhaustive enumeration of builder option sequences; each tree built is run and compared with the tree declared with all parameters at once",
    "C14": "explicit-state model checking of the real code with exhaustive fault enumeration: every state, every operation, every point at which it can fail",
}
NOTE = {
    "default": "Every operation enabled in every reachable state within the stated bounds is executed on the real objects and every answer compared; most explorations close (no new state exists within the element bound, so histories are unbounded). Trusts the reference model, the state equivalence (structure, sharing, flags, cached aggregates; element identity abstracted where the code never inspects it) and the compiler; node and element counts beyond the bounds are not covered.",
    "C13": "All schedules of the stated programs within the preemption bound, on code instrumented at every memory access; weak-memory effects are covered as data races under the C++ happens-before relation rather than by simulating reorderings.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "check_%s.cpp" % i)):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s --thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": "model_checking",
            "level_note": NOTE.get(i, NOTE["default"]),
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p build evidence", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo/include as it is. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
