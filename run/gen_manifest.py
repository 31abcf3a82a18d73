#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed) and properties.jsonl (the rest)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props as P
V = os.path.dirname(HERE)
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in P.PROPS:
        p = P.PROPS[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 run/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run/check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real code",
                       "level": p.get("level", "exploration"),
                       "level_note": p.get("note", "every violation is gated by an exact re-run and a fresh-process replay; seeds are sampled, not exhausted; interleavings are sequentially consistent")})
    else:
        na.append({"property": i, "reason": P.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 run/build.py core full", "checks": checks, "not_applicable": na,
     "notes": "Commands run from /verif. Each check compiles /repo's current tree against the simulator in sim/ and searches seeds; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
