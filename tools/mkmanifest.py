#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, sys
from pathlib import Path
H = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(H))
from plan import PLAN, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(H / "properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --build",
         checks=[], not_applicable=[])
for p in props:
    if p in PLAN:
        d = PLAN[p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
                                evidence_file="evidence/%s.json" % p, technique=d.get("technique", "runtime monitoring: " + d["rule"].split(";")[0][:150]), level=d["level"], level_note=d.get("note", "Bounded by the generated workloads of the run; trusts the reference oracle in harness/ and the compiler's sanitizers.")))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
(H / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
