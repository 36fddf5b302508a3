"""regressions/<id>.json: minimal probes of the open findings (found with
Hypothesis) and, from the replay files given as arguments, shrunk inputs of
defects that were repaired.  Usage: make_regressions.py REPLAY.json ..."""
import importlib
import json
import os
import sys

import hypothesis
from hypothesis import HealthCheck, settings

from harness import core, main

out = {}
for f in sys.argv[1:]:
    r = json.load(open(f))
    if r.get("before"):
        continue
    out.setdefault(r["property"], []).append({"sub": r["sub"], "case": r["case"], "why": r["message"][:200]})
for k in range(1, 40):
    pid = f"C{k:02d}"
    try:
        prop = importlib.import_module(f"harness.props.c{k:02d}").PROP
    except ModuleNotFoundError:
        continue
    known = main.load_findings(pid)
    for kid in known:
        for sub in prop.subs:

            def hit(case):
                case = json.loads(core.case_json(case))
                try:
                    return kid in core.run_case(sub, case, set(known)).known
                except core.Violation:
                    return False

            try:
                c = hypothesis.find(sub.strategy, hit, settings=settings(max_examples=3000, deadline=None, database=None, suppress_health_check=list(HealthCheck)))
            except hypothesis.errors.NoSuchExample:
                continue
            c = json.loads(core.case_json(c))
            out.setdefault(pid, []).insert(0, {"sub": sub.name, "case": c, "why": f"known finding {kid}"})
            print(pid, kid, sub.name)
            break
for pid, lst in out.items():
    p = f"regressions/{pid}.json"
    old = json.load(open(p)) if os.path.exists(p) else []
    seen = {core.case_json([r["sub"], r["case"]]) for r in old}
    old += [r for r in lst if core.case_json([r["sub"], r["case"]]) not in seen]
    with open(p, "w") as f:
        json.dump(old, f, indent=0)
        f.write("\n")
