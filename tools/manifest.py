#!/usr/bin/env python3
"""writes MANIFEST.json from tools/props.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)
P = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(props, "NOT_APPLICABLE", {})
checks, na = [], []
for p in P:
    i = p["id"]
    if i not in props.PROPS:
        na.append({"property": i, "reason": NA[i]})
        continue
    q = props.PROPS[i]
    out = (" Outside the claim: " + q["outside"] + ".") if q["outside"] else ""
    ass = (" " + "; ".join(q["assumptions"]) + ".") if q["assumptions"] else ""
    checks.append({
        "property": i,
        "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the compiled code's LLVM IR, every assertion decided by z3, counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Bounded: " + q["bounds"] + "; in debug and release semantics unless the job list says otherwise." + out + ass +
                      " Trusts the executor's IR semantics (spot-checked natively on every path), rustc's lowering to IR and z3.",
    })
m = {"version": 1, "setup_cmd": "python3 tools/baabuild.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the harnesses use the public interface only. tools/check.py --replay FILE re-runs a recorded counterexample natively. Known findings and fixed defects: known_findings.txt; reasoning: DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
