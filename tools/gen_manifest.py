#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
T_EX = "bounded exhaustive enumeration of inputs, formats and settings, run on the real converter and judged by an independent reference model"
T_MC = "explicit-state exploration of the product of reference machines for the input and the converted chunk; traces replayed on stock Lua 5.1"
T_FE = "exhaustive fault enumeration on the real converter"
CODEC = "Trusts the independent chunk codec in /verif/model (bound to the stock loader in C20). Exhaustive within the stated bounds; larger inputs are not covered."
VM = "Decides every program and every environment answer within the bounds. Trusts the reference machines, which are bound to stock Lua 5.1.5 by trace replay and to the repository's Lua 5.0 fixtures."
C = {}
def c(id, level, tech, note): C[id] = (level, tech, note)
c("C02", EX, T_EX, CODEC)
c("C03", EX, T_EX, CODEC)
c("C04", EX, T_EX, CODEC)
c("C05", EX, T_EX, CODEC)
c("C07", EX, T_EX, "All sequences of four operand kinds with sizes around every limit; the reference rule is the documented one.")
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")) else None
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: every check drives the public lunify::unify. Exit 3: the machinery could not be built or run."}
for p in props:
    i = p["id"]
    if i in C:
        l, t, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} --quick", "thorough_cmd": f"bash check.sh {i} --thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is still being built"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
