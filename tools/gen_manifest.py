#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (one entry per claimed property)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
T = {}
T["C01"] = ("exhaustive enumeration of bounded grammars x bounded trees on the real validator against a denotational reference model",
            "All pattern ASTs up to depth 2 over a representative atom set x all forests up to 3-4 nodes, wide operators to 70+ operands; bounded, complete within the bound.")
T["C02"] = ("exhaustive enumeration of bounded grammars x bounded trees, four engines against a denotational reference model",
            "As C01 at the sizes the automaton compiler and the uncached interpreter allow.")
T["C03"] = ("exhaustive enumeration of bounded grammars x bounded record-shaped trees, record engines against the reference model",
            "All trees whose sibling labels are unique, within the bound.")
T["C08"] = ("exhaustive enumeration of bounded grammars x bounded trees: simplified grammar against the reference model of the original",
            "General and record simplification, applied once and twice.")
NA = {}
exec(open(os.path.join(here, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_more.py")) else None
checks = []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                       "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
na = [{"property": i, "reason": NA.get(i, "not claimed yet: the check is still being built")} for i in ids if i not in T]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
