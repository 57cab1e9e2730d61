#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOT = {}
checks, na = [], []
for line in open(f"{HERE}/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(f"{HERE}/checks/{i.lower()}.py") and i not in NOT:
        m = importlib.import_module(f"checks.{i.lower()}")
        designs = sorted({d[0] for t in m.DESIGN.values() for d in t})
        traces = m.TRACE if isinstance(m.TRACE, str) else ", ".join(m.TRACE)
        checks.append(dict(
            property=i, quick_cmd=f"bin/check {i} quick", thorough_cmd=f"bin/check {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=f"TLA+ specification: TLC model checking ({', '.join(designs)}) and TLC "
                      f"trace validation of real executions ({traces})",
            level=m.LEVEL,
            level_note=getattr(m, "NOTE", None) or (
                "TLC checks the bounded design exhaustively; the real code is decided on every "
                "recorded execution by trace validation, not for inputs outside the generated "
                "ones. " + " ".join(a.rstrip(".") + "." for a in m.ASSUMPTIONS))))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "check not built yet")))
man = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
           notes="Checks drive the public interfaces of the staged current tree; no hooks are "
                 "needed. Known findings and repaired defects: known_findings.txt.")
json.dump(man, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
