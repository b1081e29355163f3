#!/usr/bin/env python3
"""writes MANIFEST.json from props.PROPS and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 run/setup.py",
         hooks=dict(guard="VF_NONE", enable="no hooks: the public interface exposes the abstract state; /repo carries only fix: commits", source_commits=[]),
         checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 run/check.py {i} quick", thorough_cmd=f"python3 run/check.py {i} thorough",
                                technique=p.get("technique", "explicit TLA+ specification; TLC validates traces of the real code against it"),
                                level="model_checking", level_note=p.get("note", "Every recorded execution is checked step by step by TLC against the specification; inputs are randomly generated within small bounds (registers of at most 5 qubits). Trusts TLC, the specification, and the driver's recording of results.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
