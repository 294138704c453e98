#!/opt/venv/bin/python
"""Writes mimsim/schema.json: the documented settings (types, ranges, lists,
units, defaults) as they were when the properties were written.  It is an
oracle of its own: the checks never read the schema of the tree under test."""
import json
import os
import sys

import yaml

with open("/repo/mimosa/inputdata/config/config_default.yaml") as fh:
    doc = yaml.safe_load(fh)
leaves = []


def walk(node, path):
    for k, v in node.items():
        if isinstance(v, dict) and "type" in v and isinstance(v["type"], str):
            d = {a: b for a, b in v.items() if a in ("type", "min", "max", "unit", "can_be_false", "default")}
            if v["type"] == "enum":
                d["values"] = v["values"]
            leaves.append(dict(d, path=path + [k]))
        else:
            walk(v, path + [k])


walk(doc, [])
with open(os.path.join(os.path.dirname(__file__), "..", "mimsim", "schema.json"), "w") as fh:
    json.dump(leaves, fh, indent=0)
    fh.write("\n")
print(len(leaves))
