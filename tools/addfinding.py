"""addfinding.py REPLAY 'what fails' [substring ...] : lists a violation in known_findings.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "known_findings.json")
doc = json.load(open(path)) if os.path.exists(path) else {"findings": [], "fixed": []}
r = json.load(open(sys.argv[1]))
doc["findings"] = [f for f in doc["findings"] if not (f["property"] == r["property"] and f["match"]["class"] == r["class"] and f["match"].get("contains", []) == sys.argv[3:])]
doc["findings"].append({"property": r["property"], "what": sys.argv[2], "match": {"class": r["class"], "contains": sys.argv[3:]}, "case": r["case"]})
json.dump(doc, open(path, "w"), indent=1)
