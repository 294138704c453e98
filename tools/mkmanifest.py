"""writes /verif/MANIFEST.json from the table of deciders"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import re
TABLE = re.findall(r'^    "([A-Z]\d\d)": \("(\w+)", "(\w+)"\)', open(os.path.join(HERE, "mimsim/props/__init__.py")).read(), re.M)
NOTES = json.load(open(os.path.join(HERE, "tools/levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
have = {a for a, _, _ in TABLE}
checks, na = [], []
for pid in ids:
    if pid in have:
        n = NOTES.get(pid, {})
        checks.append({
            "property": pid,
            "quick_cmd": f"./check.py --property {pid} --tier quick",
            "thorough_cmd": f"./check.py --property {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "deterministic simulation with fault injection: " + n["technique"],
            "level": n.get("level", "exploration"),
            "level_note": n["note"],
        })
    else:
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("reason", "no check built yet")})
doc = {
    "version": 1,
    "setup_cmd": "./check.py --setup",
    "hooks": {"guard": "none needed", "enable": "no hooks were added to /repo: the simulator uses Python's import-time seams (builtins.open, os.*, time.*, pyomo's solver and NEOS plugin registries, sys.settrace)", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one program, check.py; seeds derive from VERIF_SEED. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed:", [x["property"] for x in na])
