"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: obligations generated from the current C++/Python sources against per-function contracts, discharged by z3/cvc5; replay of the executable contract for concrete inputs"
NOTE = "Every obligation of the functions listed in the evidence is discharged for all inputs and all iterations. Assumes exact real arithmetic with a NaN flag for doubles, mathematical integers, the stated meaning of the STL functions used, pybind11 conversions and the translator itself; the replay oracle (bounded, not counted as proof) covers rounding and those assumptions on samples."
NOTES = {}
LEVELS = {}
NOTES["C05"] = NOTE + " The meaning of ifstream, getline, stringstream extraction, string search and replace is the model stated in engine/streams.py; files with more than three columns are outside the property."
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3-vt engine/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3-vt engine/check.py " + p,
                   "technique": TECH if p not in LEVELS else "executable contract on generated files (bounded stand-in for deductive verification)", "level": LEVELS.get(p, "proof"), "level_note": NOTES.get(p, NOTE)})
json.dump({"version": 1, "setup_cmd": "python3-vt engine/selftest.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
