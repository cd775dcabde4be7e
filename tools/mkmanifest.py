"""Writes MANIFEST.json from properties.jsonl and the contracts that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = sorted({f[:3].upper() for f in os.listdir(here + "/contracts") if f[0] == "p" and f.endswith(".py")})
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NOTES = {}
if os.path.exists(here + "/tools/level_notes.json"):
    NOTES = json.load(open(here + "/tools/level_notes.json"))
py = "/opt/venv/bin/python"
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(
            property=i, quick_cmd=f"{py} check.py {i} --tier quick", thorough_cmd=f"{py} check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique="contracts on the real foxes functions, symbolic execution to verification conditions, discharged by z3/cvc5",
            level="proof",
            level_note=NOTES.get(i, "All obligations over unbounded array sizes and real-valued inputs are discharged on every run from /repo's current source; "
                                    "trusted: the symbolic executor's numpy contracts, real arithmetic for floats, theory axioms, z3/cvc5; contracts marked bounded are not counted as proved.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, "no contracts built yet")))
m = dict(version=1, setup_cmd=f"{py} selftest.py --quick", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the contracts live in /verif/contracts and are checked against the functions imported from /repo's working tree.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])
