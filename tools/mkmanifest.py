"""writes MANIFEST.json (run from /verif): a check for every property with a harness file"""
import json
import os
import re

NA = {}
if os.path.exists("tools/not_applicable.json"):
    NA = json.load(open("tools/not_applicable.json"))
checks, na = [], []
for line in open("properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    f = f"harness/{i.lower()}.py"
    if os.path.exists(f):
        n = len(re.findall(r"^@harness", open(f).read(), re.M))
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "symbolic execution of the real PyTorch code, SMT (z3/cvc5) decides each assertion", "level": "other",
                       "level_note": f"{n} solver harnesses in {f}; exact reals instead of floats, tensor sizes and ranges bounded as each harness states; undecided obligations are listed as inconclusive in the evidence"})
    else:
        na.append({"property": i, "reason": NA.get(i, "no harness yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Checks run /repo's source in place through /opt/venv/bin/python; nothing is built into /repo."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
