"""Writes /verif/MANIFEST.json from the contracts that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, "..")
sys.path.insert(0, ROOT)
from pyvc.harness import collect
NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(ROOT, "contracts", pid.lower() + ".py")
    if pid in NOT_APPLICABLE or not os.path.exists(f):
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no contract written yet")})
        continue
    m = importlib.import_module("contracts." + pid.lower())
    hs = collect(m)
    proved = [h.name for h in hs if h.prove]
    bounded = [h.name for h in hs if h.fuzz and not h.prove]
    note = getattr(m, "NOTE", "")
    note += (" " if note else "") + f"Contracts discharged by the solver: {', '.join(proved) or 'none'}."
    if bounded:
        note += f" Bounded stand-ins (same contracts evaluated on runs of the real code, not counted as proved): {', '.join(bounded)}."
    note += " Assumes exact real arithmetic and the numpy contracts in pyvc; see DESIGN.md."
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                   "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification (verification conditions from the real Python source, z3/cvc5), with labelled bounded stand-ins on the real code"),
                   "level": getattr(m, "LEVEL", "proof" if proved else "exploration"), "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: contracts are kept beside the code in /verif/contracts and the functions are read from /repo/src at every run."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
