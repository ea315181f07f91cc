"""Writes MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from check import PLAN  # noqa: E402

checks = []
for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf8"):
    p = json.loads(l)["id"]
    models = " and ".join(m[0] + "".join("(%s)" % v for v in m[1].values()) for m in PLAN[p]["models"])
    extra = " Free-running concurrent builds under the race detector are judged by the same specification." if p == "C11" else ""
    checks.append({
        "property": p,
        "quick_cmd": "python3 check.py %s" % p,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
        "technique": "TLA+ specification checked with TLC; behaviours of it replayed on the real code and recorded traces validated against it",
        "level": "model_checking",
        "level_note": ("The specification is checked exhaustively within the bounds of %s; the real code is bound to it by replaying behaviours of the model "
                       "and seeded random histories and validating every recorded call with TLC.%s Assurance for the code is bounded by the histories run; "
                       "the harness and TLC are trusted." % (models, extra)),
    })
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": [],
           "notes": "No hooks are needed in the repository: everything is observed through its public API."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
