#!/usr/bin/env python3
"""Single source of the property catalogue: writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import registry  # noqa: E402

P = []
NA = []


def prop(pid, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=()):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": ["ticdat/" + f for f in files],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe)}})
    P[-1]["_t"], P[-1]["_n"], P[-1]["_na"] = technique, note, na


exec(open(os.path.join(HERE, "tools", "catalog_text.py"), encoding="utf-8").read())

with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
checks, na = [], []
for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in registry.RULES and not p["_na"]:
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "technique": "static analysis: " + p["_t"], "level": "other", "level_note": p["_n"]})
    else:
        na.append({"property": p["id"], "reason": p["_na"] or "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": checks, "not_applicable": na,
           "notes": "All checks parse /repo/ticdat/*.py on every run and never import or run it."},
          open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
print(len(P), "properties,", len(checks), "claimed,", len(na), "not applicable")
