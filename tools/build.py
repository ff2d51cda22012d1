"""Writes properties.jsonl and MANIFEST.json from catalog.py."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS  # noqa: E402

with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        rec = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                "observe_at": p["observe"],
                "hook_needed": None,
            },
        }
        fh.write(json.dumps(rec) + "\n")

checks, na = [], []
for p in PROPS:
    if os.path.exists(os.path.join(ROOT, "props", p["id"].lower() + ".py")):
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": f"bash run.sh {p['id']} quick",
                "thorough_cmd": f"bash run.sh {p['id']} thorough",
                "technique": "property-based testing (Hypothesis, shrinking): " + p["oracle"],
                "level": "exploration",
                "level_note": "Search over generated inputs, no proof; " + p["cost"]
                + ". Trusts skyfield/sgp4/shapely/pandas and an analytic solar ephemeris in place of the absent de421 kernel.",
            }
        )
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "bash setup.sh",
            "checks": checks,
            "not_applicable": na,
            "notes": "All checks import tatc from /repo/src at run time; no hooks in /repo are needed.",
        },
        fh,
        indent=1,
    )
    fh.write("\n")

with open(os.path.join(ROOT, "known_findings.txt"), "w", encoding="utf-8") as fh:
    with open(os.path.join(HERE, "fixes.txt"), encoding="utf-8") as src:
        for line in src:
            commit, prop, what = line.strip().split(" ", 2)
            fh.write(f"fixed: property={prop} {commit} {what}\n")
    path = os.path.join(HERE, "known.jsonl")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as src:
            fh.write(src.read())
