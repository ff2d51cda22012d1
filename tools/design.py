"""Writes DESIGN.md."""

import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import PROPS  # noqa: E402


def module(pid):
    with open(os.path.join(ROOT, "props", pid.lower() + ".py"), encoding="utf-8") as fh:
        tree = ast.parse(fh.read())
    out = {"ASSUMPTIONS": [], "RULE": "", "SUBS": []}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in out:
            name = node.targets[0].id
            if name == "RULE":
                out[name] = ast.literal_eval(node.value)
            elif name == "ASSUMPTIONS":
                for sub in ast.walk(node.value):
                    if isinstance(sub, ast.Constant) and isinstance(sub.value, str):
                        out[name].append(sub.value)
            else:
                for sub in ast.walk(node.value):
                    if isinstance(sub, ast.Call) and getattr(sub.func, "id", "") == "Sub":
                        quick = [k.value.value for k in sub.keywords if k.arg == "quick"]
                        out[name].append((sub.args[0].value, quick[0] if quick else None))
    return out


with open(os.path.join(HERE, "design_head.md"), encoding="utf-8") as fh:
    text = fh.read()
text += "## Properties\n\n"
for p in PROPS:
    m = module(p["id"])
    text += f"### {p['id']} {p['title']}\n\n"
    text += f"- Over: {p['text']}.\n"
    text += f"- Oracle: {p['oracle']}.\n"
    text += "- Generated (quick): " + ", ".join(f"{n} {q} cases" for n, q in m["SUBS"]) + f". Non-trivial: {m['RULE']}.\n"
    text += f"- Bounds and cost: {p['cost']}.\n"
    if m["ASSUMPTIONS"]:
        text += "- Assumptions: " + "; ".join(m["ASSUMPTIONS"]) + ".\n"
    text += f"- Beyond the tests: {p['why']}\n\n"
text += "## Planted bugs\n\nEach was confirmed to pass the stable tests, with a demonstration that fails with it\nand passes without it. \"Caught by\" lists checks whose quick run reports it; the\nmisses met on the way, and what they led to, follow the table.\n\n"
text += "| planted bug | breaks | needs | caught by |\n|---|---|---|---|\n"
sd = os.path.join(ROOT, "seeded")
res = {}
path = os.path.join(HERE, "caught.json")
if os.path.exists(path):
    with open(path, encoding="utf-8") as fh:
        res = json.load(fh)
for d in sorted(os.listdir(sd)):
    with open(os.path.join(sd, d, "meta.json"), encoding="utf-8") as fh:
        meta = json.load(fh)
    text += f"| {d} | {meta['what_it_breaks']} | {meta['needs']} | {res.get(d, '?')} |\n"
with open(os.path.join(HERE, "design_tail.md"), encoding="utf-8") as fh:
    text += "\n" + fh.read()
with open(os.path.join(ROOT, "DESIGN.md"), "w", encoding="utf-8") as fh:
    fh.write(text)
