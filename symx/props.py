# -*- coding: utf-8 -*-
"""Writes properties.jsonl and MANIFEST.json from the property modules' own PROP records.

Every harness module carries its property (PROP) next to the code that decides it, so that the
two committed listings cannot drift from what is checked:  python symx/props.py
"""
import ast
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def record(path):
    """The literal PROP of a harness module, read without importing the module."""
    with open(path) as f:
        tree = ast.parse(f.read())
    for st in tree.body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == "PROP":
            return ast.literal_eval(st.value)
    raise SystemExit("no PROP in " + path)


def main():
    props, checks, na = [], [], []
    d = os.path.join(ROOT, "harness")
    for f in sorted(os.listdir(d)):
        if not (f.startswith("p") and f.endswith(".py")):
            continue
        r = record(os.path.join(d, f))
        note = r.pop("level_note")
        tech = r.pop("technique", "symbolic execution of the real Python code (forking, z3 path conditions)")
        props.append(r)
        cmd = "%s symx/run.py %s --tier " % (PY, r["id"])
        checks.append({"property": r["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    with open(os.path.join(d, "not_applicable.json")) as f:
        for r in json.load(f):
            na.append({"property": r["id"], "reason": r.pop("reason")})
            props.append(r)
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for r in props:
            f.write(json.dumps(r) + "\n")
    man = {"version": 1, "setup_cmd": PY + " symx/selftest.py", "checks": checks, "not_applicable": na,
           "notes": "symx/ is the engine, harness/ the properties; see DESIGN.md"}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(props), "properties,", len(checks), "checks")


if __name__ == "__main__":
    sys.exit(main())
