#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py and the harness meta data."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import P  # noqa

TV = "symbolic execution of the real functions (numbers are SMT terms inside the real pandas/pint containers) + z3"
TT = "symbolic execution of the real functions over symbolic timestamps (integer calendar arithmetic) + z3"


def metas():
    """bounds etc. without importing portfolyo"""
    import ast

    out = {}
    for f in sorted(glob.glob(HERE + "/harnesses/[vt]*.py")):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "meta":
                out[ast.literal_eval(n.args[0])] = {k.arg: ast.literal_eval(k.value) for k in n.keywords if isinstance(k.value, (ast.Constant, ast.List))}
    return out


def main():
    m = metas()
    lines, checks, na = [], [], []
    for p in P:
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }, ensure_ascii=False))
        assert len(p["title"]) <= 80, p["id"]
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        b = m[p["id"]]
        t = p["id"][0] == "T"
        trust = "Trusts z3, the Python interpreter and " + (
            "the model of timestamps and time zones (a model of each explored path is run through the real pandas and compared)" if t else
            "pandas / pint for everything but the numbers; arithmetic is over exact reals, so float rounding is outside; each explored path is replayed concretely")
        checks.append({
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TT if t else TV,
            "level": "model_checking",
            "level_note": f"All values within the bounds decided by the solver. Bounds: {b['bounds']}. Outside: {b['outside']}. {trust}.",
        })
    open(HERE + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
    json.dump({
        "version": 1,
        "setup_cmd": "python3 -m compileall -q symx harnesses check.py replay.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "Properties and bounds are explained in DESIGN.md. Genuine defects that were repaired in /repo (commits 'fix: ...') are listed in known_findings.txt.",
    }, open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks,", len(na), "not applicable")


main()
