"""Rewrite section 4 of DESIGN.md (between the markers) from notes.py, the bounds and the docstrings."""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE)]
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
from notes import N
from props import P


def scan():
    info = {}
    for f in sorted(glob.glob(os.path.join(HERE, "..", "harnesses", "[vt]*.py"))):
        pid = os.path.basename(f)[:3].upper()
        m, hs = {}, []
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "meta":
                for k in n.value.keywords:
                    try:
                        m[k.arg] = ast.literal_eval(k.value)
                    except ValueError:
                        pass
            if isinstance(n, ast.FunctionDef) and any("harness" in ast.dump(d) for d in n.decorator_list):
                d = (ast.get_docstring(n) or "").replace("\n", " ").strip()
                hs.append(f"`{n.name}`" + (f" ({d})" if d else ""))
        info[pid] = (m, hs)
    return info


def main():
    info = scan()
    out = []
    for p in P:
        if p["na"]:
            continue
        m, hs = info[p["id"]]
        orc, why = N[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n{orc} Beyond tests: {why}.\n\n- Harnesses: {'; '.join(hs)}.\n- Bounds: {m['bounds']}.\n- Outside: {m['outside']}.\n")
    out.append("### Not claimed\n")
    for p in P:
        if p["na"]:
            out.append(f"- {p['id']} {p['title']}: {p['na']}")
    path = os.path.join(HERE, "..", "DESIGN.md")
    s = open(path).read()
    a, b = "<!-- section 4: written by tools/design.py -->\n", "<!-- end of section 4 -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + "\n".join(out) + "\n\n" + s[j:]
    a, b = "<!-- seeded -->\n", "<!-- end seeded -->\n"
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + "\n" + seeded() + "\n" + s[j:]
    open(path, "w").write(s)


def seeded():
    rp = os.path.join(HERE, "seeded_results.json")
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    rows = ["| planted bug | property | needs | outcome of the quick check (harnesses) |", "|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(HERE, "..", "seeded", "*", "meta.json"))):
        b, m = os.path.basename(os.path.dirname(f)), json.load(open(f))
        r = res.get(b)
        o = "not run" if not r else f"caught ({', '.join(r['harnesses'])})" if r["exit"] == 1 else "missed"
        rows.append(f"| {b} | {m['property']} | {m['needs']} | {o} |")
    return "\n".join(rows) + "\n"


if __name__ == "__main__":
    main()
