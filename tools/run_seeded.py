"""Run the check of each planted bug against a scratch copy of /repo that has the bug; record the outcome.

usage: python3 tools/run_seeded.py [ID ...]; result in tools/seeded_results.json (used by tools/design.py).
Not part of any check.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main(ids):
    path = os.path.join(HERE, "seeded_results.json")
    res = json.load(open(path)) if os.path.exists(path) else {}
    sd = os.path.join(ROOT, "seeded")
    allids = sorted(d for d in os.listdir(sd) if os.path.isdir(os.path.join(sd, d)))
    for b in ids or allids:
        m = json.load(open(os.path.join(sd, b, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seeded_")
        sc = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", sc], check=True)
        subprocess.run(["git", "apply", os.path.join(sd, b, "patch.diff")], cwd=sc, check=True)
        r = subprocess.run(["python3", "check.py", m["property"]], cwd=ROOT, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=sc))
        lines = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        res[b] = dict(property=m["property"], exit=r.returncode, violations=len(lines))
        hs = set()
        for x in lines:
            f = re.search(r"replay=(\S+)", x)
            if f and os.path.exists(os.path.join(ROOT, f.group(1))):
                hs.add(json.load(open(os.path.join(ROOT, f.group(1)))).get("harness"))
        res[b]["harnesses"] = sorted(h for h in hs if h)
        print(b, res[b], flush=True)
        shutil.rmtree(tmp)
        json.dump({k: res[k] for k in sorted(res) if k in allids}, open(path, "w"), indent=1)


if __name__ == "__main__":
    main(sys.argv[1:])
