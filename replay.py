#!/usr/bin/env python3
"""replay.py <replay.json>: run a reported counterexample on the real code with concrete inputs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env

env.setup()
import json

from symx import runner

d = json.load(open(sys.argv[1]))
runner.load_all()
h = next(x for x in runner.REG[d["property"]] if x.name == d["harness"])
con = runner.replay_concrete(h, d["cfg"], d["model"])
for v in con.violations:
    print("REPRODUCED", v)
print("violations:", len(con.violations), "assertions evaluated:", con.checked)
sys.exit(1 if con.violations else 0)
