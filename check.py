#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [-v] [--only HARNESS] [--cap SECONDS] [--first]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env

env.setup()

import argparse

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--only")
ap.add_argument("--cap", type=float)
ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
ap.add_argument("--first", action="store_true", help="stop at first violation")
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
from symx import runner

sys.exit(
    runner.main(
        a.prop, a.tier, int(os.environ.get("VERIF_SEED") or 0), a.only, a.v, a.jobs, a.cap, a.first
    )
)
