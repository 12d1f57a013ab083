#!/usr/bin/env python3
"""setup_cmd: builds the harness (every check does so too) and parses the specifications."""
import os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
import check
from plan import PLAN
for v in sorted({v for p in PLAN.values() for v in p.get("variants", ["sp"])}):
    check.build(v)
sys.exit(0)
