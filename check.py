#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of properties.jsonl on /repo's current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ.setdefault("VERIF_TIER", sys.argv[2])
p = sys.argv[1]
if p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    from vp import sn
    sys.exit(sn.check(p))
from vp import gw
sys.exit(gw.check(p))
