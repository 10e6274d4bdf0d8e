#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: run one property's check against /repo's current tree."""
import argparse, importlib, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, "sa"), os.path.join(V, "rules")]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from common import Check
ap = argparse.ArgumentParser(); ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a = ap.parse_args()
mod = importlib.import_module(a.property.lower())
c = Check(a.property, a.tier)
mod.run(c)
sys.exit(c.finish())
