#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree (tier from VERIF_TIER)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "--thorough" in sys.argv:
    os.environ["VERIF_TIER"] = "thorough"
import vlib
prop = sys.argv[1]
mod = importlib.import_module("checks." + prop.lower())
vlib.main(prop, mod.run)
