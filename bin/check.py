#!/usr/bin/env python3
"""check.py <property-id> : run the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "checks"))
sys.dont_write_bytecode = True
import vc
pid = sys.argv[1]
mod = importlib.import_module(pid.lower())
vc.main(pid, mod.run)
