#!/usr/bin/env python3
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jax, specs
a = argparse.ArgumentParser(); a.add_argument("pid"); a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); a = a.parse_args()
lvl, hs = specs.SPECS[a.pid]
sys.exit(jax.check(a.pid, hs, a.tier, lvl))
