#!/usr/bin/env python3
"""Re-run a recorded counterexample against the real code: replay.py <dir>"""
import json, os, sys
import jax, specs
d = os.path.abspath(sys.argv[1]); r = json.load(open(os.path.join(d, "violation.json")))
h = next(h for p in specs.SPECS.values() for h in p[1] if h.name == r["harness"])
ok, why = jax.replay(jax.Snapshot(), h, r["case"], r["violation"], d)
print("reproduced" if ok else "not reproduced", why); sys.exit(1 if ok else 0)
