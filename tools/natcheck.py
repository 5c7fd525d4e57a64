#!/usr/bin/env python3
"""natcheck.py [PID ...] [-n N]: run up to N cases of every harness natively on the clean tree (values drawn from a hash):
each must end normally.  This validates harnesses, models and the replay path against the compiled code; it decides nothing."""
import os, sys, subprocess, tempfile, random
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import jax, specs
a = sys.argv[1:]; n = 12
if "-n" in a: i = a.index("-n"); n = int(a[i + 1]); del a[i:i + 2]
snap = jax.Snapshot()
for pid, (_, hs) in sorted(specs.SPECS.items()):
    if a and pid not in a: continue
    for h in hs:
        try: exe = jax.native(snap, h, False)
        except Exception as e: print(pid, h.name, "BUILD", str(e)[-400:]); continue
        cs = list(h.quick); random.Random(1).shuffle(cs); cs = cs[:n]; out = []
        def one(c):
            w = tempfile.mktemp(); open(w, "w").write("".join("@%s %d\n" % k for k in c.items()))
            env = dict(os.environ, SYM_WITNESS=w, OMP_NUM_THREADS=str(h.threads), SYM_TOL=str(h.tol or 10 * jax.case_eps(h, c)))
            try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=200); rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired: rc, o = "timeout", ""
            os.unlink(w)
            if rc != 0 and "ASSUMPTION" not in o: out.append((c, rc, [l for l in o.split("\n") if "REPRO" in l][:1]))
        with ThreadPoolExecutor(8) as ex: list(ex.map(one, cs))
        print(pid, h.name, len(cs), "cases", len(out), "bad", [str(x)[:230] for x in out[:2]], flush=True)
