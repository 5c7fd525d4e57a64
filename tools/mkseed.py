#!/usr/bin/env python3
"""mkseed.py SEED PID HARNESS "k=v k=v" "needs" "what it breaks"  -- turn the diff in /tmp/wt into a planted bug whose
demonstration is one concrete run of a harness; checks: applies, builds, demo fails with it and passes without."""
import os, shutil, subprocess, sys, json, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import jax, specs
sid, pid, hn, case, needs, breaks = sys.argv[1:7]
h = next(x for x in specs.SPECS[pid][1] if x.name == hn)
d = os.path.join(jax.VERIF, "seeded", sid); os.makedirs(d, exist_ok=True)
df = subprocess.run(["git", "-C", "/tmp/wt", "diff"], capture_output=True, text=True).stdout
if df.strip(): open(os.path.join(d, "patch.diff"), "w").write(df)
kit = os.path.join(d, "kit"); shutil.rmtree(kit, ignore_errors=True); os.makedirs(kit)
os.makedirs(kit + "/harness"); os.makedirs(kit + "/models"); os.makedirs(kit + "/shim/utils")
need = {h.src, "sym.h", "sym_native.cpp"}; todo = [h.src]
while todo:
    s = open(os.path.join(jax.VERIF, "harness", todo.pop())).read()
    for i in re.findall(r'#include "([\w./]+)"', s):
        if os.path.exists(os.path.join(jax.VERIF, "harness", i)) and i not in need: need.add(i); todo.append(i)
for x, _ in h.srcs():
    if os.path.isabs(x): os.makedirs(os.path.dirname(os.path.join(kit, os.path.relpath(x, jax.VERIF))), exist_ok=True); shutil.copy(x, os.path.join(kit, os.path.relpath(x, jax.VERIF)))
for f in need: shutil.copy(os.path.join(jax.VERIF, "harness", f), kit + "/harness")
for f in list(h.models) + ["base.h"] + [x for x in os.listdir(os.path.join(jax.VERIF, "models")) if x.endswith(".h")]: shutil.copy(os.path.join(jax.VERIF, "models", f), kit + "/models")
for f in os.listdir(os.path.join(jax.VERIF, "shimn/utils")): shutil.copy(os.path.join(jax.VERIF, "shimn/utils", f), kit + "/shim/utils")
open(d + "/case.txt", "w").write("".join("@%s %s\n" % tuple(k.split("=")) if "=" in k else "%s %s\n" % tuple(k.split(":")) for k in case.split()))  # name=parameter, name:value of a symbolic variable
L = ["#!/bin/bash", "# One concrete run of the real code against a direct evaluation of the specification.", "set -u", 'D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT',
     'INC="-I$D/kit/shim -I$R/include -I$R/lib -I$R -I$D/kit/harness -I$D/kit/models %s"' % " ".join(jax.MPIINC),
     'CF="-O1 -fopenmp -mavx2 -mfma -mcmodel=medium -std=gnu++14 -w -DUSE_PROP_RKN4"', "c() { o=$1; shift; g++ $CF $INC \"$@\" -c -o $W/$o.o || touch $W/bad; }"]
n = 0; hd = " ".join(h.defs)
for s, de in h.srcs() + [(os.path.join(jax.VERIF, "harness/sym_native.cpp"), [])]:
    p = s if not os.path.isabs(s) else '"$D/kit/%s"' % os.path.relpath(s, jax.VERIF)
    L.append("c o%d %s %s &" % (n, " ".join('"%s"' % x.replace('"', '\\"').replace(jax.VERIF + "/", "$D/kit/") for x in de), p)); n += 1
L += ["wait; [ -e $W/bad ] && exit 3", "g++ -fopenmp -mcmodel=medium -Wl,--unresolved-symbols=ignore-all -no-pie -o $W/demo $W/o*.o -lpthread %s|| exit 3" % (" ".join(getattr(h, "libs", [])) + " "),
      'cd $W && SYM_WITNESS="$D/case.txt" OMP_NUM_THREADS=%d timeout 250 ./demo | tail -5; [ ${PIPESTATUS[0]} = 0 ]' % h.threads]
open(d + "/demo.sh", "w").write("\n".join(L) + "\n"); os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": pid, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
