"""Common machinery: snapshot of /repo -> LLVM bitcode -> symbolic engine -> native replay -> evidence."""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("JAX_REPO", "/repo")
BUILD = os.environ.get("JAX_BUILD", os.path.join(VERIF, ".build"))
NPROC = int(os.environ.get("JAX_JOBS", "8"))
MPIINC = ["-I/usr/include/hdf5/openmpi", "-I/usr/lib/x86_64-linux-gnu/openmpi/include", "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi"]
CLANG = ["clang++-18", "-O1", "-fopenmp", "-mavx2", "-mfma", "-std=c++14", "-w", "-gline-tables-only", "-ferror-limit=0",
         "-Wno-argument-outside-range", "-fdiagnostics-print-source-range-info", "-fno-caret-diagnostics", "-emit-llvm", "-c"]
GCC = ["g++", "-O1", "-g", "-fopenmp", "-mavx2", "-mfma", "-mcmodel=medium", "-std=gnu++14", "-w", "-c"]
BASEDEF = ["-DUSE_PROP_RKN4"]


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def tree_hash():
    h = hashlib.sha256()
    for d in ("include", "lib"):
        for root, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".cpp", ".c", ".hpp", ".txt")):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-j%d" % NPROC, "-C", os.path.join(VERIF, "engine"), "OUT=" + os.path.join(BUILD, "engine")])
        if r.returncode:
            raise RuntimeError("engine build failed:\n" + r.stdout[-3000:])
    return os.path.join(BUILD, "engine", "jaxsym")


def fix_loops(top):
    """clang 18 miscounts OpenMP loops whose counter is a 32-bit unsigned, whose bound is 64-bit and whose
    step is not 1 (it zero-extends lower-1); widening the counter in the scratch copy avoids that."""
    for root, ds, fs in os.walk(top):
        for f in fs:
            if not f.endswith((".h", ".cpp", ".hpp")): continue
            p = os.path.join(root, f); s = open(p, encoding="latin-1").read()
            t = re.sub(r"(for\s*\(\s*)(?:uint32_t|uint|unsigned\s+int|unsigned(?!\s+(?:long|char|short)))(\s+\w+\s*=[^;]*;[^;]*;[^;)]*\+=)", r"\1size_t\2", s)
            # keep the vector sine/cosine out of line so that the engine can treat them as functions
            t = re.sub(r"^inline(\s+_MData_\s+opCode\((?:sin|cos)_p[sd]\b)", r"__attribute__((noinline)) inline\1", t, flags=re.M)
            if t != s: open(p, "w", encoding="latin-1").write(t)


class Snapshot:
    """Scratch copy of the sources; clang rejects arithmetic on void*, which g++ accepts as byte
    arithmetic, so those expressions are rewritten to (char*) at clang's own error locations."""
    def __init__(self):
        self.h = hashlib.sha256((tree_hash() + open(os.path.abspath(__file__)).read()).encode()).hexdigest()[:16]
        self.dir = os.path.join(BUILD, "src-" + self.h)
        self.lock = threading.Lock(); self.futs = {}
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.isdir(self.dir):
                for o in glob.glob(os.path.join(BUILD, "src-*")):
                    if time.time() - os.path.getmtime(o) > 1800 or len(glob.glob(os.path.join(BUILD, "src-*"))) > 6:
                        shutil.rmtree(o, ignore_errors=True)
                tmp = self.dir + ".tmp%d" % os.getpid()
                for d in ("include", "lib"):
                    shutil.copytree(os.path.join(REPO, d), os.path.join(tmp, d), ignore=shutil.ignore_patterns("cub", "*.o", "*.a"))
                fix_loops(tmp)
                os.rename(tmp, self.dir)
        self.pool = cf.ThreadPoolExecutor(NPROC)

    def fix_voidptr(self, out):
        n = 0; edits = {}
        for m in re.finditer(r"^(\S+?):(\d+):(\d+):((?:\{[^}]*\})+): error: arithmetic on a pointer to void", out, re.M):
            f, rng = m.group(1), re.findall(r"\{(\d+):(\d+)-(\d+):(\d+)\}", m.group(4))
            r = [int(x) for x in rng[0]]
            if r[0] == r[2]:
                edits.setdefault(f, set()).add((r[0], r[1], r[3], "char"))
        if not edits:
            for m in re.finditer(r"^(\S+?):(\d+):(\d+):((?:\{[^}]*\})+): error: static_cast from 'char \*' to '\w+ \*' is not allowed", out, re.M):
                r = [int(x) for x in re.findall(r"\{(\d+):(\d+)-(\d+):(\d+)\}", m.group(4))[1]]
                if r[0] == r[2]: edits.setdefault(m.group(1), set()).add((r[0], r[1], r[3], "void"))
        for f, es in edits.items():
            p = os.path.join(self.dir, f) if not os.path.isabs(f) else f
            if True:
                L = open(p, encoding="latin-1").read().split("\n")
                for (ln, a, b, ty) in sorted(es, reverse=True):
                    s = L[ln - 1]; e = s[a - 1:b - 1]
                    if e.startswith("((%s *)(" % ty): continue
                    L[ln - 1] = s[:a - 1] + "((" + ty + " *)(" + e + "))" + s[b - 1:]; n += 1
                q = p + ".new%d.%d" % (os.getpid(), threading.get_ident())
                open(q, "w", encoding="latin-1").write("\n".join(L)); os.rename(q, p)
        return n

    # Compilers and checks run side by side on one snapshot: a source is only ever replaced whole, and an edit is
    # only derived from messages about the version still in place.
    def generation(self):
        try: return open(os.path.join(self.dir, "generation")).read()
        except OSError: return "0"

    def amend(self, gen, out):
        with open(os.path.join(self.dir, "edit.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if self.generation() != gen: return True
            if not self.fix_voidptr(out): return False
            q = os.path.join(self.dir, "generation")
            open(q + ".new", "w").write(str(int(gen) + 1)); os.rename(q + ".new", q)
            return True

    def _bc(self, src, defs, native, san):
        tag = hashlib.sha256((src + "|" + " ".join(defs) + str(native) + str(san) + (open(src).read() if os.path.isabs(src) else "") + "".join(open(d).read() for d in defs if os.path.isabs(d)) + open(os.path.join(VERIF, "harness/sym.h")).read() + open(os.path.join(VERIF, "shim/utils/logger.h")).read()).encode()).hexdigest()[:16]
        if os.path.isabs(src):
            for inc in glob.glob(os.path.join(os.path.dirname(src), "*.h")):
                tag += hashlib.sha256(open(inc, "rb").read()).hexdigest()[:4]
        out = os.path.join(self.dir, os.path.basename(src).replace(".cpp", "") + "-" + tag + (".o" if native else ".bc"))
        if os.path.exists(out): return out
        inc = ["-I", os.path.join(VERIF, "shim"), "-I", "include", "-I", "lib", "-I", ".", "-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "models")] + MPIINC
        tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        if native:
            cmd = [c for c in GCC] + (["-fsanitize=address"] if san else [])
            inc2 = [i if i != "-I" else i for i in inc]
            if "omp.h" in os.listdir(os.path.join(VERIF, "shim")):
                inc2 = [os.path.join(VERIF, "shimn") if i == os.path.join(VERIF, "shim") else i for i in inc]
            r = sh(cmd + BASEDEF + defs + inc2 + [src, "-o", tmp], cwd=REPO)
            if r.returncode: raise CompileError(src, r.stdout)
        else:
            for it in range(60):
                gen = self.generation()
                r = sh(CLANG + BASEDEF + defs + inc + [src, "-o", tmp], cwd=self.dir)
                if r.returncode == 0: break
                if not self.amend(gen, r.stdout): raise CompileError(src, r.stdout)
            else: raise CompileError(src, r.stdout)
        os.rename(tmp, out)
        return out

    def bc(self, src, defs=(), native=False, san=False):
        key = (src, tuple(defs), native, san)
        with self.lock:
            if key not in self.futs: self.futs[key] = self.pool.submit(self._bc, src, list(defs), native, san)
            return self.futs[key]


class CompileError(Exception):
    def __init__(self, src, out):
        errs = "\n".join(l for l in out.splitlines() if "error" in l)[:1500]
        super().__init__("%s does not compile: %s" % (src, errs or out[-800:]))


class H:
    """One harness: source, translation units of /repo it links, models, and the cases to run."""
    def __init__(self, name, src, tus=(), models=("base.cpp",), quick=({},), thorough=None, defs=(), tudefs=(), opts=(), eps=None, tmax=(150, 600), mem=True, note="", tol=None, threads=1, dbl=0):
        self.name, self.src, self.tus, self.models, self.defs, self.tudefs = name, src, list(tus), list(models), list(defs), list(tudefs)
        self.quick, self.thorough = list(quick), list(thorough if thorough is not None else quick)
        self.opts, self.eps, self.tmax, self.note, self.tol, self.threads, self.dbl = list(opts), eps, tmax, note, tol, threads, dbl

    def srcs(self):
        return [(t[0], list(t[1])) if isinstance(t, tuple) else (t, self.tudefs) for t in self.tus] + [(os.path.join(VERIF, "models", m), self.defs) for m in self.models] + [(os.path.join(VERIF, "harness", self.src), self.defs)]


def link(snap, h):
    files = [snap.bc(s, d).result() for s, d in h.srcs()]
    key = hashlib.sha256(" ".join(files).encode()).hexdigest()[:16]
    out = os.path.join(snap.dir, "link-%s-%s.bc" % (h.name, key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        r = sh(["llvm-link-18", "-o", tmp] + files)
        if r.returncode: raise RuntimeError("link failed for %s: %s" % (h.name, r.stdout[-1500:]))
        os.rename(tmp, out)
    return out


def native(snap, h, san):
    files = [snap.bc(s, d, True, san).result() for s, d in h.srcs() + [(os.path.join(VERIF, "harness/sym_native.cpp"), [])]]
    key = hashlib.sha256(" ".join(files).encode()).hexdigest()[:16]
    out = os.path.join(snap.dir, "nat-%s-%s" % (h.name, key))
    if not os.path.exists(out):
        tmp = out + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        r = sh(["g++", "-fopenmp", "-mcmodel=medium", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"] + (["-fsanitize=address"] if san else []) + ["-o", tmp] + files + ["-lpthread"])
        if r.returncode: raise RuntimeError("native link failed for %s: %s" % (h.name, r.stdout[-1500:]))
        os.rename(tmp, out)
    return out


def case_eps(h, case):
    """Relative tolerance that stands for rounding: by the precision of the case unless the harness sets it."""
    return h.eps or (1e-10 if case.get("dbl", h.dbl) else 1e-6)


def run_case(exe, mod, h, case, tier, seed, scratch, budget):
    out = os.path.join(scratch, "%s-%s.jsonl" % (h.name, hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
    if os.path.exists(out): os.unlink(out)
    tmax = min(h.tmax[0 if tier == "quick" else 1], budget)
    cmd = [exe, mod, "--out", out, "--seed", str(seed), "--tmax", str(tmax)] + h.opts
    cmd += ["--eps", str(case_eps(h, case))]
    for k, v in case.items(): cmd += ["-p", "%s=%d" % (k, v)]
    t = time.time(); dead = False
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, cwd=scratch)
    try: so = p.communicate(timeout=tmax + 60)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        dead = True; so = ""
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    if dead: p.communicate()
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try: recs.append(json.loads(l))
            except ValueError: pass
    if dead: recs.append({"t": "inc", "why": "engine run exceeded its time", "label": "", "stack": ""})
    elif not any(r["t"] == "stat" for r in recs): recs.append({"t": "inc", "why": "engine produced no statistics (exit %s) %s" % (p.returncode, so[-300:]), "label": "", "stack": ""})
    return {"h": h, "case": case, "recs": recs, "wall": time.time() - t}


def replay(snap, h, case, viol, rdir):
    """Native run of a counterexample against the real code. True if it reproduces."""
    os.makedirs(rdir, exist_ok=True)
    w = os.path.join(rdir, "witness.txt")
    with open(w, "w") as f:
        for k, v in case.items(): f.write("@%s %d\n" % (k, v))
        for k, v in viol["assign"].items(): f.write("%s %r\n" % (k, v))
    json.dump({"harness": h.name, "source": h.src, "case": case, "violation": viol}, open(os.path.join(rdir, "violation.json"), "w"), indent=1)
    if viol["kind"] == "race":
        # the schedule is the counterexample: two logical threads touch the same bytes without ordering
        open(os.path.join(rdir, "replay.txt"), "w").write("conflicting accesses: %s\n%s\n" % (viol["detail"], viol["stack"]))
        return True, "race: " + viol["detail"]
    san = viol["kind"] == "memory"
    try: exe = native(snap, h, san)
    except Exception as e: return False, "replay build failed: %s" % e
    env = dict(os.environ, SYM_WITNESS=w, OMP_NUM_THREADS=str(h.threads), MALLOC_PERTURB_=str(0xBE), ASAN_OPTIONS="detect_leaks=0:malloc_fill_byte=65:max_malloc_fill_size=1000000000:detect_stack_use_after_return=0:alloc_dealloc_mismatch=0")
    env["SYM_TOL"] = str(h.tol or 10 * case_eps(h, case))
    d = tempfile.mkdtemp(prefix="replay", dir=snap.dir)
    try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=120, cwd=d); o, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired: o, rc = "timeout", -999
    shutil.rmtree(d, ignore_errors=True)
    open(os.path.join(rdir, "replay.txt"), "w").write("exit %s\n%s" % (rc, o[-20000:]))
    with open(os.path.join(rdir, "run.sh"), "w") as f: f.write("#!/bin/sh\n# re-runs this counterexample against the real code\nexec python3 %s/replay.py '%s'\n" % (VERIF, rdir))
    if "ASSUMPTION NOT MET" in o: return False, "assumption not met in replay"
    if viol["kind"] == "memory":
        m = re.search(r"ERROR: AddressSanitizer[^\n]*", o)
        if m: return True, m.group(0)
        return False, "no memory error natively"
    if viol["kind"] in ("eq", "check"):
        m = re.search(r"REPRODUCED (.*)", o)
        if m: return True, m.group(1)
        if rc < 0 and rc != -999: return True, "native run died with signal %d" % -rc
        return False, "not reproduced natively (exit %s)" % rc
    if viol["kind"] in ("abort", "assert", "divzero"):
        if "HARNESS-END" not in o: return True, "abnormal end: exit %s" % rc
        return False, "native run ended normally"
    return False, "unknown kind"


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"KNOWN-FINDING: property=(\S+) harness=(\S+) label=(\S+)(?: case=(\S+))?\s*(.*)", l)
            if m and m.group(1) == pid: out.append({"harness": m.group(2), "label": m.group(3), "case": m.group(4), "text": m.group(5)})
    return out


def matches(k, r, v):
    if k["harness"] != r["h"].name or not re.fullmatch(k["label"], v["label"].replace(" ", "_")): return False
    if k["case"]:
        for kv in k["case"].split(","):
            a, b = kv.split("=")
            if str(r["case"].get(a)) not in b.split("|"): return False
    return True


def check(pid, harnesses, tier, level, statement=""):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total = float(os.environ.get("JAX_BUDGET", "700" if tier == "quick" else "7200"))
    exe = engine(); snap = Snapshot()
    scratch = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=BUILD)
    incs, results = [], []
    for h in harnesses:
        for s, d in h.srcs(): snap.bc(s, d)
    mods = {}
    for h in harnesses:
        try: mods[h.name] = link(snap, h)
        except CompileError as e: incs.append({"harness": h.name, "why": str(e)[:1500]}); print("NOT BUILT: harness %s\n%s" % (h.name, str(e)[-1200:]))
    jobs = [(h, c) for h in harnesses if h.name in mods for c in (h.quick if tier == "quick" else h.thorough)]
    only = os.environ.get("JAX_ONLY")
    if only: jobs = [(h, c) for h, c in jobs if re.search(only, h.name)]
    def go(hc):
        left = total - (time.time() - t0)
        if left < 5: return {"h": hc[0], "case": hc[1], "recs": [{"t": "inc", "why": "not run: check time budget used up", "label": "", "stack": ""}], "wall": 0}
        return run_case(exe, mods[hc[0].name], hc[0], hc[1], tier, seed, scratch, left)
    with cf.ThreadPoolExecutor(NPROC) as ex: results = list(ex.map(go, jobs))
    tot = {}; fns = {}; samples = []; viols = []; notes = []; vac = []
    for r in results:
        reach = set()
        for x in r["recs"]:
            if x["t"] == "stat":
                for k in ("insts", "eqs", "eqsNorm", "eqsLra", "eqsSplit", "eqsFull", "checks", "checksTrivial", "mem", "race", "forks", "queries", "sat", "unsat", "unknown", "solver"): tot[k] = tot.get(k, 0) + x[k]
                tot["paths"] = tot.get("paths", 0) + 1
                tot["vars"] = max(tot.get("vars", 0), x["vars"])
                for f in x["fns"]:
                    a, b = f.split("|", 1)
                    if a.startswith(("include/", "lib/")): fns.setdefault(a, set()).add(b)
            elif x["t"] == "inc": incs.append({"harness": r["h"].name, "case": r["case"], "why": x["why"], "label": x["label"], "stack": x.get("stack", "")[:300]})
            elif x["t"] == "reach": reach.add(x["label"])
            elif x["t"] == "viol": viols.append((r, x))
            elif x["t"] == "note": notes.append(x["text"])
        r["reach"] = reach
        if not reach and not any(x["t"] in ("viol", "inc") for x in r["recs"]): vac.append({"harness": r["h"].name, "case": r["case"], "why": "no path reached the end of the harness"})
    incs += vac
    if os.environ.get("JAX_VERBOSE"):
        for r in (results if len(results) < 80 else []): 
          if r["wall"] > 5 or any(x["t"] in ("viol", "inc") for x in r["recs"]): print("  %-28s %-60s %6.1fs %s" % (r["h"].name, r["case"], r["wall"], [x["t"] for x in r["recs"] if x["t"] != "note"][:6]))
        for n in notes[:60]: print("  note:", n)
        for r, x in viols[:12]: print("  viol:", r["h"].name, r["case"], x["kind"], x["label"], x["detail"][:200], x["stack"][:300])
        g = {}
        for i in incs: g.setdefault((i["harness"], i["why"][:200]), []).append(i)
        for k, v in list(g.items())[:15]: print("  inc x%d: %s" % (len(v), str(v[0])[:700]))
    # --- decide ---
    kf = known_findings(pid); hit = {}; out = []; unconf = []; seen = {}
    rbase = os.path.join(BUILD, "replays", pid); shutil.rmtree(rbase, ignore_errors=True)
    for r, v in viols:
        k = next((k for k in kf if matches(k, r, v)), None)
        if k: hit[id(k)] = k; continue
        key = (r["h"].name, v["kind"], re.sub(r"\[\d+\]", "", v["label"]))
        if seen.get(key, 0) >= 3 or len(out) >= 3: continue
        seen[key] = seen.get(key, 0) + 1
        rd = os.path.join(rbase, "%s-%d" % (r["h"].name, len(seen) * 10 + seen[key]))
        ok, why = replay(snap, r["h"], r["case"], v, rd)
        if ok: out.append((rd, r, v, why)); seen[key] = 99
        else: unconf.append({"harness": r["h"].name, "case": r["case"], "label": v["label"], "kind": v["kind"], "detail": v["detail"][:300], "why": why})
    for k in hit.values(): print("KNOWN-FINDING: property=%s %s [%s/%s]" % (pid, k["text"], k["harness"], k["label"]))
    for rd, r, v, why in out:
        print("VIOLATION property=%s replay=%s" % (pid, rd))
        print("  harness %s case %s: %s %s: %s; replay: %s" % (r["h"].name, r["case"], v["kind"], v["label"], v["detail"][:300], why))
        print("  at %s" % v["stack"][:400])
    for u in unconf: print("UNCONFIRMED (not reported): %s" % json.dumps(u)[:600])
    g = {}
    for i in incs: g.setdefault((i["harness"], i["why"][:120]), []).append(i)
    for k, v in list(g.items())[:12]: print("INCONCLUSIVE (%d): %s" % (len(v), json.dumps(v[0])[:400]))
    for r in results[:400]:
        st = [x for x in r["recs"] if x["t"] == "stat"]
        samples.append({"harness": r["h"].name, "case": r["case"], "paths": len(st), "equalities": sum(x["eqs"] for x in st), "assertions": sum(x["checks"] for x in st), "symbolic_variables": max([x["vars"] for x in st] or [0]), "queries": sum(x["queries"] for x in st), "solver_s": round(sum(x["solver"] for x in st), 2), "wall_s": round(r["wall"], 1)})
    nob = tot.get("eqs", 0) + tot.get("checks", 0) + tot.get("mem", 0) * 0
    cov = {"obligations": nob, "discharged": max(0, nob - len(viols) - len([i for i in incs if i.get("label")])),
           "evaluations": len(results), "distinct_nontrivial": sum(1 for s in samples if s["equalities"] + s["assertions"] > 0),
           "rule": "one evaluation = one symbolic execution case (sizes/options fixed, listed field values and parameters symbolic); non-trivial = it discharged at least one assertion",
           "checker_cmd": "python3 check.py %s --tier %s" % (pid, tier), "trusted_base": "clang 18 -O1 code generation, the jaxsym interpreter (/verif/engine), z3, the models in /verif/models, real-number reading of floating point with tolerance",
           "states": tot.get("paths", 0), "transitions": tot.get("insts", 0), "traces_validated_against_impl": sum(seen.values()) if seen else 0,
           "explanation": "symbolic execution of LLVM IR compiled from /repo on this run; assertions decided by z3 over all values in the stated ranges",
           "equalities": {"total": tot.get("eqs", 0), "identical_normal_form": tot.get("eqsNorm", 0), "linear_query": tot.get("eqsLra", 0), "case_split": tot.get("eqsSplit", 0), "full_query": tot.get("eqsFull", 0)},
           "assertions": {"total": tot.get("checks", 0), "decided_by_path_condition": tot.get("checksTrivial", 0)},
           "memory_accesses_checked": tot.get("mem", 0), "race_checked_accesses": tot.get("race", 0), "paths": tot.get("paths", 0), "forks": tot.get("forks", 0), "ir_instructions": tot.get("insts", 0),
           "solver": {"queries": tot.get("queries", 0), "sat": tot.get("sat", 0), "unsat": tot.get("unsat", 0), "unknown": tot.get("unknown", 0), "seconds": round(tot.get("solver", 0), 2)},
           "functions_encoded": {k: sorted(v)[:60] for k, v in sorted(fns.items())}, "bounds": [{"harness": h.name, "note": h.note} for h in harnesses],
           "samples": samples, "inconclusive": incs[:60], "unconfirmed": unconf, "known_findings_hit": [k["text"] for k in hit.values()], "violations": [{"replay": rd, "label": v["label"], "case": r["case"]} for rd, r, v, _ in out]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 1)}, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(scratch, ignore_errors=True)
    print("%s: %d cases, %d paths, %d obligations, %d queries, %.1fs solver, %d violations, %d inconclusive, %.1fs" % (pid, len(results), tot.get("paths", 0), nob, tot.get("queries", 0), tot.get("solver", 0), len(out), len(incs), time.time() - t0))
    sys.stdout.flush()
    return 1 if out else 2 if len(mods) < len(harnesses) else 0 # 2: some harness does not build against this tree, nothing was decided there
