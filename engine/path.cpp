#include "interp.hpp"
#include <chrono>
#include <cmath>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

Path PATH; Report REP; Opts OPT;
static std::mt19937_64 RNG(12345);
static int OUTFD = -1;
static int NVIOL = 0;

std::string jstr(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
void emit(const std::string &l) {
  if (OUTFD < 0) { OUTFD = OPT.out.empty() ? 1 : open(OPT.out.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); }
  std::string x = l + "\n"; ssize_t k = write(OUTFD, x.data(), x.size()); (void)k;
}
void violation(const std::string &kind, const std::string &label, const std::map<int, double> *model, const std::string &detail) {
  std::string s = "{\"t\":\"viol\",\"kind\":" + jstr(kind) + ",\"label\":" + jstr(label) + ",\"detail\":" + jstr(detail) + ",\"stack\":" + jstr(backtrace()) + ",\"assign\":{";
  if (model) { bool first = true; char b[64]; for (auto &m : *model) { snprintf(b, 64, "%.17g", m.second); s += (first ? "" : ",") + jstr(VARS[m.first].name) + ":" + b; first = false; } }
  emit(s + "}}");
  if (++NVIOL >= OPT.maxViol) throw PathEnd{"violations"};
}
void inconclusive(const std::string &why, const std::string &label) { emit("{\"t\":\"inc\",\"why\":" + jstr(why) + ",\"label\":" + jstr(label) + ",\"stack\":" + jstr(backtrace()) + "}"); }

// ---- assignment pool: concrete assignments known to satisfy the current path ----
static std::vector<std::shared_ptr<Eval>> POOL; static bool poolInit = false;
static double rndVar(int v, bool wide = false) {
  const VarInfo &V = VARS[v]; std::uniform_real_distribution<double> U(0, 1);
  if (V.isInt) { double n = V.hi - V.lo; double x = V.lo + std::floor(U(RNG) * (n + 1)); int c = RNG() % 8; if (c == 0) x = V.lo; if (c == 1) x = V.hi; if (c == 2) x = V.lo + std::min(n, (double)(RNG() % 3)); return std::min(x, V.hi); }
  double lo = std::isfinite(V.lo) ? V.lo : -1, hi = std::isfinite(V.hi) ? V.hi : 1;
  double x = lo + (hi - lo) * U(RNG);
  // keep witnesses exactly representable in single precision
  float f = (float)x; if (f < lo || f > hi) return x; return f;
}
static void extendE(Eval &e) { while (e.vars.size() < VARS.size()) e.vars.push_back(rndVar(e.vars.size())); }
static bool satisfies(Eval &e) { extendE(e); for (E c : PATH.cons) if (!e.boolean(c)) return false; return true; }
static void poolEnsure() {
  if (poolInit) return; poolInit = true;
  for (int i = 0; i < 12; i++) { auto p = std::make_shared<Eval>(); extendE(*p); if (satisfies(*p)) POOL.push_back(p); }
}
static void poolAddModel(const std::map<int, double> &m) {
  auto p = std::make_shared<Eval>(); extendE(*p); for (auto &k : m) p->vars[k.first] = k.second;
  p->memo.clear(); p->imemo.clear(); p->bmemo.clear();
  if (satisfies(*p)) { POOL.push_back(p);
    for (int t = 0; t < 6; t++) { auto q = std::make_shared<Eval>(); q->vars = p->vars; for (auto &k : m) if (!VARS[k.first].isInt) { double s = std::pow(10., -1 - (int)(RNG() % 4)); double lo = VARS[k.first].lo, hi = VARS[k.first].hi; double x = q->vars[k.first] + s * (std::uniform_real_distribution<double>(-1, 1)(RNG)); if (std::isfinite(lo)) x = std::max(x, lo); if (std::isfinite(hi)) x = std::min(x, hi); q->vars[k.first] = x; } if (satisfies(*q)) POOL.push_back(q); } }
}
void addCons(E c) {
  if (isBConst(c)) return;
  if (N[c].op == BAND) { addCons(N[c].a); addCons(N[c].b); return; }
  if (!PATH.set.insert(c).second) return;
  PATH.cons.push_back(c);
  std::vector<std::shared_ptr<Eval>> keep; for (auto &p : POOL) { extendE(*p); if (p->boolean(c)) keep.push_back(p); } POOL.swap(keep);
}
static int known(E c) {
  if (isBConst(c)) return N[c].ival ? 1 : 0;
  if (PATH.set.count(c)) return 1; if (PATH.set.count(mkNot(c))) return 0;
  if (N[c].op == BNOT) { int k = known(N[c].a); return k < 0 ? k : !k; }
  if (N[c].op == BAND) { int a = known(N[c].a), b = known(N[c].b); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (N[c].op == BOR) { int a = known(N[c].a), b = known(N[c].b); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
  return -1;
}
// path constraints connected (by shared variables) with e
static std::string pathAsserts(SmtCtx &ctx, E extra) {
  std::string s; std::set<int> vs; if (extra) collectVars(extra, vs);
  static std::unordered_map<E, std::set<int>> cv;
  std::vector<char> used(PATH.cons.size(), extra ? 0 : 1); bool ch = true;
  if (extra) while (ch) {
    ch = false;
    for (size_t i = 0; i < PATH.cons.size(); i++) if (!used[i]) {
      auto &v = cv[PATH.cons[i]]; if (v.empty()) collectVars(PATH.cons[i], v);
      bool hit = false; for (int x : v) if (vs.count(x)) { hit = true; break; }
      if (hit) { used[i] = 1; vs.insert(v.begin(), v.end()); ch = true; }
    }
  }
  for (size_t i = 0; i < PATH.cons.size(); i++) if (used[i]) s += "(assert " + ctx.b(PATH.cons[i]) + ")\n";
  return s;
}
SatRes checkSat(E extra, std::map<int, double> *model, int to) {
  SmtCtx ctx; std::string s = pathAsserts(ctx, extra);
  if (extra) s += "(assert " + ctx.b(extra) + ")\n";
  return solve(ctx, s, to ? to : OPT.qTimeout, model, "path");
}
static bool poolHas(E c, bool val) { poolEnsure(); for (auto &p : POOL) { extendE(*p); if (p->boolean(c) == val) return true; } return false; }
static SatRes feasible(E c) {
  if (poolHas(c, true)) return SAT;
  std::map<int, double> m; SatRes r = checkSat(c, &m);
  if (r == SAT) { // remember the model if it numerically satisfies path and c
    poolAddModel(m);
  }
  return r;
}
static void waitChild(pid_t p) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) emit("{\"t\":\"inc\",\"why\":\"path process died (status " + std::to_string(st) + ")\",\"label\":\"\",\"stack\":\"\"}"); }
static std::vector<pid_t> KIDS;
void waitKids() { for (pid_t p : KIDS) waitChild(p); KIDS.clear(); }
void finishProcess(const std::string &why);
static long *SHARED = nullptr; // [0]=paths forked
#include <sys/mman.h>
void pathInit() { SHARED = (long *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); RNG.seed(OPT.seed); }
// returns true in the child
static bool forkPath() {
  flushEq();
  if (__sync_add_and_fetch(&SHARED[0], 1) > OPT.maxPaths) throw Inconclusive("path limit reached");
  REP.forks++;
  bool par = __sync_add_and_fetch(&SHARED[1], 1) < OPT.procs;
  pid_t p = fork();
  if (p < 0) throw Inconclusive("fork failed");
  if (p == 0) { KIDS.clear(); solverAfterFork(); RNG.seed(getpid()); REP = Report(); NVIOL = 0; return true; }
  if (par) { KIDS.push_back(p); }
  else { waitChild(p); }
  return false;
}
void procDone() { __sync_sub_and_fetch(&SHARED[1], 1); }
bool branchOn(E c, const char *what) {
  int k = known(c); if (k >= 0) return k;
  E nc = mkNot(c);
  SatRes t = feasible(c), f = feasible(nc);
  if (t == UNSAT && f == UNSAT) throw PathEnd{"infeasible"};
  if (t == UNSAT) { addCons(nc); return false; }
  if (f == UNSAT) { addCons(c); return true; }
  if (forkPath()) { addCons(nc); return false; }
  addCons(c); return true;
}
int64_t concretize(E e, int w, const char *what) {
  if (isIConst(e)) return N[e].ival;
  for (int it = 0; it < OPT.maxConc; it++) {
    poolEnsure(); i128 v; bool got = false;
    for (auto &p : POOL) { extendE(*p); v = p->integer(e); if (v >= N[e].lo && v <= N[e].hi) { got = true; break; } }
    E eq = 0;
    if (got) { eq = mkIEq(e, mkIConst(v)); }
    else {
      // ask the solver for a value: assert definition through a fresh variable
      SmtCtx ctx; std::string s = pathAsserts(ctx, e); std::string x = ctx.i(e);
      int fv = VARS.size(); mkIVar("__conc", (int64_t)std::max(N[e].lo, (i128)INT64_MIN), (int64_t)std::min(N[e].hi, (i128)INT64_MAX));
      s += "(assert (= " + ctx.var(fv) + " " + x + "))\n";
      std::map<int, double> m; SatRes r = solve(ctx, s, OPT.qTimeout, &m, "conc");
      if (r == UNSAT) throw PathEnd{"infeasible"};
      if (r == UNKNOWN) throw Inconclusive(std::string("cannot concretise ") + what);
      v = (i128)(long long)m[fv]; poolAddModel(m);
      eq = mkIEq(e, mkIConst(v));
    }
    int k = known(eq); if (k == 1) return (int64_t)v;
    E ne = mkNot(eq); SatRes o = feasible(ne);
    if (o == UNSAT) { addCons(eq); return (int64_t)v; }
    if (forkPath()) { addCons(ne); continue; }   // child: other values
    addCons(eq); return (int64_t)v;
  }
  throw Inconclusive(std::string("too many values for ") + what);
}
void assumeCond(E c) {
  int k = known(c); if (k == 1) return; if (k == 0) throw PathEnd{"assume"};
  addCons(c);
  poolEnsure();
  if (POOL.empty()) { std::map<int, double> m; SatRes r = checkSat(c, &m); if (r == UNSAT) throw PathEnd{"assume"}; if (r == SAT) poolAddModel(m); }
}
static std::map<int, double> toModel(Eval &e) { std::map<int, double> m; for (size_t i = 0; i < e.vars.size(); i++) m[i] = e.vars[i]; return m; }
static std::map<int, double> complete(std::map<int, double> m) { for (size_t i = 0; i < VARS.size(); i++) if (!m.count(i)) m[i] = POOL.empty() ? rndVar(i) : (extendE(*POOL[0]), POOL[0]->vars[i]); return m; }
void refreshPool(int n) {
  poolEnsure();
  for (int t = 0; t < n * 4 && (int)POOL.size() < n; t++) { auto p = std::make_shared<Eval>(); extendE(*p); if (satisfies(*p)) POOL.push_back(p); }
  if (POOL.empty()) { std::map<int, double> m; if (checkSat(0, &m) == SAT) poolAddModel(m); }
}
void symCheck(E c, const std::string &label) {
  REP.checks++;
  int k = known(c);
  if (k == 1) { REP.checksTrivial++; return; }
  if (k == 0) { refreshPool(4); std::map<int, double> m; if (!POOL.empty()) m = toModel(*POOL[0]); violation("check", label, &m, "condition is false on this path"); return; }
  E nc = mkNot(c);
  poolEnsure();
  for (auto &p : POOL) { extendE(*p); if (!p->boolean(c)) { auto m = toModel(*p); // solver confirms that the assignment space contains a violation
      violation("check", label, &m, "counterexample: " + exprStr(nc, 4)); addCons(c); return; } }
  std::map<int, double> m; SatRes r = checkSat(nc, &m, OPT.eqTimeout);
  if (r == UNSAT) { addCons(c); return; }
  if (r == SAT) { auto mm = complete(m); violation("check", label, &mm, "counterexample: " + exprStr(nc, 4)); addCons(c); return; }
  refreshPool(200);
  for (auto &p : POOL) { extendE(*p); if (!p->boolean(c)) { auto m = toModel(*p); violation("check", label, &m, exprStr(nc, 4)); addCons(c); return; } }
  inconclusive("solver gave no answer", label); addCons(c);
}
// ---- equalities ----
struct PEq { E a, b; double scale; std::string label; };
static std::vector<PEq> PEND;
void pendEq(E a, E b, double scale, const std::string &label) { REP.eqs++; PEND.push_back({a, b, scale, label}); if (PEND.size() >= 512) flushEq(); }
static double l1(const Poly &p) { double s = 0; for (auto &t : *p) s += std::fabs(t.second.get_d()) * monoBound(t.first); return s; }
static std::string lin(const Poly &p, std::map<uint32_t, int> &ms) {
  if (p->empty()) return "0.0"; std::string s = "(+ 0.0";
  for (auto &t : *p) { if (t.first == 0) s += " " + ratStr(t.second); else { ms[t.first] = 1; s += " (* " + ratStr(t.second) + " m" + std::to_string(t.first) + ")"; } }
  return s + ")";
}
// Coarse form of the query below: every term of the difference becomes a variable with outward-rounded bounds
// (a superset of the real values, so "unsat" carries over); "sat" means nothing and the exact query follows.
static bool lraCoarse(const std::vector<std::array<Poly, 2>> &ps, const std::vector<double> &tol) {
  for (size_t i0 = 0; i0 < ps.size(); i0 += 64) {
    SmtCtx ctx; std::string body = "(assert (or";
    int k = 0;
    for (size_t i = i0; i < std::min(ps.size(), i0 + 64); i++) {
      Poly D = polyAdd(ps[i][0], ps[i][1], -1);
      std::string sum = "(+ 0.0";
      for (auto &t : *D) {
        double u = std::fabs(t.second.get_d()) * monoBound(t.first) * (1 + 1e-9) + 1e-300; int ex; double f = std::frexp(u, &ex); if (!std::isfinite(u)) return false;
        u = std::ldexp(std::ceil(f * 256), ex - 8); std::string b = ratStr(mpq_class(u)), n = "y" + std::to_string(k++);
        ctx.decls += "(declare-const " + n + " Real)\n"; ctx.defs += "(assert (and (<= (- " + b + ") " + n + ") (<= " + n + " " + b + ")))\n"; sum += " " + n; }
      sum += ")"; std::string t = ratStr(mpq_class(tol[i]));
      body += " (> " + sum + " " + t + ") (< " + sum + " (- " + t + "))";
    }
    if (solve(ctx, body + "))\n", OPT.eqTimeout, nullptr, "lra") != UNSAT) return false;
  }
  return true;
}
static SatRes lraBatch(const std::vector<std::array<Poly, 2>> &ps, const std::vector<double> &tol) {
  if (lraCoarse(ps, tol)) return UNSAT;
  std::map<uint32_t, int> ms; std::string body = "(assert (or";
  for (size_t i = 0; i < ps.size(); i++) {
    std::string d = "(- " + lin(ps[i][0], ms) + " " + lin(ps[i][1], ms) + ")"; std::string t = ratStr(mpq_class(tol[i]));
    std::string v = "d" + std::to_string(i);
    body = "(define-fun " + v + " () Real " + d + ")\n" + body + " (> " + v + " " + t + ") (< " + v + " (- " + t + "))";
  }
  body += "))\n";
  SmtCtx ctx; for (auto &m : ms) { double B = monoBound(m.first); std::string n = "m" + std::to_string(m.first); ctx.decls += "(declare-const " + n + " Real)\n"; std::string bb = ratStr(mpq_class(B)); ctx.defs += "(assert (and (<= (- " + bb + ") " + n + ") (<= " + n + " " + bb + ")))\n"; }
  return solve(ctx, body, OPT.eqTimeout * 3, nullptr, "lra");
}
static double evalGap(Eval &e, E a, E b, double scale, bool &bad) {
  double x = e.real(a), y = e.real(b); bad = false;
  if (!std::isfinite(x) || !std::isfinite(y)) return 0;
  double s = std::max(std::max(std::fabs(x), std::fabs(y)), scale); double g = std::fabs(x - y) / (s > 0 ? s : 1);
  bad = g > 50 * OPT.eps; return g;
}
// ---- case split on the conditions of selects ----
static E substB(E e, E c, E v, std::unordered_map<E, E> &memo) {
  if (!e) return 0; if (e == c) return v;
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Node n = N[e]; E r = e;
  auto S = [&](E x) { return substB(x, c, v, memo); };
  switch (n.op) {
    case RADD: r = mkRAdd(S(n.a), S(n.b)); break; case RSUB: r = mkRSub(S(n.a), S(n.b)); break; case RMUL: r = mkRMul(S(n.a), S(n.b)); break;
    case RDIV: r = mkRDiv(S(n.a), S(n.b)); break; case RNEG: r = mkRNeg(S(n.a)); break; case RITE: { E k = S(n.a); r = isBConst(k) ? (N[k].ival ? S(n.b) : S(n.c)) : mkRIte(k, S(n.b), S(n.c)); break; }
    case RUF: { E x = S(n.a), y = n.b ? S(n.b) : 0; if (x != n.a || y != n.b) r = mkRUF((int)n.ival, x, y); break; }
    case RFROMI: { E x = S(n.a); if (x != n.a) r = mkRFromI(x); break; }
    case IADD: r = mkIAdd(S(n.a), S(n.b)); break; case ISUB: r = mkISub(S(n.a), S(n.b)); break; case IMUL: r = mkIMul(S(n.a), S(n.b)); break;
    case IITE: { E k = S(n.a); r = isBConst(k) ? (N[k].ival ? S(n.b) : S(n.c)) : mkIIte(k, S(n.b), S(n.c)); break; }
    case IFLOOR: { E x = S(n.a); if (x != n.a) r = mkIFloor(x); break; }
    case BLT: { E x = S(n.a); if (x != n.a) r = mkRLt(mkRConst(0), x); break; } case BEQ: { E x = S(n.a); if (x != n.a) r = mkREq(x, mkRConst(0)); break; }
    case BAND: r = mkAnd(S(n.a), S(n.b)); break; case BOR: r = mkOr(S(n.a), S(n.b)); break; case BNOT: r = mkNot(S(n.a)); break;
    default: break;
  }
  memo[e] = r; return r;
}
static E findCond(E e, std::set<E> &seen) {   // an innermost base condition
  if (!e || !seen.insert(e).second) return 0;
  Node n = N[e];
  switch (n.op) {
    case BLT: case BEQ: case BILT: case BIEQ: { E k = findCond(n.a, seen); if (k) return k; return e; }
    case RCONST: case RVAR: case ICONST: case IVAR: case BCONST: return 0;
    default: break;
  }
  for (E x : {n.a, n.b, n.c}) if (x) if (E k = findCond(x, seen)) return k;
  return 0;
}
static SatRes lraBatch(const std::vector<std::array<Poly, 2>> &ps, const std::vector<double> &tol);
// 1 proved, 0 not decided
static bool splitEq(E a, E b, double scale, std::vector<E> &hyp, int depth, int &budget) {
  if (--budget < 0) return false;
  Poly A = polyOf(a), B = polyOf(b), D = polyAdd(A, B, -1), S = B;
  if (D->empty()) return true;
  double t = OPT.eps * std::max(scale, l1(B)) + 1e-300;
  if (l1(D) <= t && lraBatch({{A, B}}, {t}) == UNSAT) { REP.eqsLra++; return true; }
  std::set<E> seen; E c = findCond(a, seen); if (!c) c = findCond(b, seen);
  if (c && depth > 0) {
    bool ok = true;
    for (int v = 1; v >= 0 && ok; v--) {
      std::unordered_map<E, E> memo; E k = mkBool(v); E h = v ? c : mkNot(c);
      E a2 = substB(a, c, k, memo), b2 = substB(b, c, k, memo);
      hyp.push_back(h); ok = splitEq(a2, b2, scale, hyp, depth - 1, budget); hyp.pop_back();
    }
    return ok;
  }
  if (polyHasKind(D, A_INV, false)) { Poly D2 = D; clearInv(D2, S); double tol = OPT.eps * std::max(l1(S), 1e-30); if (D2->empty() || lraBatch({{polyAdd(D2, S), S}}, {tol}) == UNSAT) { REP.eqsLra++; return true; } }
  if (hyp.empty()) return false;
  // is this combination of conditions possible at all?
  E h = mkBool(true); for (E x : hyp) h = mkAnd(h, x);
  if (isBConst(h) && !N[h].ival) return true;
  std::map<int, double> m; if (checkSat(h, &m, 2000) == UNSAT) return true;
  SmtCtx ctx; E d = mkRSub(a, b); E hc = mkAnd(h, mkBool(true)); std::string q = pathAsserts(ctx, d); std::string hs = ctx.b(hc), dp = ctx.r(d); std::string ts = ratStr(mpq_class(t * 5));
  q += "(assert " + hs + ")\n(assert (or (> " + dp + " " + ts + ") (< " + dp + " (- " + ts + "))))\n";
  return solve(ctx, q, 3000, nullptr, "eqs") == UNSAT;
}
double nowSec(); double startSec();
static void decideOne(PEq &q) {
  if (nowSec() - startSec() > OPT.tmax) throw Inconclusive("time budget exhausted while deciding equalities");
  // 1. witnesses among assignments of the path
  refreshPool(40);
  for (auto &p : POOL) { extendE(*p); bool bad; double g = evalGap(*p, q.a, q.b, q.scale, bad); if (bad) { auto m = toModel(*p); char t[300]; snprintf(t, 300, "got %.9g expected %.9g (relative gap %.3g)", p->real(q.a), p->real(q.b), g); violation("eq", q.label, &m, t); return; } }
  Poly A = polyOf(q.a), B = polyOf(q.b); Poly D = polyAdd(A, B, -1), S = B;
  // 2. clear denominators
  if (polyHasKind(D, A_INV, false)) {
    clearInv(D, S); double tol = OPT.eps * std::max(l1(S), 1e-30); 
    if (lraBatch({{polyAdd(D, S), S}}, {tol}) == UNSAT) { REP.eqsLra++; return; }
  }
  { std::vector<E> hyp; int budget = 40; if (splitEq(q.a, q.b, q.scale, hyp, 8, budget)) { REP.eqsSplit++; return; } }
  // 3. full query with path constraints and definitions
  SmtCtx ctx; E d = mkRSub(q.a, q.b); std::string s = pathAsserts(ctx, d); std::string dp = ctx.r(d); double tol = OPT.eps * std::max(q.scale, l1(B)) * 5 + 1e-300;
  s += "(assert (or (> " + dp + " " + ratStr(mpq_class(tol)) + ") (< " + dp + " (- " + ratStr(mpq_class(tol)) + "))))\n";
  std::map<int, double> m; static int unk = 0; SatRes r = solve(ctx, s, unk < 3 ? OPT.eqTimeout : unk < 8 ? OPT.eqTimeout / 5 : 1000, &m, "eq"); if (r == UNKNOWN) unk++;
  REP.eqsFull++;
  if (r == UNSAT) return;
  if (r == SAT) {
    auto mm = complete(m); Eval ev; extendE(ev); for (auto &k : mm) ev.vars[k.first] = k.second; bool bad = false; double g = 0;
    try { if (satisfies(ev)) g = evalGap(ev, q.a, q.b, q.scale, bad); } catch (Inconclusive &) {}
    if (bad) { char t[300]; snprintf(t, 300, "got %.9g expected %.9g (relative gap %.3g)", ev.real(q.a), ev.real(q.b), g); violation("eq", q.label, &mm, t); return; }
  }
  // 4. more witnesses
  refreshPool(400);
  for (auto &p : POOL) { extendE(*p); bool bad; double g = evalGap(*p, q.a, q.b, q.scale, bad); if (bad) { auto m = toModel(*p); char t[300]; snprintf(t, 300, "got %.9g expected %.9g (gap %.3g)", p->real(q.a), p->real(q.b), g); violation("eq", q.label, &m, t); return; } }
  inconclusive(r == SAT ? "solver model does not evaluate to a difference (uninterpreted functions)" : "solver gave no answer", q.label);
}
void flushEq() {
  if (PEND.empty()) return;
  std::vector<PEq> P; P.swap(PEND);
  std::vector<std::array<Poly, 2>> ps; std::vector<double> tol; std::vector<size_t> idx; std::vector<size_t> hard; size_t terms = 0;
  auto run = [&]() {
    if (ps.empty()) return;
    if (lraBatch(ps, tol) == UNSAT) REP.eqsLra += ps.size();
    else for (size_t i = 0; i < ps.size(); i++) { if (ps.size() > 1 && lraBatch({ps[i]}, {tol[i]}) == UNSAT) REP.eqsLra++; else hard.push_back(idx[i]); }
    ps.clear(); tol.clear(); idx.clear(); terms = 0;
  };
  for (size_t i = 0; i < P.size(); i++) {
    Poly A = polyOf(P[i].a), B = polyOf(P[i].b); Poly D = polyAdd(A, B, -1);
    double t = OPT.eps * std::max(P[i].scale, l1(B)) + 1e-300;
    if (D->empty()) { REP.eqsNorm++; if (terms > 60000) continue; }
    // quick bound: is the difference certainly not within tolerance?
    if (!D->empty() && l1(D) > t) { hard.push_back(i); continue; }
    ps.push_back({A, B}); tol.push_back(t); idx.push_back(i); terms += A->size() + B->size();
    if (terms > 20000) run();
  }
  run();
  for (size_t h : hard) decideOne(P[h]);
}
