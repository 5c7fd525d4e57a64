#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <sstream>

std::vector<Node> N;
std::vector<mpq_class> RC;
std::vector<VarInfo> VARS;
std::vector<std::string> UFNAMES;
std::vector<Atom> ATOMS;
std::vector<Mono> MONOS;
double APPROX_EPS = 2e-6;
static const i128 BIG = ((i128)1) << 100;

struct NodeHash {
  size_t operator()(const Node &n) const {
    uint64_t h = n.op * 1315423911u + n.w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); };
    mix(n.a); mix(n.b); mix(n.c); mix((uint64_t)n.ival);
    return h;
  }
};
struct NodeEq {
  bool operator()(const Node &x, const Node &y) const {
    return x.op == y.op && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.ival == y.ival;
  }
};
static std::unordered_map<Node, E, NodeHash, NodeEq> HC;
static std::map<std::string, E> RCMAP;
static std::unordered_map<uint64_t, E> DCMAP;

static E intern(Node n) {
  auto it = HC.find(n);
  if (it != HC.end()) return it->second;
  if (N.size() > 60000000) throw Inconclusive("expression store exhausted");
  E id = N.size();
  N.push_back(n);
  HC.emplace(n, id);
  return id;
}
static Node mk(Op op, Sort s, E a = 0, E b = 0, E c = 0, int64_t iv = 0, uint16_t w = 0) {
  Node n; memset(&n, 0, sizeof n); n.op = op; n.sort = s; n.a = a; n.b = b; n.c = c; n.ival = iv; n.w = w; n.lo = -BIG; n.hi = BIG;
  return n;
}
static E R0, R1, B0, B1;
void exprInit() {
  UFNAMES = {"sqrt", "sin", "cos", "exp", "log", "pow", "atan2", "tan", "atan", "acos", "asin", "tanh", "sinh", "cosh"};
  N.push_back(mk(BCONST, S_BOOL)); // id 0 reserved
  N[0].ival = -12345;
  MONOS.push_back(Mono()); // mono 0 = 1
  R0 = mkRConst(0); R1 = mkRConst(1);
  B0 = intern(mk(BCONST, S_BOOL, 0, 0, 0, 0)); B1 = intern(mk(BCONST, S_BOOL, 0, 0, 0, 1));
}
int ufId(const std::string &name) {
  for (size_t i = 0; i < UFNAMES.size(); i++) if (UFNAMES[i] == name) return i;
  UFNAMES.push_back(name); return UFNAMES.size() - 1;
}
E mkRConst(const mpq_class &q) {
  std::string k = q.get_str(62);
  auto it = RCMAP.find(k); if (it != RCMAP.end()) return it->second;
  RC.push_back(q);
  E e = intern(mk(RCONST, S_REAL, 0, 0, 0, RC.size() - 1));
  RCMAP[k] = e; return e;
}
E mkRVar(const std::string &name, double lo, double hi);
E mkRConstD(double d) {
  if (d == 0) return R0;
  uint64_t u; memcpy(&u, &d, 8);
  auto it = DCMAP.find(u); if (it != DCMAP.end()) return it->second;
  if (std::isnan(d)) { static int k = 0; return mkRVar("nan#" + std::to_string(k++), -1e300, 1e300); }   // could be anything: an obligation that depends on it fails
  if (std::isinf(d)) d = d > 0 ? 1e300 : -1e300;   // infinities only ever compared against
  mpq_class q(d);
  E e = mkRConst(q); DCMAP[u] = e; return e;
}
const mpq_class &rconst(E e) { return RC[N[e].ival]; }
E mkRVar(const std::string &name, double lo, double hi) {
  VARS.push_back({name, lo, hi, false});
  return intern(mk(RVAR, S_REAL, 0, 0, 0, VARS.size() - 1));
}
E mkIVar(const std::string &name, int64_t lo, int64_t hi) {
  VARS.push_back({name, (double)lo, (double)hi, true});
  Node n = mk(IVAR, S_INT, 0, 0, 0, VARS.size() - 1); n.lo = lo; n.hi = hi;
  return intern(n);
}
E mkRAdd(E a, E b) {
  if (a == R0) return b; if (b == R0) return a;
  if (isRConst(a) && isRConst(b)) return mkRConst(rconst(a) + rconst(b));
  if (N[a].op == RITE && N[b].op == RITE && N[a].a == N[b].a) return mkRIte(N[a].a, mkRAdd(N[a].b, N[b].b), mkRAdd(N[a].c, N[b].c));
  if (a > b) std::swap(a, b);
  return intern(mk(RADD, S_REAL, a, b));
}
E mkRSub(E a, E b) {
  if (b == R0) return a; if (a == b) return R0;
  if (isRConst(a) && isRConst(b)) return mkRConst(rconst(a) - rconst(b));
  if (a == R0) return mkRNeg(b);
  if (N[a].op == RITE && N[b].op == RITE && N[a].a == N[b].a) return mkRIte(N[a].a, mkRSub(N[a].b, N[b].b), mkRSub(N[a].c, N[b].c));
  return intern(mk(RSUB, S_REAL, a, b));
}
E mkRNeg(E a) {
  if (isRConst(a)) return mkRConst(-rconst(a));
  if (N[a].op == RNEG) return N[a].a;
  if (N[a].op == RITE) return mkRIte(N[a].a, mkRNeg(N[a].b), mkRNeg(N[a].c));
  return intern(mk(RNEG, S_REAL, a));
}
E mkRMul(E a, E b) {
  if (a == R0 || b == R0) return R0;
  if (a == R1) return b; if (b == R1) return a;
  if (isRConst(a) && isRConst(b)) return mkRConst(rconst(a) * rconst(b));
  if (a > b) std::swap(a, b);
  // x * ite(c, const, const) -> push constants through
  auto constIte = [](E e) { return N[e].op == RITE && isRConst(N[e].b) && isRConst(N[e].c); };
  if (constIte(b)) return mkRIte(N[b].a, mkRMul(a, N[b].b), mkRMul(a, N[b].c));
  if (constIte(a)) return mkRIte(N[a].a, mkRMul(N[a].b, b), mkRMul(N[a].c, b));
  return intern(mk(RMUL, S_REAL, a, b));
}
E mkRDiv(E a, E b) {
  if (a == R0) return R0; if (b == R1) return a;
  if (isRConst(b)) { if (rconst(b) == 0) return mkRUF(ufId("divzero"), a); return mkRMul(a, mkRConst(1 / rconst(b))); }
  if (a == b) return R1;
  return intern(mk(RDIV, S_REAL, a, b));
}
E mkRIte(E c, E a, E b) {
  if (isBConst(c)) return N[c].ival ? a : b;
  if (a == b) return a;
  if (N[c].op == BNOT) return mkRIte(N[c].a, b, a);
  if (N[a].op == RITE && N[a].a == c) a = N[a].b;
  if (N[b].op == RITE && N[b].a == c) b = N[b].c;
  if (a == b) return a;
  return intern(mk(RITE, S_REAL, c, a, b));
}
E mkRUF(int f, E a, E b) {
  if (isRConst(a) && (!b || isRConst(b))) {
    double x = rconst(a).get_d(), y = b ? rconst(b).get_d() : 0, r = 0; bool ok = true;
    switch (f) {
      case F_SQRT: r = std::sqrt(x); break; case F_SIN: r = std::sin(x); break; case F_COS: r = std::cos(x); break;
      case F_EXP: r = std::exp(x); break; case F_LOG: r = std::log(x); break; case F_POW: r = std::pow(x, y); break;
      case F_ATAN2: r = std::atan2(x, y); break; case F_TAN: r = std::tan(x); break; case F_ATAN: r = std::atan(x); break;
      case F_ACOS: r = std::acos(x); break; case F_ASIN: r = std::asin(x); break; case F_TANH: r = std::tanh(x); break;
      case F_SINH: r = std::sinh(x); break; case F_COSH: r = std::cosh(x); break; default: ok = false;
    }
    if (ok && std::isfinite(r)) return mkRConstD(r);
  }
  if (f == F_POW && isRConst(b)) { if (rconst(b) == 0) return R1; if (rconst(b) == 1) return a; if (rconst(b) == 2) return mkRMul(a, a); }
  if (N[a].op == RITE && isRConst(N[a].b) && isRConst(N[a].c)) return mkRIte(N[a].a, mkRUF(f, N[a].b, b), mkRUF(f, N[a].c, b));
  return intern(mk(RUF, S_REAL, a, b, 0, f));
}
E mkRFromI(E i) {
  if (isIConst(i)) return mkRConst(mpq_class((long)N[i].ival));
  if (N[i].op == IITE) return mkRIte(N[i].a, mkRFromI(N[i].b), mkRFromI(N[i].c));
  return intern(mk(RFROMI, S_REAL, i));
}
E mkRMin(E a, E b) { return mkRIte(mkRLt(a, b), a, b); }
E mkRMax(E a, E b) { return mkRIte(mkRLt(b, a), a, b); }
E mkRAbs(E a) { double lo, hi; realInterval(a, lo, hi); if (lo >= 0) return a; if (hi <= 0) return mkRNeg(a); return mkRIte(mkRLt(a, R0), mkRNeg(a), a); }

// ---- ints
E mkIConst(i128 v) {
  if (v > (i128)INT64_MAX || v < (i128)INT64_MIN) {
    // split constants beyond 64 bits: hi*2^62 + lo
    i128 q = v >> 62, r = v - (q << 62);
    Node h = mk(IMUL, S_INT, mkIConst(q), mkIConst(((i128)1) << 62)); h.lo = h.hi = q << 62;
    Node n = mk(IADD, S_INT, intern(h), mkIConst(r)); n.lo = n.hi = v;
    return intern(n);
  }
  Node n = mk(ICONST, S_INT, 0, 0, 0, (int64_t)v); n.lo = n.hi = v; return intern(n);
}
static i128 clampB(i128 x) { return x > BIG ? BIG : x < -BIG ? -BIG : x; }
static bool i2c(E e) { return N[e].op == IITE && isIConst(N[e].b) && isIConst(N[e].c); }
E mkIAdd(E a, E b) {
  if (isIConst(a) && isIConst(b)) return mkIConst((i128)N[a].ival + N[b].ival);
  if (isIConst(a)) std::swap(a, b);
  if (isIConst(b)) {
    if (N[b].ival == 0) return a;
    if (i2c(a)) return mkIIte(N[a].a, mkIAdd(N[a].b, b), mkIAdd(N[a].c, b));
    if (N[a].op == IADD && isIConst(N[a].b)) return mkIAdd(N[a].a, mkIConst((i128)N[N[a].b].ival + N[b].ival));
  }
  if (N[a].op == IITE && N[b].op == IITE && N[a].a == N[b].a) return mkIIte(N[a].a, mkIAdd(N[a].b, N[b].b), mkIAdd(N[a].c, N[b].c));
  if (!isIConst(b) && a > b) std::swap(a, b);
  Node n = mk(IADD, S_INT, a, b); n.lo = clampB(N[a].lo + N[b].lo); n.hi = clampB(N[a].hi + N[b].hi); return intern(n);
}
E mkISub(E a, E b) {
  if (a == b) return mkIConst(0);
  if (isIConst(b)) return mkIAdd(a, mkIConst(-(i128)N[b].ival));
  if (isIConst(a) && i2c(b)) return mkIIte(N[b].a, mkISub(a, N[b].b), mkISub(a, N[b].c));
  if (N[a].op == IADD) { if (N[a].a == b) return N[a].b; if (N[a].b == b) return N[a].a; }
  Node n = mk(ISUB, S_INT, a, b); n.lo = clampB(N[a].lo - N[b].hi); n.hi = clampB(N[a].hi - N[b].lo); return intern(n);
}
static i128 mulB(i128 a, i128 b) { long double r = (long double)a * (long double)b; if (r > 1e30L) return BIG; if (r < -1e30L) return -BIG; return a * b; }
E mkIMul(E a, E b) {
  if (isIConst(a)) std::swap(a, b);
  if (isIConst(b)) {
    if (isIConst(a)) return mkIConst(mulB(N[a].ival, N[b].ival));
    if (N[b].ival == 0) return b; if (N[b].ival == 1) return a;
    if (i2c(a)) return mkIIte(N[a].a, mkIMul(N[a].b, b), mkIMul(N[a].c, b));
    if (N[a].op == IMUL && isIConst(N[a].b)) return mkIMul(N[a].a, mkIMul(N[a].b, b));
  } else if (a > b) std::swap(a, b);
  Node n = mk(IMUL, S_INT, a, b);
  i128 v[4] = {mulB(N[a].lo, N[b].lo), mulB(N[a].lo, N[b].hi), mulB(N[a].hi, N[b].lo), mulB(N[a].hi, N[b].hi)};
  n.lo = clampB(*std::min_element(v, v + 4)); n.hi = clampB(*std::max_element(v, v + 4)); return intern(n);
}
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) != 0 && ((a < 0) != (b < 0))) q--; return q; }
E mkIDivF(E a, E b) {   // floor division, b > 0
  if (isIConst(b)) {
    i128 k = N[b].ival; if (k <= 0) throw Inconclusive("division by non-positive constant");
    if (k == 1) return a;
    if (isIConst(a)) return mkIConst(fdiv(N[a].ival, k));
    i128 l = fdiv(N[a].lo, k), h = fdiv(N[a].hi, k); if (l == h) return mkIConst(l);
    if (N[a].op == IMUL && isIConst(N[a].b) && N[N[a].b].ival % k == 0) return mkIMul(N[a].a, mkIConst(N[N[a].b].ival / k));
    if (i2c(a)) return mkIIte(N[a].a, mkIDivF(N[a].b, b), mkIDivF(N[a].c, b));
    Node n = mk(IDIVF, S_INT, a, b); n.lo = l; n.hi = h; return intern(n);
  }
  Node n = mk(IDIVF, S_INT, a, b);
  if (N[a].lo >= 0) { n.lo = 0; n.hi = N[b].lo > 0 ? fdiv(N[a].hi, N[b].lo) : N[a].hi; } else { n.lo = N[a].lo; n.hi = N[a].hi; }
  return intern(n);
}
E mkIModF(E a, E b) {
  if (isIConst(b)) {
    i128 k = N[b].ival; if (k <= 0) throw Inconclusive("modulo by non-positive constant");
    if (isIConst(a)) { i128 r = (i128)N[a].ival % k; if (r < 0) r += k; return mkIConst(r); }
    if (k == 1) return mkIConst(0);
    if (N[a].lo >= 0 && N[a].hi < k) return a;
    if (i2c(a)) return mkIIte(N[a].a, mkIModF(N[a].b, b), mkIModF(N[a].c, b));
    if (N[a].op == IMUL && isIConst(N[a].b) && N[N[a].b].ival % k == 0) return mkIConst(0);
    if (fdiv(N[a].lo, k) == fdiv(N[a].hi, k)) return mkIAdd(a, mkIConst(-fdiv(N[a].lo, k) * k));
    Node n = mk(IMODF, S_INT, a, b); n.lo = 0; n.hi = k - 1; return intern(n);
  }
  Node n = mk(IMODF, S_INT, a, b); n.lo = 0; n.hi = N[b].hi - 1; return intern(n);
}
E mkIIte(E c, E a, E b) {
  if (isBConst(c)) return N[c].ival ? a : b;
  if (a == b) return a;
  if (N[c].op == BNOT) return mkIIte(N[c].a, b, a);
  if (N[a].op == IITE && N[a].a == c) a = N[a].b;
  if (N[b].op == IITE && N[b].a == c) b = N[b].c;
  if (a == b) return a;
  Node n = mk(IITE, S_INT, c, a, b); n.lo = std::min(N[a].lo, N[b].lo); n.hi = std::max(N[a].hi, N[b].hi); return intern(n);
}
E mkIFloor(E r) {
  if (isRConst(r)) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), rconst(r).get_num_mpz_t(), rconst(r).get_den_mpz_t()); return mkIConst(z.get_si()); }
  if (N[r].op == RFROMI) return N[r].a;
  if (N[r].op == RITE) return mkIIte(N[r].a, mkIFloor(N[r].b), mkIFloor(N[r].c));
  double lo, hi; realInterval(r, lo, hi);
  Node n = mk(IFLOOR, S_INT, r);
  n.lo = lo > -4e18 ? (i128)(long long)std::floor(lo) : -((i128)1 << 62); n.hi = hi < 4e18 ? (i128)(long long)std::floor(hi) : ((i128)1 << 62);
  if (n.lo == n.hi) return mkIConst(n.lo);
  return intern(n);
}
E mkRBits(E r, int w) { return intern(mk(RBITS, S_INT, r, 0, 0, 0, w)); }
E mkConcat(E lo, int lw, E hi, int hw) { return intern(mk(ICONCAT, S_INT, lo, hi, 0, lw, lw + hw)); }

// ---- bools
E mkBool(bool b) { return b ? B1 : B0; }
E mkNot(E a) { if (isBConst(a)) return mkBool(!N[a].ival); if (N[a].op == BNOT) return N[a].a; return intern(mk(BNOT, S_BOOL, a)); }
E mkAnd(E a, E b) {
  if (isBConst(a)) return N[a].ival ? b : a; if (isBConst(b)) return N[b].ival ? a : b;
  if (a == b) return a; if (mkNot(a) == b) return B0;
  if (a > b) std::swap(a, b);
  return intern(mk(BAND, S_BOOL, a, b));
}
E mkOr(E a, E b) {
  if (isBConst(a)) return N[a].ival ? a : b; if (isBConst(b)) return N[b].ival ? b : a;
  if (a == b) return a; if (mkNot(a) == b) return B1;
  if (a > b) std::swap(a, b);
  return intern(mk(BOR, S_BOOL, a, b));
}
E mkXorB(E a, E b) { return mkBIte(a, mkNot(b), b); }
E mkBIte(E c, E a, E b) {
  if (isBConst(c)) return N[c].ival ? a : b; if (a == b) return a;
  return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
}
// canonical representative of a polynomial (up to positive scale)
static std::map<std::vector<std::pair<uint32_t, std::string>>, E> REPMAP;
static E polyRep(const Poly &p, E orig, bool sign) {
  mpq_class k = p->back().second; if (k == 0) return orig;
  mpq_class s = 1 / abs(k); if (sign && k < 0) s = -s;
  std::vector<std::pair<uint32_t, std::string>> key;
  for (auto &t : *p) { mpq_class c = t.second * s; key.push_back({t.first, c.get_str(62)}); }
  auto it = REPMAP.find(key); if (it != REPMAP.end()) return it->second;
  E e = mkRMul(orig, mkRConst(s)); REPMAP[key] = e; return e;
}
static size_t treeCheap(E e);
E mkRLt(E a, E b) {
  if (a == b) return B0;
  if (isRConst(a) && isRConst(b)) return mkBool(rconst(a) < rconst(b));
  if (N[a].op == RITE) { E x = mkRLt(N[a].b, b), y = mkRLt(N[a].c, b); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[a].a, x, y); }
  if (N[b].op == RITE) { E x = mkRLt(a, N[b].b), y = mkRLt(a, N[b].c); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[b].a, x, y); }
  double l1, h1, l2, h2; realInterval(a, l1, h1); realInterval(b, l2, h2);
  if (h1 < l2) return B1; if (l1 >= h2) return B0;
  E d = mkRSub(b, a); Poly p = polyOf(d);
  if (p->empty()) return B0;
  if (p->size() == 1 && p->front().first == 0) return mkBool(p->front().second > 0);
  return intern(mk(BLT, S_BOOL, polyRep(p, d, false)));
}
E mkRLe(E a, E b) { return mkNot(mkRLt(b, a)); }
E mkREq(E a, E b) {
  if (a == b) return B1;
  if (isRConst(a) && isRConst(b)) return mkBool(rconst(a) == rconst(b));
  if (N[a].op == RITE) { E x = mkREq(N[a].b, b), y = mkREq(N[a].c, b); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[a].a, x, y); }
  if (N[b].op == RITE) { E x = mkREq(a, N[b].b), y = mkREq(a, N[b].c); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[b].a, x, y); }
  double l1, h1, l2, h2; realInterval(a, l1, h1); realInterval(b, l2, h2);
  if (h1 < l2 || h2 < l1) return B0;
  E d = mkRSub(b, a); Poly p = polyOf(d);
  if (p->empty()) return B1;
  if (p->size() == 1 && p->front().first == 0) return B0;
  return intern(mk(BEQ, S_BOOL, polyRep(p, d, true)));
}
E mkILt(E a, E b) {
  if (a == b) return B0;
  if (N[a].hi < N[b].lo) return B1; if (N[a].lo >= N[b].hi) return B0;
  if (N[a].op == IITE) { E x = mkILt(N[a].b, b), y = mkILt(N[a].c, b); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[a].a, x, y); }
  if (N[b].op == IITE) { E x = mkILt(a, N[b].b), y = mkILt(a, N[b].c); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[b].a, x, y); }
  return intern(mk(BILT, S_BOOL, a, b));
}
E mkILe(E a, E b) { return mkNot(mkILt(b, a)); }
E mkIEq(E a, E b) {
  if (a == b) return B1;
  if (N[a].hi < N[b].lo || N[b].hi < N[a].lo) return B0;
  if (isIConst(a) && isIConst(b)) return mkBool(N[a].ival == N[b].ival);
  if (N[a].op == IITE) { E x = mkIEq(N[a].b, b), y = mkIEq(N[a].c, b); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[a].a, x, y); }
  if (N[b].op == IITE) { E x = mkIEq(a, N[b].b), y = mkIEq(a, N[b].c); if (isBConst(x) || isBConst(y) || x == y) return mkBIte(N[b].a, x, y); }
  if (a > b) std::swap(a, b);
  return intern(mk(BIEQ, S_BOOL, a, b));
}

// ---------------- intervals ----------------
static std::unordered_map<E, std::pair<double, double>> IVM;
static const double INF = std::numeric_limits<double>::infinity();
void realInterval(E e, double &lo, double &hi) {
  const Node n = N[e];
  switch (n.op) {
    case RCONST: { double d = rconst(e).get_d(); lo = std::nextafter(d, -INF); hi = std::nextafter(d, INF); return; }
    case RVAR: lo = VARS[n.ival].lo; hi = VARS[n.ival].hi; return;
    case RFROMI: lo = (double)N[n.a].lo; hi = (double)N[n.a].hi; return;
    default: break;
  }
  auto it = IVM.find(e); if (it != IVM.end()) { lo = it->second.first; hi = it->second.second; return; }
  double a, b, c, d; lo = -INF; hi = INF;
  auto mulI = [](double a, double b, double c, double d, double &lo, double &hi) {
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
    double v[4] = {m(a, c), m(a, d), m(b, c), m(b, d)}; lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4);
  };
  switch (n.op) {
    case RADD: realInterval(n.a, a, b); realInterval(n.b, c, d); lo = a + c; hi = b + d; break;
    case RSUB: realInterval(n.a, a, b); realInterval(n.b, c, d); lo = a - d; hi = b - c; break;
    case RNEG: realInterval(n.a, a, b); lo = -b; hi = -a; break;
    case RMUL: realInterval(n.a, a, b); realInterval(n.b, c, d); mulI(a, b, c, d, lo, hi); if (n.a == n.b && lo < 0) { lo = 0; } break;
    case RDIV: realInterval(n.a, a, b); realInterval(n.b, c, d); if (c > 0 || d < 0) mulI(a, b, 1 / d, 1 / c, lo, hi); break;
    case RITE: realInterval(n.b, a, b); realInterval(n.c, c, d); lo = std::min(a, c); hi = std::max(b, d); break;
    case RUF:
      switch (n.ival) {
        case F_SIN: case F_COS: lo = -1; hi = 1; break;
        case F_TANH: lo = -1; hi = 1; break;
        case F_SQRT: realInterval(n.a, a, b); lo = a > 0 ? std::sqrt(a) : 0; hi = b > 0 ? std::sqrt(b) : 0; break;
        case F_EXP: realInterval(n.a, a, b); lo = std::exp(a); hi = std::exp(b); break;
        case F_LOG: realInterval(n.a, a, b); lo = a > 0 ? std::log(a) : -INF; hi = b > 0 ? std::log(b) : INF; break;
        case F_ATAN2: lo = -3.1415926535897936; hi = -lo; break;
        case F_ATAN: case F_ASIN: lo = -1.5707963267948968; hi = -lo; break;
        case F_ACOS: lo = 0; hi = 3.1415926535897936; break;
        case F_POW: realInterval(n.a, a, b); realInterval(n.b, c, d);
          if (a > 0) { double v[4] = {std::pow(a, c), std::pow(a, d), std::pow(b, c), std::pow(b, d)}; lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4); }
          break;
        default: break;
      }
      break;
    default: break;
  }
  if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF;
  // outward rounding
  double s = std::max(std::fabs(lo), std::fabs(hi));
  if (std::isfinite(s) && n.op != RUF) { lo -= 1e-15 * s; hi += 1e-15 * s; }
  IVM[e] = {lo, hi};
}

// ---------------- polynomials ----------------
struct MonoHash { size_t operator()(const std::vector<std::pair<uint32_t, int>> &v) const { size_t h = v.size(); for (auto &p : v) h = h * 1000003u + p.first * 31u + (unsigned)p.second * 7919u; return h; } };
static std::unordered_map<std::vector<std::pair<uint32_t, int>>, uint32_t, MonoHash> MONOMAP;
static uint32_t monoId(const std::vector<std::pair<uint32_t, int>> &f) {
  if (f.empty()) return 0;
  auto it = MONOMAP.find(f); if (it != MONOMAP.end()) return it->second;
  uint32_t id = MONOS.size(); MONOS.push_back({f}); MONOMAP[f] = id; return id;
}
static Poly P0() { static Poly p = std::make_shared<PolyV>(); return p; }
static Poly polyConst(const mpq_class &c) { if (c == 0) return P0(); auto p = std::make_shared<PolyV>(); p->push_back({0, c}); return p; }
static Poly polyAtom(uint32_t a, int e = 1) { auto p = std::make_shared<PolyV>(); p->push_back({monoId({{a, e}}), 1}); return p; }
Poly polyScale(Poly a, const mpq_class &k) { if (k == 0) return P0(); if (k == 1) return a; auto p = std::make_shared<PolyV>(*a); for (auto &t : *p) t.second *= k; return p; }
Poly polyAdd(Poly a, Poly b, const mpq_class &kb) {
  if (b->empty()) return a;
  if (a->empty()) return polyScale(b, kb);
  auto p = std::make_shared<PolyV>(); p->reserve(a->size() + b->size());
  size_t i = 0, j = 0;
  while (i < a->size() || j < b->size()) {
    if (j >= b->size() || (i < a->size() && (*a)[i].first < (*b)[j].first)) { p->push_back((*a)[i]); i++; }
    else if (i >= a->size() || (*b)[j].first < (*a)[i].first) { p->push_back({(*b)[j].first, (*b)[j].second * kb}); j++; }
    else { mpq_class c = (*a)[i].second + (*b)[j].second * kb; if (c != 0) p->push_back({(*a)[i].first, c}); i++; j++; }
  }
  return p;
}
static Poly polyPow(Poly a, int n);
static Poly polyInv(Poly p);
// product of two monomials; result in general a polynomial (sqrt reduction)
static Poly monoMul(uint32_t x, uint32_t y) {
  static std::unordered_map<uint64_t, Poly> memo;
  uint64_t k = ((uint64_t)std::min(x, y) << 32) | std::max(x, y);
  auto it = memo.find(k); if (it != memo.end()) return it->second;
  const std::vector<std::pair<uint32_t, int>> f = MONOS[x].f, g = MONOS[y].f;
  std::vector<std::pair<uint32_t, int>> h;
  size_t i = 0, j = 0; std::vector<std::pair<uint32_t, int>> extra;
  auto put = [&](uint32_t a, int e) {
    if (e == 0) return;
    if (ATOMS[a].kind == A_SQRT) {
      int m = ((e % 2) + 2) % 2, q = (e - m) / 2;
      if (m) h.push_back({a, 1});
      if (q) extra.push_back({a, q});
      return;
    }
    h.push_back({a, e});
  };
  while (i < f.size() || j < g.size()) {
    if (j >= g.size() || (i < f.size() && f[i].first < g[j].first)) { put(f[i].first, f[i].second); i++; }
    else if (i >= f.size() || g[j].first < f[i].first) { put(g[j].first, g[j].second); j++; }
    else { put(f[i].first, f[i].second + g[j].second); i++; j++; }
  }
  auto p = std::make_shared<PolyV>(); p->push_back({monoId(h), 1}); Poly r = p;
  for (auto &ex : extra) r = polyMul(r, polyPow(ATOMS[ex.first].p, ex.second));
  memo[k] = r; return r;
}
Poly polyMul(Poly a, Poly b) {
  if (a->empty() || b->empty()) return P0();
  if (a->size() == 1 && (*a)[0].first == 0) return polyScale(b, (*a)[0].second);
  if (b->size() == 1 && (*b)[0].first == 0) return polyScale(a, (*b)[0].second);
  if ((double)a->size() * b->size() > 4e6) throw Inconclusive("polynomial too large");
  std::map<uint32_t, mpq_class> acc;
  mpq_class c;
  for (auto &s : *a) for (auto &t : *b) {
    Poly m = monoMul(s.first, t.first);
    c = s.second * t.second;
    if (m->size() == 1 && (*m)[0].second == 1) acc[(*m)[0].first] += c;
    else for (auto &u : *m) acc[u.first] += c * u.second;
  }
  auto p = std::make_shared<PolyV>(); p->reserve(acc.size());
  for (auto &kv : acc) if (kv.second != 0) p->push_back({kv.first, std::move(kv.second)});
  return p;
}
static Poly polyPow(Poly a, int n) {
  if (n < 0) return polyPow(polyInv(a), -n);
  Poly r = polyConst(1); while (n) { if (n & 1) r = polyMul(r, a); n >>= 1; if (n) a = polyMul(a, a); } return r;
}
static void polyRange(const Poly &p, double &lo, double &hi) {
    lo = hi = 0;
    for (auto &t : *p) {
      double c = t.second.get_d(), l = c, h = c;
      for (auto &f : MONOS[t.first].f) {
        double al = ATOMS[f.first].lo, ah = ATOMS[f.first].hi, xl, xh;
        if (f.second > 0 || al > 0 || ah < 0) {
          double v1 = std::pow(al, f.second), v2 = std::pow(ah, f.second); xl = std::min(v1, v2); xh = std::max(v1, v2);
          if (f.second % 2 == 0 && al < 0 && ah > 0) xl = 0;
        } else { xl = -INF; xh = INF; }
        auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
        double v[4] = {m(l, xl), m(l, xh), m(h, xl), m(h, xh)}; l = *std::min_element(v, v + 4); h = *std::max_element(v, v + 4);
      }
      lo += l; hi += h;
    }
    if (std::isnan(lo)) lo = -INF; if (std::isnan(hi)) hi = INF;
  }
static void atomBounds(Atom &A) {
  A.lo = -INF; A.hi = INF;
  auto pb = polyRange;
  double a, b, c, d;
  switch (A.kind) {
    case A_VAR: realInterval(A.e, A.lo, A.hi); break;
    case A_INT: A.lo = (double)N[A.e].lo; A.hi = (double)N[A.e].hi; break;
    case A_INV: pb(A.p, a, b); if (a > 0 || b < 0) { A.lo = 1 / b; A.hi = 1 / a; } break;
    case A_SQRT: pb(A.p, a, b); A.lo = a > 0 ? std::sqrt(a) : 0; A.hi = b > 0 ? std::sqrt(b) : 0; break;
    case A_ITE: pb(A.p, a, b); pb(A.q, c, d); A.lo = std::min(a, c); A.hi = std::max(b, d); break;
    case A_UF:
      switch (A.f) {
        case F_SIN: case F_COS: case F_TANH:
          A.lo = -1; A.hi = 1; pb(A.p, a, b); c = std::max(std::fabs(a), std::fabs(b)) * (1 + 1e-12);
          if (c < 1) { if (A.f == F_COS) A.lo = 1 - c * c / 2; else { A.lo = a < 0 ? -c : 0; A.hi = b > 0 ? c : 0; } }
          break;
        case F_EXP: pb(A.p, a, b); A.lo = std::exp(a); A.hi = std::exp(b); break;
        case F_POW: pb(A.p, a, b); pb(A.q, c, d); if (a > 0) { double v[4] = {std::pow(a, c), std::pow(a, d), std::pow(b, c), std::pow(b, d)}; A.lo = *std::min_element(v, v + 4); A.hi = *std::max_element(v, v + 4); } break;
        case F_LOG: pb(A.p, a, b); if (a > 0) { A.lo = std::log(a); A.hi = std::log(b); } break;
        case F_ATAN2: A.lo = -3.15; A.hi = 3.15; break;
        default: break;
      }
    default: break;
  }
}
double monoBound(uint32_t m) {
  double r = 1;
  for (auto &f : MONOS[m].f) {
    Atom &A = ATOMS[f.first];
    double b;
    if (f.second > 0) b = std::pow(std::max(std::fabs(A.lo), std::fabs(A.hi)), f.second);
    else if (A.lo > 0 || A.hi < 0) b = std::pow(std::min(std::fabs(A.lo), std::fabs(A.hi)), f.second);
    else b = INF;
    r *= b;
  }
  if (!std::isfinite(r) || r <= 0) r = 1;
  return r;
}
static bool approxEq(const Poly &a, const Poly &b, double eps = 1e-6) {
  // same polynomials up to relative coefficient rounding (terms negligible against the largest are ignored)
  double mx = 0; for (auto &t : *a) mx = std::max(mx, std::fabs(t.second.get_d())); for (auto &t : *b) mx = std::max(mx, std::fabs(t.second.get_d()));
  size_t i = 0, j = 0;
  while (i < a->size() || j < b->size()) {
    double x = 0, y = 0;
    if (j >= b->size() || (i < a->size() && (*a)[i].first < (*b)[j].first)) { x = (*a)[i].second.get_d(); i++; }
    else if (i >= a->size() || (*b)[j].first < (*a)[i].first) { y = (*b)[j].second.get_d(); j++; }
    else { x = (*a)[i].second.get_d(); y = (*b)[j].second.get_d(); i++; j++; }
    double s = std::max(std::fabs(x), std::fabs(y));
    if (std::fabs(x - y) > eps * s && std::fabs(x - y) > 1e-9 * mx) return false;
  }
  return true;
}
static size_t polyKey(const Poly &p) { // monomial-set hash ignoring tiny terms
  double mx = 0; for (auto &t : *p) mx = std::max(mx, std::fabs(t.second.get_d()));
  size_t h = 17; for (auto &t : *p) if (std::fabs(t.second.get_d()) > 1e-9 * mx) h = h * 1000003u + t.first; return h;
}
static std::unordered_multimap<size_t, uint32_t> ATOMIDX;
static uint32_t newAtom(AtomKind k, E e, int f, Poly p, Poly q) {
  size_t h = (size_t)k * 7919 + e * 31 + f * 101; if (p) h = h * 1000003u + polyKey(p); if (q) h = h * 1000003u + polyKey(q);
  auto r = ATOMIDX.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Atom &A = ATOMS[it->second];
    if (A.kind == k && A.e == e && A.f == f && (!p || approxEq(p, A.p)) && (!q || approxEq(q, A.q))) return it->second;
  }
  Atom A; A.kind = k; A.e = e; A.f = f; A.p = p; A.q = q; atomBounds(A);
  ATOMS.push_back(A); ATOMIDX.emplace(h, ATOMS.size() - 1); return ATOMS.size() - 1;
}
// split p = k * mono * monic
static void content(const Poly &p, mpq_class &k, std::vector<std::pair<uint32_t, int>> &mono, Poly &rest) {
  std::map<uint32_t, int> mn; bool first = true;
  for (auto &t : *p) {
    std::map<uint32_t, int> cur; for (auto &f : MONOS[t.first].f) cur[f.first] = f.second;
    if (first) { mn = cur; first = false; }
    else {
      for (auto &c : cur) if (!mn.count(c.first) && c.second < 0) mn[c.first] = 0;
      for (auto it = mn.begin(); it != mn.end();) { int e = cur.count(it->first) ? cur[it->first] : 0; it->second = std::min(it->second, e); ++it; }
    }
  }
  // normalise: missing atoms count as 0
  for (auto &t : *p) { std::map<uint32_t, int> cur; for (auto &f : MONOS[t.first].f) cur[f.first] = f.second; for (auto &m : mn) { int e = cur.count(m.first) ? cur[m.first] : 0; m.second = std::min(m.second, e); } }
  mono.clear(); std::vector<std::pair<uint32_t, int>> neg;
  for (auto &m : mn) if (m.second != 0 && ATOMS[m.first].kind != A_SQRT) { mono.push_back(m); neg.push_back({m.first, -m.second}); }
  Poly q = p;
  if (!neg.empty()) { auto np = std::make_shared<PolyV>(); np->push_back({monoId(neg), 1}); q = polyMul(p, np); }
  // deterministic leading coefficient: the one of the smallest mono id
  k = q->front().second; rest = polyScale(q, 1 / k);
}
static Poly polyInv(Poly p) {
  if (p->empty()) throw Inconclusive("division by a value that is identically zero");
  mpq_class k; std::vector<std::pair<uint32_t, int>> m; Poly rest;
  content(p, k, m, rest);
  std::vector<std::pair<uint32_t, int>> neg; for (auto &f : m) neg.push_back({f.first, -f.second});
  Poly r = polyConst(1 / k);
  if (!neg.empty()) { auto np = std::make_shared<PolyV>(); np->push_back({monoId(neg), 1}); r = polyMul(r, np); }
  if (rest->size() == 1 && rest->front().first == 0) return r;
  if (rest->size() == 1) { // single sqrt-atom term
    auto &f = MONOS[rest->front().first].f; Poly x = polyConst(1);
    for (auto &g : f) { if (ATOMS[g.first].kind == A_SQRT) x = polyMul(x, polyMul(polyAtom(g.first), polyInv(ATOMS[g.first].p))); else x = polyMul(x, polyAtom(g.first, -g.second)); }
    return polyMul(r, x);
  }
  return polyMul(r, polyAtom(newAtom(A_INV, 0, 0, rest, nullptr)));
}
static Poly polySqrt(Poly p) {
  if (p->empty()) return P0();
  if (p->size() == 1 && p->front().first == 0) return polyConst(mpq_class(std::sqrt(p->front().second.get_d())));
  mpq_class k; std::vector<std::pair<uint32_t, int>> m; Poly rest;
  content(p, k, m, rest);
  std::vector<std::pair<uint32_t, int>> root, keep;
  for (auto &f : m) { if (f.second % 2 == 0 && ATOMS[f.first].lo >= 0) root.push_back({f.first, f.second / 2}); else keep.push_back(f); }
  if (!keep.empty()) { auto np = std::make_shared<PolyV>(); np->push_back({monoId(keep), 1}); rest = polyMul(rest, np); }
  if (k < 0) { k = -k; rest = polyScale(rest, -1); }
  Poly r = polyConst(mpq_class(std::sqrt(k.get_d())));
  if (!root.empty()) { auto np = std::make_shared<PolyV>(); np->push_back({monoId(root), 1}); r = polyMul(r, np); }
  if (rest->size() == 1 && rest->front().first == 0 && rest->front().second == 1) return r;
  return polyMul(r, polyAtom(newAtom(A_SQRT, 0, 0, rest, nullptr)));
}
static std::unordered_map<E, Poly> PM;
Poly polyOf(E e) {
  auto it = PM.find(e); if (it != PM.end()) return it->second;
  // iterative deepening is unnecessary: expression chains are bounded by harness size, but sums can be long
  const Node n = N[e]; Poly r;
  switch (n.op) {
    case RCONST: r = polyConst(rconst(e)); break;
    case RVAR: r = polyAtom(newAtom(A_VAR, e, 0, nullptr, nullptr)); break;
    case RADD: { Poly a = polyOf(n.a), b = polyOf(n.b); r = polyAdd(a, b); break; }
    case RSUB: { Poly a = polyOf(n.a), b = polyOf(n.b); r = polyAdd(a, b, -1); break; }
    case RNEG: r = polyScale(polyOf(n.a), -1); break;
    case RMUL: { Poly a = polyOf(n.a), b = polyOf(n.b); r = polyMul(a, b); break; }
    case RDIV: { Poly a = polyOf(n.a), b = polyOf(n.b); r = polyMul(a, polyInv(b)); break; }
    case RFROMI: r = polyAtom(newAtom(A_INT, n.a, 0, nullptr, nullptr)); break;
    case RITE: {
      Poly a = polyOf(n.b), b = polyOf(n.c);
      if (a->size() == b->size() && polyAdd(a, b, -1)->empty()) r = a;
      else r = polyAtom(newAtom(A_ITE, n.a, 0, a, b));
      break;
    }
    case RUF: {
      Poly a = polyOf(n.a);
      if (n.ival == F_SQRT) { r = polySqrt(a); break; }
      if (a->size() == 1 && a->front().first == 0) { // symbols cancelled: the argument is a number
        double x = a->front().second.get_d(), y = NAN;
        switch (n.ival) { case F_SIN: y = std::sin(x); break; case F_COS: y = std::cos(x); break; case F_EXP: y = std::exp(x); break; case F_LOG: if (x > 0) y = std::log(x); break; default: break; }
        if (std::isfinite(y)) { r = polyConst(mpq_class(y)); break; }
      }
      if (n.ival == F_SIN || n.ival == F_COS) {
        if (a->empty()) { r = polyConst(n.ival == F_SIN ? 0 : 1); break; }
        bool neg = a->front().second < 0; if (neg) a = polyScale(a, -1);
        r = polyAtom(newAtom(A_UF, 0, n.ival, a, nullptr)); if (neg && n.ival == F_SIN) r = polyScale(r, -1); break;
      }
      if (n.ival == F_POW) {
        Poly b = polyOf(n.b);
        if (b->size() == 1 && b->front().first == 0) {
          double c = b->front().second.get_d(); double fl = std::floor(c + 1e-9), fr = c - fl;
          if (std::fabs(fl) < 64) {
            Poly ip = polyPow(a, (int)fl);
            if (std::fabs(fr) < 1e-7) { r = ip; break; }
            if (std::fabs(fr - 0.5) < 1e-7) { r = polyMul(ip, polySqrt(a)); break; }
            r = polyMul(ip, polyAtom(newAtom(A_UF, 0, F_POW, a, polyConst(mpq_class(fr))))); break;
          }
        }
        if (!b->empty() && b->front().second < 0) { r = polyAtom(newAtom(A_UF, 0, F_POW, a, polyScale(b, -1)), -1); break; }
        r = polyAtom(newAtom(A_UF, 0, F_POW, a, b)); break;
      }
      if (n.ival == F_ATAN2) {
        Poly b = polyOf(n.b);
        if (!b->empty()) { mpq_class k = abs(b->front().second); a = polyScale(a, 1 / k); b = polyScale(b, 1 / k); }
        r = polyAtom(newAtom(A_UF, 0, F_ATAN2, a, b)); break;
      }
      r = polyAtom(newAtom(A_UF, 0, (int)n.ival, a, n.b ? polyOf(n.b) : nullptr)); break;
    }
    default: throw Inconclusive("not a real term in polyOf");
  }
  PM[e] = r; return r;
}
void polyAtoms(const Poly &p, std::set<uint32_t> &out, bool deep) {
  for (auto &t : *p) for (auto &f : MONOS[t.first].f) {
    if (!out.insert(f.first).second) continue;
    if (deep) { Atom A = ATOMS[f.first]; if (A.p) polyAtoms(A.p, out, deep); if (A.q) polyAtoms(A.q, out, deep); }
  }
}
bool polyHasKind(const Poly &p, AtomKind k, bool deep) { std::set<uint32_t> s; polyAtoms(p, s, deep); for (auto a : s) if (ATOMS[a].kind == k) return true; return false; }
void clearInv(Poly &d, Poly &s) {
  for (int iter = 0; iter < 12; iter++) {
    std::set<uint32_t> at; polyAtoms(d, at, false);
    // choose the inverse atom created last (outermost)
    uint32_t best = UINT32_MAX; for (auto a : at) if (ATOMS[a].kind == A_INV) best = (best == UINT32_MAX) ? a : std::max(best, a);
    if (best == UINT32_MAX) return;
    auto deg = [&](const Poly &p) { int k = 0; for (auto &t : *p) for (auto &f : MONOS[t.first].f) if (f.first == best) k = std::max(k, f.second); return k; };
    int k = std::max(deg(d), deg(s));
    std::vector<Poly> pw; for (int i = 0; i <= k + 8; i++) pw.push_back(i == 0 ? polyConst(1) : polyMul(pw.back(), ATOMS[best].p));
    auto conv = [&](const Poly &p) {
      std::map<int, std::shared_ptr<PolyV>> by;
      for (auto &t : *p) {
        int e = 0; std::vector<std::pair<uint32_t, int>> g; for (auto &f : MONOS[t.first].f) { if (f.first == best) e = f.second; else g.push_back(f); }
        if (!by[e]) by[e] = std::make_shared<PolyV>(); by[e]->push_back({monoId(g), t.second});
      }
      Poly r = P0();
      for (auto &kv : by) { std::sort(kv.second->begin(), kv.second->end(), [](auto &x, auto &y) { return x.first < y.first; }); int q = k - kv.first; while ((int)pw.size() <= q) pw.push_back(polyMul(pw.back(), ATOMS[best].p)); r = polyAdd(r, polyMul(kv.second, pw[q])); }
      return r;
    };
    d = conv(d); s = conv(s);
  }
}

// ---------------- numeric evaluation ----------------
double Eval::real(E e) {
  const Node &n0 = N[e];
  if (n0.op == RCONST) return rconst(e).get_d();
  if (n0.op == RVAR) return vars[n0.ival];
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  const Node n = n0; double r = 0;
  switch (n.op) {
    case RADD: r = real(n.a) + real(n.b); break; case RSUB: r = real(n.a) - real(n.b); break;
    case RMUL: r = real(n.a) * real(n.b); break; case RDIV: r = real(n.a) / real(n.b); break; case RNEG: r = -real(n.a); break;
    case RITE: r = boolean(n.a) ? real(n.b) : real(n.c); break;
    case RFROMI: r = (double)integer(n.a); break;
    case RUF: {
      double x = real(n.a), y = n.b ? real(n.b) : 0;
      switch (n.ival) {
        case F_SQRT: r = std::sqrt(x); break; case F_SIN: r = std::sin(x); break; case F_COS: r = std::cos(x); break; case F_EXP: r = std::exp(x); break;
        case F_LOG: r = std::log(x); break; case F_POW: r = std::pow(x, y); break; case F_ATAN2: r = std::atan2(x, y); break; case F_TAN: r = std::tan(x); break;
        case F_ATAN: r = std::atan(x); break; case F_ACOS: r = std::acos(x); break; case F_ASIN: r = std::asin(x); break; case F_TANH: r = std::tanh(x); break;
        case F_SINH: r = std::sinh(x); break; case F_COSH: r = std::cosh(x); break;
        default: r = std::sin(1.7 * x + 0.3 * n.ival) + 0.1 * std::cos(y); // opaque function
      }
      break;
    }
    default: throw Inconclusive("eval real");
  }
  memo[e] = r; return r;
}
i128 Eval::integer(E e) {
  const Node n = N[e];
  if (n.op == ICONST) return n.ival;
  if (n.op == IVAR) return (i128)(long long)vars[n.ival];
  auto it = imemo.find(e); if (it != imemo.end()) return it->second;
  i128 r = 0;
  switch (n.op) {
    case IADD: r = integer(n.a) + integer(n.b); break; case ISUB: r = integer(n.a) - integer(n.b); break; case IMUL: r = integer(n.a) * integer(n.b); break;
    case IDIVF: { i128 d = integer(n.b); r = d ? fdiv(integer(n.a), d) : 0; break; }
    case IMODF: { i128 d = integer(n.b), a = integer(n.a); r = d ? a - fdiv(a, d) * d : 0; break; }
    case IITE: r = boolean(n.a) ? integer(n.b) : integer(n.c); break;
    case IFLOOR: { double x = std::floor(real(n.a)); r = (x > 9e18 || x < -9e18 || x != x) ? 0 : (i128)(long long)x; break; }
    default: throw Inconclusive("eval int");
  }
  imemo[e] = r; return r;
}
bool Eval::boolean(E e) {
  const Node n = N[e];
  if (n.op == BCONST) return n.ival;
  auto it = bmemo.find(e); if (it != bmemo.end()) return it->second;
  bool r = false;
  switch (n.op) {
    case BLT: r = real(n.a) > 0; break; case BEQ: r = real(n.a) == 0; break;
    case BILT: r = integer(n.a) < integer(n.b); break; case BIEQ: r = integer(n.a) == integer(n.b); break;
    case BAND: r = boolean(n.a) && boolean(n.b); break; case BOR: r = boolean(n.a) || boolean(n.b); break; case BNOT: r = !boolean(n.a); break;
    default: throw Inconclusive("eval bool");
  }
  bmemo[e] = r; return r;
}

// ---------------- SMT ----------------
static std::string intStr(const mpz_class &z) { if (z < 0) return "(- " + mpz_class(-z).get_str() + ")"; return z.get_str(); }
std::string ratStr(const mpq_class &q) {
  mpz_class n = q.get_num(), d = q.get_den(); bool neg = n < 0; if (neg) n = -n;
  std::string s = d == 1 ? n.get_str() + ".0" : "(/ " + n.get_str() + ".0 " + d.get_str() + ".0)";
  return neg ? "(- " + s + ")" : s;
}
static std::string dstr(double d) { return ratStr(mpq_class(d)); }
std::string SmtCtx::var(int v) {
  std::string nm = "v" + std::to_string(v);
  if (usedVars.insert(v).second) {
    const VarInfo &V = VARS[v];
    decls += "(declare-const " + nm + (V.isInt ? " Int" : " Real") + ") ; " + V.name + "\n";
    if (V.isInt) defs += "(assert (and (<= " + intStr(mpz_class(mpq_class(V.lo))) + " " + nm + ") (<= " + nm + " " + intStr(mpz_class(mpq_class(V.hi))) + ")))\n";
    else {
      if (std::isfinite(V.lo)) defs += "(assert (<= " + dstr(V.lo) + " " + nm + "))\n";
      if (std::isfinite(V.hi)) defs += "(assert (<= " + nm + " " + dstr(V.hi) + "))\n";
    }
  }
  return nm;
}
std::string SmtCtx::atom(uint32_t a) {
  auto it = aname.find(a); if (it != aname.end()) return it->second;
  Atom A = ATOMS[a]; std::string nm;
  switch (A.kind) {
    case A_VAR: nm = var(N[A.e].ival); break;
    case A_INT: nm = "(to_real " + i(A.e) + ")"; break;
    case A_INV: { std::string p = poly(A.p); nm = "inv" + std::to_string(a); decls += "(declare-const " + nm + " Real)\n"; defs += "(assert (= (* " + nm + " " + p + ") 1.0))\n"; nonlinear = true; break; }
    case A_SQRT: { std::string p = poly(A.p); nm = "sq" + std::to_string(a); decls += "(declare-const " + nm + " Real)\n"; defs += "(assert (and (>= " + nm + " 0.0) (= (* " + nm + " " + nm + ") " + p + ")))\n"; nonlinear = true; break; }
    case A_ITE: { std::string c = b(A.e), p = poly(A.p), q = poly(A.q); nm = "it" + std::to_string(a); decls += "(declare-const " + nm + " Real)\n"; defs += "(assert (= " + nm + " (ite " + c + " " + p + " " + q + ")))\n"; break; }
    case A_UF: {
      nm = "uf" + std::to_string(a) + "_" + UFNAMES[A.f]; decls += "(declare-const " + nm + " Real)\n";
      if (std::isfinite(A.lo)) defs += "(assert (<= " + dstr(A.lo) + " " + nm + "))\n";
      if (std::isfinite(A.hi)) defs += "(assert (<= " + nm + " " + dstr(A.hi) + "))\n";
      // Two applications whose arguments are nearly equal (rounded constants): a Lipschitz bound ties their values.
      if (A.f == F_SIN || A.f == F_COS || A.f == F_TANH || (A.f == F_EXP && std::isfinite(A.hi))) {
        for (auto &o : aname) {
          const Atom &B = ATOMS[o.first]; if (B.kind != A_UF || B.f != A.f) continue;
          double lo, hi, d; polyRange(polyAdd(A.p, B.p, -1), lo, hi); d = std::max(std::fabs(lo), std::fabs(hi)) * (1 + 1e-9);
          if (A.f == F_EXP) d *= std::max(std::fabs(A.hi), std::fabs(B.hi));
          if (d < 1e-3) defs += "(assert (and (<= (- " + nm + " " + o.second + ") " + dstr(d) + ") (<= (- " + o.second + " " + nm + ") " + dstr(d) + ")))\n";
        }
      }
      break;
    }
    default: throw Inconclusive("smt atom");
  }
  aname[a] = nm; return nm;
}
std::string SmtCtx::poly(const Poly &p) {
  if (p->empty()) return "0.0";
  std::string s; 
  for (auto &t : *p) {
    std::string num, den; int cn = 0, cd = 0;
    for (auto &f : MONOS[t.first].f) {
      std::string an;
      if (f.second < 0) { // negative power of a plain atom: introduce reciprocal
        std::string base = atom(f.first); an = "rc" + std::to_string(f.first);
        static std::string dummy;
        if (!ename.count(0x80000000u | f.first)) { ename[0x80000000u | f.first] = an; decls += "(declare-const " + an + " Real)\n"; defs += "(assert (= (* " + an + " " + base + ") 1.0))\n"; nonlinear = true; }
      } else an = atom(f.first);
      for (int k = 0; k < std::abs(f.second); k++) { num += " " + an; cn++; }
    }
    (void)den; (void)cd;
    std::string term;
    if (cn == 0) term = ratStr(t.second);
    else if (t.second == 1 && cn == 1) term = num.substr(1);
    else { term = "(* " + ratStr(t.second) + num + ")"; if (cn > 1) nonlinear = true; }
    s += " " + term;
  }
  if (p->size() == 1) return s.substr(1);
  return "(+" + s + ")";
}
std::string SmtCtx::r(E e) { return poly(polyOf(e)); }
std::string SmtCtx::i(E e) {
  const Node n = N[e];
  if (n.op == ICONST) return intStr(mpz_class((long)n.ival));
  if (n.op == IVAR) return var(n.ival);
  auto it = ename.find(e); if (it != ename.end()) return it->second;
  std::string x;
  switch (n.op) {
    case IADD: x = "(+ " + i(n.a) + " " + i(n.b) + ")"; break;
    case ISUB: x = "(- " + i(n.a) + " " + i(n.b) + ")"; break;
    case IMUL: x = "(* " + i(n.a) + " " + i(n.b) + ")"; if (!isIConst(n.a) && !isIConst(n.b)) nonlinear = true; break;
    case IDIVF: x = "(div " + i(n.a) + " " + i(n.b) + ")"; if (!isIConst(n.b)) nonlinear = true; break;
    case IMODF: x = "(mod " + i(n.a) + " " + i(n.b) + ")"; if (!isIConst(n.b)) nonlinear = true; break;
    case IITE: x = "(ite " + b(n.a) + " " + i(n.b) + " " + i(n.c) + ")"; break;
    case IFLOOR: x = "(to_int " + r(n.a) + ")"; break;
    default: throw Inconclusive("smt int: raw bits of a real in an integer context");
  }
  std::string nm = "i" + std::to_string(cnt++); 
  decls += "(declare-const " + nm + " Int)\n"; defs += "(assert (= " + nm + " " + x + "))\n";
  ename[e] = nm; return nm;
}
std::string SmtCtx::b(E e) {
  const Node n = N[e];
  if (n.op == BCONST) return n.ival ? "true" : "false";
  auto it = ename.find(e); if (it != ename.end()) return it->second;
  std::string x;
  switch (n.op) {
    case BLT: x = "(> " + r(n.a) + " 0.0)"; break;
    case BEQ: x = "(= " + r(n.a) + " 0.0)"; break;
    case BILT: x = "(< " + i(n.a) + " " + i(n.b) + ")"; break;
    case BIEQ: x = "(= " + i(n.a) + " " + i(n.b) + ")"; break;
    case BAND: x = "(and " + b(n.a) + " " + b(n.b) + ")"; break;
    case BOR: x = "(or " + b(n.a) + " " + b(n.b) + ")"; break;
    case BNOT: x = "(not " + b(n.a) + ")"; break;
    default: throw Inconclusive("smt bool");
  }
  std::string nm = "b" + std::to_string(cnt++);
  decls += "(declare-const " + nm + " Bool)\n"; defs += "(assert (= " + nm + " " + x + "))\n";
  ename[e] = nm; return nm;
}
std::string exprStr(E e, int depth) {
  if (!e) return "?";
  const Node n = N[e]; auto s = [&](E x) { return depth > 0 ? exprStr(x, depth - 1) : std::string("..."); };
  switch (n.op) {
    case RCONST: { char b[64]; snprintf(b, 64, "%.10g", rconst(e).get_d()); return b; }
    case RVAR: case IVAR: return VARS[n.ival].name;
    case RADD: case IADD: return "(" + s(n.a) + " + " + s(n.b) + ")"; case RSUB: case ISUB: return "(" + s(n.a) + " - " + s(n.b) + ")";
    case RMUL: case IMUL: return s(n.a) + "*" + s(n.b); case RDIV: return s(n.a) + "/" + s(n.b); case RNEG: return "-" + s(n.a);
    case RITE: case IITE: return "ite(" + s(n.a) + "," + s(n.b) + "," + s(n.c) + ")";
    case RUF: return UFNAMES[n.ival] + "(" + s(n.a) + (n.b ? "," + s(n.b) : "") + ")"; case RFROMI: return "real(" + s(n.a) + ")";
    case ICONST: return std::to_string(n.ival); case IDIVF: return "div(" + s(n.a) + "," + s(n.b) + ")"; case IMODF: return "mod(" + s(n.a) + "," + s(n.b) + ")";
    case IFLOOR: return "floor(" + s(n.a) + ")"; case RBITS: return "bits(" + s(n.a) + ")"; case ICONCAT: return "cat(" + s(n.a) + "," + s(n.b) + ")";
    case BCONST: return n.ival ? "T" : "F"; case BLT: return "(0<" + s(n.a) + ")"; case BEQ: return "(0==" + s(n.a) + ")";
    case BILT: return "(" + s(n.a) + "<" + s(n.b) + ")"; case BIEQ: return "(" + s(n.a) + "==" + s(n.b) + ")";
    case BAND: return "(" + s(n.a) + "&" + s(n.b) + ")"; case BOR: return "(" + s(n.a) + "|" + s(n.b) + ")"; case BNOT: return "!" + s(n.a);
    default: return "?";
  }
}
void collectVars(E e, std::set<int> &vars) {
  static std::unordered_map<E, std::shared_ptr<std::set<int>>> memo;
  std::set<E> seen; std::vector<E> st{e};
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; const Node &n = N[x]; if (n.op == RVAR || n.op == IVAR) vars.insert(n.ival); if (n.op == RCONST || n.op == ICONST || n.op == BCONST) continue; st.push_back(n.a); st.push_back(n.b); st.push_back(n.c); }
}
