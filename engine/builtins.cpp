// library functions, LLVM intrinsics, the OpenMP runtime and the harness API
#include "interp.hpp"
#include <cmath>
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <immintrin.h>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;

std::unordered_map<std::string, Builtin> BUILTINS;
void checkedRange(uint64_t a, size_t n, bool store);
Val doFCmp(int p, const Val &a, const Val &b, const Lane &l);
Val selectVal(E c, const Val &a, const Val &b, const Lane &l);
double nowSec();
typedef const std::vector<Lanes> &AT;
static inline double D(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline float Fl(uint64_t b) { float f; uint32_t u = (uint32_t)b; memcpy(&f, &u, 4); return f; }
static inline uint64_t Db(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint64_t Fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t msk(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline int64_t sx(uint64_t b, int w) { return w >= 64 ? (int64_t)b : (int64_t)(b << (64 - w)) >> (64 - w); }
static const Lane LD = {L_F64, 64, 0}, LF = {L_F32, 32, 0}, LI64 = {L_INT, 64, 0}, LI32 = {L_INT, 32, 0};
static double dval(const Val &v, const Lane &l) { return l.k == L_F32 ? Fl(v.b) : D(v.b); }
static Val mkF(double d, const Lane &l) { return l.k == L_F32 ? CV(Fb((float)d)) : CV(Db(d)); }
static uint64_t conc(const Val &v, int w, const char *what) { return v.e ? (uint64_t)concretize(toInt(v, w), w, what) : v.b; }
std::string cstr(uint64_t a) { std::string s; for (int i = 0; i < 4096; i++) { if (anySymbolic(a + i, 1)) throw Inconclusive("symbolic string"); char c = *(char *)(a + i); if (!c) break; s += c; } return s; }

// ---------------- elementary functions ----------------
static E eFloor(E x) { return mkRFromI(mkIFloor(x)); }
static E eTrunc(E x) { double lo, hi; realInterval(x, lo, hi); if (lo > -1 && hi < 1) return mkRConst(0); if (lo >= 0) return eFloor(x); return mkRIte(mkRLt(x, mkRConst(0)), mkRNeg(eFloor(mkRNeg(x))), eFloor(x)); }
static E eCeil(E x) { return mkRNeg(eFloor(mkRNeg(x))); }
static E eRint(E x) { // to nearest, ties to even
  E h = mkRAdd(x, mkRConst(mpq_class(1, 2))); E n = mkIFloor(h); E tie = mkAnd(mkREq(mkRFromI(n), h), mkIEq(mkIModF(n, mkIConst(2)), mkIConst(1)));
  return mkRFromI(mkIIte(tie, mkISub(n, mkIConst(1)), n));
}
static E eRound(E x) { E h = mkRConst(mpq_class(1, 2)); return mkRIte(mkRLt(x, mkRConst(0)), mkRNeg(eFloor(mkRAdd(mkRNeg(x), h))), eFloor(mkRAdd(x, h))); }
static Val mathUn(const std::string &f, const Val &v, const Lane &l) {
  if (!v.e) {
    double x = dval(v, l), r; bool sf = l.k == L_F32; float xf = (float)x;
#define M1(nm) if (f == #nm) return mkF(sf ? (double)nm##f(xf) : nm(x), l);
    M1(sqrt) M1(fabs) M1(floor) M1(ceil) M1(trunc) M1(rint) M1(nearbyint) M1(round) M1(sin) M1(cos) M1(tan) M1(exp) M1(log) M1(atan) M1(asin) M1(acos) M1(sinh) M1(cosh) M1(tanh) M1(exp2) M1(log2) M1(log10) M1(cbrt) M1(log1p) M1(expm1) M1(erf) M1(erfc) M1(tgamma) M1(lgamma) M1(asinh) M1(acosh) M1(atanh) M1(exp10)
    (void)r; throw Inconclusive("math function " + f);
  }
  E x = toReal(v, l);
  if (f == "sqrt") return fromReal(mkRUF(F_SQRT, x), l);
  if (f == "fabs") return fromReal(mkRAbs(x), l);
  if (f == "floor") return fromReal(eFloor(x), l);
  if (f == "ceil") return fromReal(eCeil(x), l);
  if (f == "trunc") return fromReal(eTrunc(x), l);
  if (f == "rint" || f == "nearbyint" || f == "roundeven") return fromReal(eRint(x), l);
  if (f == "round") return fromReal(eRound(x), l);
  static const std::map<std::string, int> U = {{"sin", F_SIN}, {"cos", F_COS}, {"tan", F_TAN}, {"exp", F_EXP}, {"log", F_LOG}, {"atan", F_ATAN}, {"asin", F_ASIN}, {"acos", F_ACOS}, {"sinh", F_SINH}, {"cosh", F_COSH}, {"tanh", F_TANH}};
  auto it = U.find(f); if (it != U.end()) return fromReal(mkRUF(it->second, x), l);
  if (f == "exp2") return fromReal(mkRUF(F_POW, mkRConst(2), x), l);
  if (f == "exp10") return fromReal(mkRUF(F_POW, mkRConst(10), x), l);
  if (f == "log2") return fromReal(mkRDiv(mkRUF(F_LOG, x), mkRConstD(M_LN2)), l);
  if (f == "log10") return fromReal(mkRDiv(mkRUF(F_LOG, x), mkRConstD(M_LN10)), l);
  if (f == "cbrt") return fromReal(mkRUF(F_POW, x, mkRConst(mpq_class(1, 3))), l);
  return fromReal(mkRUF(ufId(f), x), l);
}
static E ePow(E x, E y) {
  if (isRConst(y)) { const mpq_class &q = rconst(y); if (q.get_den() == 1 && abs(q) <= 64) { long k = q.get_num().get_si(); E r = mkRConst(1); for (long i = 0; i < labs(k); i++) r = mkRMul(r, x); return k < 0 ? mkRDiv(mkRConst(1), r) : r; } if ((q.get_den() == 2 || q.get_den() == 4 || q.get_den() == 8) && abs(q.get_num()) <= 64) { E b = x; for (long d = q.get_den().get_si(); d > 1; d /= 2) b = mkRUF(F_SQRT, b); long k = q.get_num().get_si(); E r = mkRConst(1); for (long i = 0; i < labs(k); i++) r = mkRMul(r, b); return k < 0 ? mkRDiv(mkRConst(1), r) : r; } }
  return mkRUF(F_POW, x, y);
}
static Val mathBin(const std::string &f, const Val &a, const Val &b, const Lane &l) {
  if (!a.e && !b.e) {
    double x = dval(a, l), y = dval(b, l); bool sf = l.k == L_F32;
#define M2(nm) if (f == #nm) return mkF(sf ? (double)nm##f((float)x, (float)y) : nm(x, y), l);
    M2(pow) M2(atan2) M2(fmod) M2(fmin) M2(fmax) M2(hypot) M2(copysign) M2(remainder) M2(fdim)
    throw Inconclusive("math function " + f);
  }
  E x = toReal(a, l), y = toReal(b, l);
  if (f == "pow") return fromReal(ePow(x, y), l);
  if (f == "atan2") return fromReal(mkRUF(F_ATAN2, x, y), l);
  if (f == "fmin") return fromReal(mkRMin(x, y), l);
  if (f == "fmax") return fromReal(mkRMax(x, y), l);
  if (f == "hypot") return fromReal(mkRUF(F_SQRT, mkRAdd(mkRMul(x, x), mkRMul(y, y))), l);
  if (f == "copysign") { E ax = mkRAbs(x); return fromReal(mkRIte(mkRLt(y, mkRConst(0)), mkRNeg(ax), ax), l); }
  if (f == "fmod") { E t = eTrunc(mkRDiv(x, y)); return fromReal(mkRSub(x, mkRMul(y, t)), l); }
  if (f == "remainder") { E t = eRint(mkRDiv(x, y)); return fromReal(mkRSub(x, mkRMul(y, t)), l); }
  if (f == "fdim") return fromReal(mkRMax(mkRSub(x, y), mkRConst(0)), l);
  throw Inconclusive("math function " + f);
}
static Val vadd(const Val &a, const Val &b, const Lane &l) { if (!a.e && !b.e) return l.k == L_F32 ? CV(Fb(Fl(a.b) + Fl(b.b))) : CV(Db(D(a.b) + D(b.b))); return fromReal(mkRAdd(toReal(a, l), toReal(b, l)), l); }
static Val vsub(const Val &a, const Val &b, const Lane &l) { if (!a.e && !b.e) return l.k == L_F32 ? CV(Fb(Fl(a.b) - Fl(b.b))) : CV(Db(D(a.b) - D(b.b))); return fromReal(mkRSub(toReal(a, l), toReal(b, l)), l); }
static Val vmul(const Val &a, const Val &b, const Lane &l) { if (!a.e && !b.e) return l.k == L_F32 ? CV(Fb(Fl(a.b) * Fl(b.b))) : CV(Db(D(a.b) * D(b.b))); return fromReal(mkRMul(toReal(a, l), toReal(b, l)), l); }
static Val vdiv(const Val &a, const Val &b, const Lane &l) { if (!a.e && !b.e) return l.k == L_F32 ? CV(Fb(Fl(a.b) / Fl(b.b))) : CV(Db(D(a.b) / D(b.b))); return fromReal(mkRDiv(toReal(a, l), toReal(b, l)), l); }
static Val vfma(const Val &a, const Val &b, const Val &c, const Lane &l) { if (!a.e && !b.e && !c.e) return l.k == L_F32 ? CV(Fb(std::fma(Fl(a.b), Fl(b.b), Fl(c.b)))) : CV(Db(std::fma(D(a.b), D(b.b), D(c.b)))); return vadd(vmul(a, b, l), c, l); }
static Val vneg(const Val &a, const Lane &l) { if (!a.e) return CV(a.b ^ (l.k == L_F32 ? 0x80000000ull : 1ull << 63)); return fromReal(mkRNeg(toReal(a, l)), l); }
static Val imin(bool sgn, bool mx, const Val &a, const Val &b, int w) {
  if (!a.e && !b.e) { bool lt = sgn ? sx(a.b, w) < sx(b.b, w) : (a.b & msk(w)) < (b.b & msk(w)); return lt != mx ? a : b; }
  E x = toInt(a, w), y = toInt(b, w); E c = sgn ? mkILt(x, y) : mkILt(toU(x, w), toU(y, w)); return fromInt(mx ? mkIIte(c, y, x) : mkIIte(c, x, y), w);
}

// ---------------- LLVM intrinsics ----------------
static void doMemcpy(uint64_t d, uint64_t s, uint64_t n) { if (!n) return; checkedRange(s, n, false); checkedRange(d, n, true); memCopy(d, s, n); }
static void doMemset(uint64_t d, const Val &c, uint64_t n) { if (!n) return; checkedRange(d, n, true); if (c.e) throw Inconclusive("symbolic memset"); memSet(d, (int)c.b, n); }
static Val cvtI32(const Val &v, const Lane &l, bool trunc) { // cvt(t)pd/ps -> int32
  if (!v.e) { double x = dval(v, l); double r = trunc ? std::trunc(x) : std::nearbyint(x); int32_t k = (r >= -2147483648. && r <= 2147483647.) ? (int32_t)r : INT32_MIN; return CV((uint32_t)k); }
  E x = toReal(v, l); E r = trunc ? eTrunc(x) : eRint(x); E i = mkIFloor(r); return fromInt(wrapS(i, 32), 32);
}
bool intrinsicCall(CallBase *cb, Function *F, const Val *a, AT at, Val *ret, const Lanes &rt) {
  size_t n = rt.size(); size_t an = at.empty() ? 0 : at[0].size();
  auto un = [&](const char *f) { for (size_t k = 0; k < n; k++) ret[k] = mathUn(f, a[k], rt[k]); return true; };
  auto bin = [&](const char *f) { for (size_t k = 0; k < n; k++) ret[k] = mathBin(f, a[k], a[n + k], rt[k]); return true; };
  switch (F->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: return true;
    case Intrinsic::invariant_start: if (n) ret[0] = CV(0); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret[0] = a[0]; return true;
    case Intrinsic::expect: case Intrinsic::ssa_copy: ret[0] = a[0]; return true;
    case Intrinsic::objectsize: ret[0] = CV(~0ull); return true;
    case Intrinsic::is_constant: ret[0] = CV(0); return true;
    case Intrinsic::stacksave: ret[0] = CV(0); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(a[0].b, a[1].b, conc(a[2], 64, "memcpy size")); return true;
    case Intrinsic::memset: doMemset(a[0].b, a[1], conc(a[2], 64, "memset size")); return true;
    case Intrinsic::fma: case Intrinsic::fmuladd: for (size_t k = 0; k < n; k++) ret[k] = vfma(a[k], a[n + k], a[2 * n + k], rt[k]); return true;
    case Intrinsic::sqrt: return un("sqrt"); case Intrinsic::fabs: return un("fabs"); case Intrinsic::floor: return un("floor"); case Intrinsic::ceil: return un("ceil"); case Intrinsic::trunc: return un("trunc");
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un("rint"); case Intrinsic::round: return un("round");
    case Intrinsic::sin: return un("sin"); case Intrinsic::cos: return un("cos"); case Intrinsic::exp: return un("exp"); case Intrinsic::log: return un("log"); case Intrinsic::exp2: return un("exp2"); case Intrinsic::log2: return un("log2"); case Intrinsic::log10: return un("log10");
    case Intrinsic::pow: return bin("pow"); case Intrinsic::copysign: return bin("copysign"); case Intrinsic::minnum: return bin("fmin"); case Intrinsic::maxnum: return bin("fmax");
    case Intrinsic::powi: { int64_t e = sx(conc(a[n], 32, "powi"), 32); for (size_t k = 0; k < n; k++) ret[k] = mathBin("pow", a[k], mkF((double)e, rt[k]), rt[k]); return true; }
    case Intrinsic::abs: for (size_t k = 0; k < n; k++) { int w = rt[k].w; if (!a[k].e) { int64_t s = sx(a[k].b, w); ret[k] = CV((uint64_t)(s < 0 ? -s : s) & msk(w)); } else { E x = toInt(a[k], w); if (N[x].op == RBITS) throw Inconclusive("abs of bits"); ret[k] = fromInt(wrapS(mkIIte(mkILt(x, mkIConst(0)), mkISub(mkIConst(0), x), x), w), w); } } return true;
    case Intrinsic::smin: for (size_t k = 0; k < n; k++) ret[k] = imin(true, false, a[k], a[n + k], rt[k].w); return true;
    case Intrinsic::smax: for (size_t k = 0; k < n; k++) ret[k] = imin(true, true, a[k], a[n + k], rt[k].w); return true;
    case Intrinsic::umin: for (size_t k = 0; k < n; k++) ret[k] = imin(false, false, a[k], a[n + k], rt[k].w); return true;
    case Intrinsic::umax: for (size_t k = 0; k < n; k++) ret[k] = imin(false, true, a[k], a[n + k], rt[k].w); return true;
    case Intrinsic::usub_sat: for (size_t k = 0; k < n; k++) { int w = rt[k].w; if (!a[k].e && !a[n + k].e) { uint64_t x = a[k].b & msk(w), y = a[n + k].b & msk(w); ret[k] = CV(x > y ? x - y : 0); } else { E x = toU(toInt(a[k], w), w), y = toU(toInt(a[n + k], w), w); ret[k] = fromInt(wrapS(mkIIte(mkILt(y, x), mkISub(x, y), mkIConst(0)), w), w); } } return true;
    case Intrinsic::uadd_sat: { int w = rt[0].w; if (a[0].e || a[1].e) break; uint64_t r = a[0].b + a[1].b; ret[0] = CV(r < a[0].b || r > msk(w) ? msk(w) : r); return true; }
    case Intrinsic::ctpop: for (size_t k = 0; k < n; k++) ret[k] = CV(__builtin_popcountll(conc(a[k], rt[k].w, "ctpop") & msk(rt[k].w))); return true;
    case Intrinsic::cttz: for (size_t k = 0; k < n; k++) { uint64_t x = conc(a[k], rt[k].w, "cttz") & msk(rt[k].w); ret[k] = CV(x ? __builtin_ctzll(x) : rt[k].w); } return true;
    case Intrinsic::ctlz: for (size_t k = 0; k < n; k++) { uint64_t x = conc(a[k], rt[k].w, "ctlz") & msk(rt[k].w); ret[k] = CV(x ? __builtin_clzll(x) - (64 - rt[k].w) : rt[k].w); } return true;
    case Intrinsic::bswap: { int w = rt[0].w; uint64_t x = conc(a[0], w, "bswap"); ret[0] = CV(w == 64 ? __builtin_bswap64(x) : w == 32 ? __builtin_bswap32(x) : __builtin_bswap16(x)); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: for (size_t k = 0; k < n; k++) { int w = rt[k].w; uint64_t x = conc(a[k], w, "fshl") & msk(w), y = conc(a[n + k], w, "fshl") & msk(w), s = conc(a[2 * n + k], w, "fshl") % w; bool L = F->getIntrinsicID() == Intrinsic::fshl; if (!s) ret[k] = CV(L ? x : y); else ret[k] = CV((L ? (x << s) | (y >> (w - s)) : (x << (w - s)) | (y >> s)) & msk(w)); } return true;
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      int w = rt[0].w; auto id = F->getIntrinsicID(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      E x = toInt(a[0], w), y = toInt(a[1], w); if (!sg) { x = toU(x, w); y = toU(y, w); }
      E r = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? mkIAdd(x, y) : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? mkISub(x, y) : mkIMul(x, y);
      i128 lo = sg ? -((i128)1 << (w - 1)) : 0, hi = sg ? ((i128)1 << (w - 1)) - 1 : ((i128)1 << w) - 1;
      ret[0] = fromInt(wrapS(r, w), w); E ov = mkNot(mkAnd(mkILe(mkIConst(lo), r), mkILe(r, mkIConst(hi)))); ret[1] = fromBool(ov); return true;
    }
    case Intrinsic::vector_reduce_fadd: { Val r = a[0]; for (size_t k = 0; k < at[1].size(); k++) r = vadd(r, a[1 + k], rt[0]); ret[0] = r; return true; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: {
      bool sym = false; for (size_t k = 0; k < an; k++) if (a[k].e) sym = true; int w = rt[0].w; auto id = F->getIntrinsicID();
      if (!sym) { uint64_t r = id == Intrinsic::vector_reduce_and ? ~0ull : 0; for (size_t k = 0; k < an; k++) r = id == Intrinsic::vector_reduce_add ? r + a[k].b : id == Intrinsic::vector_reduce_or ? r | a[k].b : r & a[k].b; ret[0] = CV(r & msk(w)); return true; }
      if (id == Intrinsic::vector_reduce_add) { E r = mkIConst(0); for (size_t k = 0; k < an; k++) r = mkIAdd(r, toInt(a[k], w)); ret[0] = fromInt(wrapS(r, w), w); return true; }
      if (w == 1) { E r = mkBool(id == Intrinsic::vector_reduce_and); for (size_t k = 0; k < an; k++) r = id == Intrinsic::vector_reduce_or ? mkOr(r, toBool(a[k])) : mkAnd(r, toBool(a[k])); ret[0] = fromBool(r); return true; }
      break;
    }
    case Intrinsic::trap: case Intrinsic::debugtrap: throw PathEnd{"trap"};
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw Inconclusive("variadic function body");
    // ---- x86 ----
    case Intrinsic::x86_avx_hadd_pd_256: { Val r[4] = {vadd(a[0], a[1], LD), vadd(a[4], a[5], LD), vadd(a[2], a[3], LD), vadd(a[6], a[7], LD)}; for (int k = 0; k < 4; k++) ret[k] = r[k]; return true; }
    case Intrinsic::x86_avx_hsub_pd_256: { Val r[4] = {vsub(a[0], a[1], LD), vsub(a[4], a[5], LD), vsub(a[2], a[3], LD), vsub(a[6], a[7], LD)}; for (int k = 0; k < 4; k++) ret[k] = r[k]; return true; }
    case Intrinsic::x86_avx_hadd_ps_256: case Intrinsic::x86_avx_hsub_ps_256: { bool s = F->getIntrinsicID() == Intrinsic::x86_avx_hsub_ps_256; auto op = s ? vsub : vadd; Val r[8]; for (int h = 0; h < 2; h++) { int o = 4 * h; r[o] = op(a[o], a[o + 1], LF); r[o + 1] = op(a[o + 2], a[o + 3], LF); r[o + 2] = op(a[8 + o], a[8 + o + 1], LF); r[o + 3] = op(a[8 + o + 2], a[8 + o + 3], LF); } for (int k = 0; k < 8; k++) ret[k] = r[k]; return true; }
    case Intrinsic::x86_sse3_hadd_pd: { Val r0 = vadd(a[0], a[1], LD), r1 = vadd(a[2], a[3], LD); ret[0] = r0; ret[1] = r1; return true; }
    case Intrinsic::x86_sse3_hadd_ps: { Val r[4] = {vadd(a[0], a[1], LF), vadd(a[2], a[3], LF), vadd(a[4], a[5], LF), vadd(a[6], a[7], LF)}; for (int k = 0; k < 4; k++) ret[k] = r[k]; return true; }
    case Intrinsic::x86_avx_addsub_pd_256: { for (int k = 0; k < 4; k++) ret[k] = k & 1 ? vadd(a[k], a[4 + k], LD) : vsub(a[k], a[4 + k], LD); return true; }
    case Intrinsic::x86_avx_addsub_ps_256: { for (int k = 0; k < 8; k++) ret[k] = k & 1 ? vadd(a[k], a[8 + k], LF) : vsub(a[k], a[8 + k], LF); return true; }
    case Intrinsic::x86_avx_min_pd_256: case Intrinsic::x86_avx_min_ps_256: for (size_t k = 0; k < n; k++) ret[k] = mathBin("fmin", a[k], a[n + k], rt[k]); return true;
    case Intrinsic::x86_avx_max_pd_256: case Intrinsic::x86_avx_max_ps_256: for (size_t k = 0; k < n; k++) ret[k] = mathBin("fmax", a[k], a[n + k], rt[k]); return true;
    case Intrinsic::x86_avx_round_pd_256: case Intrinsic::x86_avx_round_ps_256: case Intrinsic::x86_sse41_round_pd: case Intrinsic::x86_sse41_round_ps: { int m = a[n].b & 7; const char *f = m == 0 || m == 4 ? "rint" : m == 1 ? "floor" : m == 2 ? "ceil" : "trunc"; for (size_t k = 0; k < n; k++) ret[k] = mathUn(f, a[k], rt[k]); return true; }
    case Intrinsic::x86_avx_cvt_pd2dq_256: case Intrinsic::x86_avx_cvt_ps2dq_256: for (size_t k = 0; k < n; k++) ret[k] = cvtI32(a[k], at[0][k], false); return true;
    case Intrinsic::x86_avx_cvtt_pd2dq_256: case Intrinsic::x86_avx_cvtt_ps2dq_256: for (size_t k = 0; k < n; k++) ret[k] = cvtI32(a[k], at[0][k], true); return true;
    case Intrinsic::x86_avx_blendv_pd_256: case Intrinsic::x86_avx_blendv_ps_256: for (size_t k = 0; k < n; k++) { const Val &m = a[2 * n + k]; if (!m.e) ret[k] = (m.b >> (rt[k].w - 1)) & 1 ? a[n + k] : a[k]; else { E c; if (N[m.e].sort == S_INT && N[m.e].op != RBITS) c = mkILt(m.e, mkIConst(0)); else c = mkRLt(toReal(m, rt[k]), mkRConst(0)); ret[k] = selectVal(c, a[n + k], a[k], rt[k]); } } return true;
    case Intrinsic::x86_avx_cmp_pd_256: case Intrinsic::x86_avx_cmp_ps_256: { static const int P[8] = {1, 4, 5, 8, 14, 11, 10, 7}; int im = a[2 * n].b & 31; int p = im < 8 ? P[im] : im == 13 ? 3 : im == 14 ? 2 : im == 17 ? 4 : im == 18 ? 5 : im == 29 ? 3 : im == 30 ? 2 : im == 16 ? 1 : -1; if (p < 0) break; int w = rt[0].w; for (size_t k = 0; k < n; k++) { Val c = doFCmp(p, a[k], a[n + k], rt[k]); if (!c.e) ret[k] = CV(c.b ? msk(w) : 0); else ret[k] = SV(mkIIte(toBool(c), mkIConst(-1), mkIConst(0))); } return true; }
    case Intrinsic::x86_avx_movmsk_pd_256: case Intrinsic::x86_avx_movmsk_ps_256: { E r = mkIConst(0); for (size_t k = 0; k < an; k++) { const Val &m = a[k]; E c = !m.e ? mkBool((m.b >> (at[0][k].w - 1)) & 1) : (N[m.e].sort == S_INT && N[m.e].op != RBITS) ? mkILt(m.e, mkIConst(0)) : mkRLt(toReal(m, at[0][k]), mkRConst(0)); r = mkIAdd(r, mkIIte(c, mkIConst((i128)1 << k), mkIConst(0))); } ret[0] = fromInt(r, 32); return true; }
    default: break;
  }
  return false;
}

// ---------------- host calls ----------------
typedef uint64_t (*HI)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double);
typedef double (*HD)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double);
static std::unordered_map<std::string, void *> DLS;
void hostCall(Function *F, const Val *a, AT at, Val *ret, const Lanes &rt) {
  std::string nm = F->getName().str();
  auto it = DLS.find(nm); if (it == DLS.end()) it = DLS.emplace(nm, dlsym(RTLD_DEFAULT, nm.c_str())).first;
  if (!it->second) throw Inconclusive("call to unmodelled function " + nm);
  uint64_t I[6] = {0}; double X[4] = {0}; int ni = 0, nx = 0; size_t p = 0;
  for (auto &l : at) { if (l.size() != 1) throw Inconclusive("host call with aggregate argument: " + nm); const Val &v = a[p++]; if (v.e) throw Inconclusive("symbolic value passed to " + nm); if (l[0].k == L_F32 || l[0].k == L_F64) { if (nx == 4) throw Inconclusive("host call args"); X[nx++] = D(v.b); } else { if (ni == 6) throw Inconclusive("host call args"); uint64_t b = v.b; if (l[0].k == L_INT && l[0].w < 64) b = (uint64_t)sx(b & msk(l[0].w), l[0].w); if (l[0].k == L_PTR && b >= 0x300000000000ull && b < 0x310000000000ull) throw Inconclusive("callback passed to host function " + nm); I[ni++] = b; } }
  struct P2 { uint64_t a, b; }; typedef P2 (*HP)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, double, double, double, double);
  bool two = rt.size() == 2 && rt[0].k != L_F32 && rt[0].k != L_F64 && rt[1].k != L_F32 && rt[1].k != L_F64;
  if (rt.size() > 1 && !two) throw Inconclusive("host call with aggregate result: " + nm);
  try {
    if (two) { P2 r = ((HP)it->second)(I[0], I[1], I[2], I[3], I[4], I[5], X[0], X[1], X[2], X[3]); bool pk = (rt[0].k == L_INT && rt[0].w <= 32) && (rt[1].k == L_INT && rt[1].w <= 32); if (pk) throw Inconclusive("host call with packed aggregate result: " + nm); ret[0] = CV(rt[0].k == L_INT ? r.a & msk(rt[0].w) : r.a); ret[1] = CV(rt[1].k == L_INT ? r.b & msk(rt[1].w) : r.b); return; }
    if (rt.size() && (rt[0].k == L_F32 || rt[0].k == L_F64)) { double r = ((HD)it->second)(I[0], I[1], I[2], I[3], I[4], I[5], X[0], X[1], X[2], X[3]); uint64_t b; memcpy(&b, &r, 8); if (rt[0].k == L_F32) b &= 0xffffffff; ret[0] = CV(b); }
    else { uint64_t r = ((HI)it->second)(I[0], I[1], I[2], I[3], I[4], I[5], X[0], X[1], X[2], X[3]); if (rt.size()) ret[0] = CV(rt[0].k == L_INT ? r & msk(rt[0].w) : r); }
  } catch (Inconclusive &) { throw; } catch (PathEnd &) { throw; } catch (std::exception &e) { throw PathEnd{std::string("exception from ") + nm + ": " + e.what()}; }
}

// ---------------- formatted output ----------------
static std::string fmt(uint64_t f, const Val *a, AT at, size_t first) {
  std::string s = cstr(f), o; size_t pos = 0; for (size_t i = 0; i < first; i++) pos += at[i].size(); size_t ai = first;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '%') { o += s[i]; continue; }
    size_t j = i + 1; std::string sp = "%"; while (j < s.size() && strchr("-+ #0123456789.*'", s[j])) { if (s[j] == '*') { if (ai >= at.size()) return o; sp += std::to_string((int)conc(a[pos], 32, "fmt")); pos++; ai++; } else sp += s[j]; j++; }
    while (j < s.size() && strchr("hlLqjzt", s[j])) j++;
    if (j >= s.size()) break; char c = s[j]; i = j; char b[5000]; b[0] = 0;
    if (c == '%') { o += '%'; continue; }
    if (ai >= at.size()) return o; const Val &v = a[pos]; const Lane &l = at[ai][0]; pos += at[ai].size(); ai++;
    if (v.e) { o += "?"; continue; }
    if (strchr("di", c)) { sp += "ld"; snprintf(b, 5000, sp.c_str(), (long)sx(v.b & msk(l.w), l.w)); }
    else if (strchr("uxXo", c)) { sp += "l"; sp += c; snprintf(b, 5000, sp.c_str(), (unsigned long)(v.b & msk(l.w))); }
    else if (c == 'c') { sp += c; snprintf(b, 5000, sp.c_str(), (int)v.b); }
    else if (c == 's') { sp += c; std::string t = v.b ? cstr(v.b) : "(null)"; snprintf(b, 5000, sp.c_str(), t.c_str()); }
    else if (c == 'p') { sp += c; snprintf(b, 5000, sp.c_str(), (void *)v.b); }
    else { sp += c; snprintf(b, 5000, sp.c_str(), dval(v, l)); }
    o += b;
  }
  return o;
}
static void putStr(uint64_t d, const std::string &s) { checkedRange(d, s.size() + 1, true); memSet(d, 0, s.size() + 1); memcpy((void *)d, s.c_str(), s.size() + 1); }

// ---------------- allocation ----------------
static uint64_t doAlloc(uint64_t n, uint64_t al, const char *k, bool zero) { void *p = arenaAlloc(n ? n : 1, al, k); if (!zero && n <= (64u << 20)) memset(p, 0x41, n); return (uint64_t)p; }
static void doFree(uint64_t p) {
  if (!p) return;
  if (!inArena((void *)p)) { free((void *)p); return; }
  if (!arenaFree((void *)p)) { std::map<int, double> m; if (!PATH.cons.empty()) checkSat(0, &m); violation("memory", "invalid or repeated free", &m, backtrace()); throw PathEnd{"free"}; }
}
// the engine's own C++ runtime may hand arena blocks back to us (strings grown by libstdc++ code)
void operator delete(void *p) noexcept { if (p && inArena(p)) { arenaFree(p); return; } free(p); }
void operator delete(void *p, size_t) noexcept { if (p && inArena(p)) { arenaFree(p); return; } free(p); }
void operator delete[](void *p) noexcept { if (p && inArena(p)) { arenaFree(p); return; } free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && inArena(p)) { arenaFree(p); return; } free(p); }

// ---------------- complex helpers ----------------
static void cmulV(const Lane &l, Val a, Val b, Val c, Val d, Val &re, Val &im) { re = vsub(vmul(a, c, l), vmul(b, d, l), l); im = vadd(vmul(a, d, l), vmul(b, c, l), l); }
static void cdivV(const Lane &l, Val a, Val b, Val c, Val d, Val &re, Val &im) { Val q = vadd(vmul(c, c, l), vmul(d, d, l), l); re = vdiv(vadd(vmul(a, c, l), vmul(b, d, l), l), q, l); im = vdiv(vsub(vmul(b, c, l), vmul(a, d, l), l), q, l); }

// ---------------- harness API helpers ----------------
static std::unordered_map<std::string, E> SYMV;
static Val symReal(const std::string &nm, double lo, double hi) { auto it = SYMV.find(nm); E e; if (it != SYMV.end()) e = it->second; else { e = mkRVar(nm, lo, hi); SYMV[nm] = e; } return SV(e); }
static std::unordered_map<uint64_t, int> CRIT;
#define B(nm) BUILTINS[nm] = [=](CallBase *cb, Function *F, const Val *a, AT at, Val *ret, const Lanes &rt)

static void ompBuiltins() {
  B("__kmpc_fork_call") { std::vector<Val> sh; size_t p = 0; for (size_t i = 0; i < at.size(); i++) { if (i >= 3) sh.push_back(a[p]); p += at[i].size(); } Function *fn = fnAt(a[2].b); if (!fn) throw Inconclusive("fork_call target"); parallelRegion(fn, sh); };
  auto forInit = [](int w, bool uns) { return [=](CallBase *cb, Function *F, const Val *a, AT at, Val *ret, const Lanes &rt) {
    Lane l = {L_INT, (uint16_t)w, 0}; int sched = (int)a[2].b & 0xffff; uint64_t pl = a[3].b, plo = a[4].b, phi = a[5].b, pst = a[6].b; int64_t inc = sx(conc(a[7], w, "omp"), w), chunk = sx(conc(a[8], w, "omp"), w);
    i128 lo = sx(conc(loadLane(plo, l), w, "loop bound"), w), hi = sx(conc(loadLane(phi, l), w, "loop bound"), w); if (uns) { if (lo < 0) lo += (i128)1 << w; if (hi < 0) hi += (i128)1 << w; }
    int n = TS.active ? TS.n : 1, t = TS.active ? TS.tid : 0; auto st = [&](uint64_t p, i128 v) { storeLane(p, l, CV((uint64_t)v & msk(w))); };
    i128 trip = inc > 0 ? (hi < lo ? 0 : (hi - lo) / inc + 1) : (lo < hi ? 0 : (lo - hi) / (-inc) + 1);
    if (trip == 0) { storeLane(pl, LI32, CV(0)); st(pst, inc); return; }
    if (sched == 33) { if (chunk < 1) chunk = 1; i128 span = (i128)chunk * inc; st(pst, span * n); st(plo, lo + span * t); st(phi, lo + span * t + span - inc); storeLane(pl, LI32, CV((uint64_t)(t == (int)(((trip - 1) / chunk) % n)))); return; }
    if (sched != 34) throw Inconclusive("OpenMP schedule kind");
    i128 ch = trip / n, ex = trip % n; i128 mylo = lo + inc * (t * ch + (t < ex ? t : ex)); i128 myhi = mylo + ch * inc - (t < ex ? 0 : inc);
    st(plo, mylo); st(phi, myhi); st(pst, trip); storeLane(pl, LI32, CV(ch == 0 ? t == ex - 1 : t == n - 1));
  }; };
  BUILTINS["__kmpc_for_static_init_4"] = forInit(32, false); BUILTINS["__kmpc_for_static_init_4u"] = forInit(32, true); BUILTINS["__kmpc_for_static_init_8"] = forInit(64, false); BUILTINS["__kmpc_for_static_init_8u"] = forInit(64, true);
  B("__kmpc_for_static_fini") {}; B("__kmpc_barrier") { threadBarrier(); }; B("__kmpc_flush") {}; B("__kmpc_push_num_threads") {};
  B("__kmpc_global_thread_num") { ret[0] = CV(TS.active ? TS.tid : 0); };
  B("__kmpc_critical") { lockEnter(a[2].b); }; B("__kmpc_end_critical") { lockExit(a[2].b); };
  auto red = [](bool enter) { return [=](CallBase *cb, Function *F, const Val *a, AT at, Val *ret, const Lanes &rt) { if (enter) { lockEnter(a[6].b); ret[0] = CV(1); } else lockExit(a[2].b); }; };
  BUILTINS["__kmpc_reduce_nowait"] = red(true); BUILTINS["__kmpc_end_reduce_nowait"] = red(false);
  BUILTINS["__kmpc_reduce"] = red(true); B("__kmpc_end_reduce") { lockExit(a[2].b); threadBarrier(); };
  B("__kmpc_master") { ret[0] = CV(!TS.active || TS.tid == 0); }; B("__kmpc_end_master") {};
  B("__kmpc_masked") { ret[0] = CV(!TS.active || TS.tid == 0); }; B("__kmpc_end_masked") {};
  B("__kmpc_single") { ret[0] = CV(!TS.active || TS.tid == 0); }; B("__kmpc_end_single") {};
  B("__kmpc_serialized_parallel") {}; B("__kmpc_end_serialized_parallel") {};
  B("omp_get_thread_num") { ret[0] = CV(TS.active ? TS.tid : 0); }; B("omp_get_num_threads") { ret[0] = CV(TS.active ? TS.n : 1); }; B("omp_get_max_threads") { ret[0] = CV(OMP_THREADS); }; B("omp_get_num_procs") { ret[0] = CV(OMP_THREADS); };
  B("omp_set_num_threads") {}; B("omp_in_parallel") { ret[0] = CV(TS.active); }; B("omp_get_wtime") { ret[0] = CV(0); };
}
static void libBuiltins() {
  for (const char *f : {"sqrt", "fabs", "floor", "ceil", "trunc", "rint", "nearbyint", "round", "sin", "cos", "tan", "exp", "log", "atan", "asin", "acos", "sinh", "cosh", "tanh", "exp2", "log2", "log10", "cbrt", "log1p", "expm1", "erf", "erfc", "tgamma", "lgamma", "asinh", "acosh", "atanh", "exp10"}) {
    std::string s = f; B(s) { ret[0] = mathUn(s, a[0], LD); }; B(s + "f") { ret[0] = mathUn(s, a[0], LF); };
    B(s + "l") { ret[0] = mathUn(s, a[0], LD); };
  }
  for (const char *f : {"pow", "atan2", "fmod", "fmin", "fmax", "hypot", "copysign", "remainder", "fdim"}) { std::string s = f; B(s) { ret[0] = mathBin(s, a[0], a[1], LD); }; B(s + "f") { ret[0] = mathBin(s, a[0], a[1], LF); }; }
  B("sincos") { storeLane(a[1].b, LD, mathUn("sin", a[0], LD)); storeLane(a[2].b, LD, mathUn("cos", a[0], LD)); };
  B("sincosf") { storeLane(a[1].b, LF, mathUn("sin", a[0], LF)); storeLane(a[2].b, LF, mathUn("cos", a[0], LF)); };
  auto both = [](const char *nm, void (*f)(const Lane &, const Val *, Val *)) { std::string s = nm; BUILTINS[s] = [=](CallBase *, Function *, const Val *a, AT, Val *ret, const Lanes &) { f(LD, a, ret); }; BUILTINS[s + "f"] = [=](CallBase *, Function *, const Val *a, AT, Val *ret, const Lanes &) { f(LF, a, ret); }; };
  both("cabs", [](const Lane &l, const Val *a, Val *r) { r[0] = mathBin("hypot", a[0], a[1], l); });
  both("carg", [](const Lane &l, const Val *a, Val *r) { r[0] = mathBin("atan2", a[1], a[0], l); });
  both("cexp", [](const Lane &l, const Val *a, Val *r) { Val e = (!a[0].e && dval(a[0], l) == 0) ? mkF(1, l) : mathUn("exp", a[0], l); Val s = mathUn("sin", a[1], l), c = mathUn("cos", a[1], l); r[0] = vmul(e, c, l); r[1] = vmul(e, s, l); });
  for (auto &p : std::vector<std::pair<std::string, Lane>>{{"__muldc3", LD}, {"__mulsc3", LF}}) { Lane l = p.second; B(p.first) { cmulV(l, a[0], a[1], a[2], a[3], ret[0], ret[1]); }; }
  for (auto &p : std::vector<std::pair<std::string, Lane>>{{"__divdc3", LD}, {"__divsc3", LF}}) { Lane l = p.second; B(p.first) { cdivV(l, a[0], a[1], a[2], a[3], ret[0], ret[1]); }; }
  for (const char *f : {"sin", "cos"}) { std::string s = f;
    B("_Z13_mm256_" + s + "_pdDv4_d") { for (int k = 0; k < 4; k++) ret[k] = mathUn(s, a[k], LD); }; B("_Z13_mm256_" + s + "_psDv8_f") { for (int k = 0; k < 8; k++) ret[k] = mathUn(s, a[k], LF); };
    B("_Z10_mm_" + s + "_pdDv2_d") { for (int k = 0; k < 2; k++) ret[k] = mathUn(s, a[k], LD); }; B("_Z10_mm_" + s + "_psDv4_f") { for (int k = 0; k < 4; k++) ret[k] = mathUn(s, a[k], LF); };
  }
  // memory
  auto al = [](const char *nm, bool zero) { std::string s = nm; BUILTINS[s] = [=](CallBase *, Function *, const Val *a, AT, Val *ret, const Lanes &) { ret[0] = CV(doAlloc(conc(a[0], 64, "allocation size"), 64, "heap", zero)); }; };
  al("malloc", false); al("_Znwm", false); al("_Znam", false);
  B("_ZnwmSt11align_val_t") { ret[0] = CV(doAlloc(conc(a[0], 64, "size"), a[1].b, "heap", false)); }; B("_ZnamSt11align_val_t") { ret[0] = CV(doAlloc(conc(a[0], 64, "size"), a[1].b, "heap", false)); };
  B("calloc") { ret[0] = CV(doAlloc(conc(a[0], 64, "size") * conc(a[1], 64, "size"), 64, "heap", true)); };
  B("realloc") { uint64_t n = conc(a[1], 64, "size"), p = doAlloc(n, 64, "heap", false); if (a[0].b) { uint64_t o = a[0].b, k = 0; std::string w; while (k < n && checkAccess(o + k, 1, &w)) k++; memCopy(p, o, k); doFree(o); } ret[0] = CV(p); };
  B("posix_memalign") { uint64_t p = doAlloc(conc(a[2], 64, "size"), conc(a[1], 64, "align"), "heap", false); checkedRange(a[0].b, 8, true); storeLane(a[0].b, {L_PTR, 64, 0}, CV(p)); ret[0] = CV(0); };
  B("aligned_alloc") { ret[0] = CV(doAlloc(conc(a[1], 64, "size"), conc(a[0], 64, "align"), "heap", false)); }; B("memalign") { ret[0] = CV(doAlloc(conc(a[1], 64, "size"), conc(a[0], 64, "align"), "heap", false)); };
  for (const char *f : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t"}) B(std::string(f)) { doFree(a[0].b); };
  B("memcpy") { doMemcpy(a[0].b, a[1].b, conc(a[2], 64, "memcpy size")); ret[0] = a[0]; }; B("memmove") { doMemcpy(a[0].b, a[1].b, conc(a[2], 64, "memcpy size")); ret[0] = a[0]; }; B("memset") { doMemset(a[0].b, a[1], conc(a[2], 64, "memset size")); ret[0] = a[0]; };
  auto cmp = [](CallBase *cb, Function *F, const Val *a, AT at, Val *ret, const Lanes &rt) { uint64_t n = conc(a[2], 64, "memcmp"); checkedRange(a[0].b, n, false); checkedRange(a[1].b, n, false); if (anySymbolic(a[0].b, n) || anySymbolic(a[1].b, n)) throw Inconclusive("memcmp of symbolic data"); ret[0] = CV((uint32_t)memcmp((void *)a[0].b, (void *)a[1].b, n)); };
  BUILTINS["memcmp"] = cmp; BUILTINS["bcmp"] = cmp;
  B("strlen") { checkedRange(a[0].b, 1, false); std::string s = cstr(a[0].b); checkedRange(a[0].b, s.size() + 1, false); ret[0] = CV(s.size()); };
  B("strcmp") { ret[0] = CV((uint32_t)(int)strcmp(cstr(a[0].b).c_str(), cstr(a[1].b).c_str())); }; B("strncmp") { ret[0] = CV((uint32_t)(int)strncmp(cstr(a[0].b).c_str(), cstr(a[1].b).c_str(), a[2].b)); };
  B("strcpy") { std::string s = cstr(a[1].b); putStr(a[0].b, s); ret[0] = a[0]; }; B("strcat") { std::string s = cstr(a[0].b) + cstr(a[1].b); putStr(a[0].b, s); ret[0] = a[0]; };
  // C++ runtime
  B("__cxa_atexit") { ret[0] = CV(0); }; B("__cxa_guard_acquire") { ret[0] = CV(*(uint8_t *)a[0].b == 0); }; B("__cxa_guard_release") { memSet(a[0].b, 1, 1); }; B("__cxa_guard_abort") {};
  B("__cxa_allocate_exception") { ret[0] = CV(doAlloc(a[0].b + 64, 64, "exception", true)); }; B("__cxa_throw") { throw PathEnd{"exception thrown"}; }; B("__cxa_rethrow") { throw PathEnd{"exception rethrown"}; }; B("__cxa_begin_catch") { ret[0] = a[0]; }; B("__cxa_end_catch") {};
  B("_ZSt9terminatev") { throw PathEnd{"terminate"}; }; B("__cxa_pure_virtual") { throw PathEnd{"pure virtual call"}; };
  for (const char *f : {"_ZSt20__throw_length_errorPKc", "_ZSt16__throw_bad_castv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt17__throw_bad_allocv", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_invalid_argumentPKc"}) { std::string s = f; B(s) { throw PathEnd{"exception " + s}; }; }
  B("exit") { throw PathEnd{"exit(" + std::to_string((int)a[0].b) + ")"}; }; B("_exit") { throw PathEnd{"exit"}; }; B("abort") { throw PathEnd{"abort"}; };
  B("__assert_fail") { std::map<int, double> m; if (!PATH.cons.empty()) checkSat(0, &m); violation("assert", cstr(a[0].b), &m, backtrace()); throw PathEnd{"assert"}; };
  // output
  for (const char *f : {"printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fputc", "fwrite", "usleep", "nanosleep", "perror", "vprintf", "vfprintf", "fclose"}) B(std::string(f)) { if (rt.size()) ret[0] = CV(0); };
  B("fopen") { ret[0] = CV(doAlloc(16, 16, "FILE", true)); }; // written data is discarded; reading functions stay unmodelled
  B("sprintf") { std::string s = fmt(a[1].b, a, at, 2); putStr(a[0].b, s); ret[0] = CV(s.size()); };
  B("snprintf") { std::string s = fmt(a[2].b, a, at, 3); uint64_t n = a[1].b; if (n) putStr(a[0].b, s.substr(0, n - 1)); ret[0] = CV(s.size()); };
  B("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") { ret[0] = a[0]; };
}
static void symBuiltins() {
  B("__sym_real") { ret[0] = symReal(cstr(a[0].b), D(a[1].b), D(a[2].b)); };
  B("__sym_realf") { ret[0] = symReal(cstr(a[0].b), D(a[1].b), D(a[2].b)); };
  B("__sym_real_i") { ret[0] = symReal(cstr(a[0].b) + "_" + std::to_string(sx(a[1].b, 64)), D(a[2].b), D(a[3].b)); };
  B("__sym_realf_i") { ret[0] = symReal(cstr(a[0].b) + "_" + std::to_string(sx(a[1].b, 64)), D(a[2].b), D(a[3].b)); };
  B("__sym_int") { std::string nm = cstr(a[0].b); auto it = SYMV.find(nm); E e; if (it != SYMV.end()) e = it->second; else { e = mkIVar(nm, (int64_t)a[1].b, (int64_t)a[2].b); SYMV[nm] = e; } ret[0] = SV(e); };
  B("__sym_assume") { assumeCond(mkNot(mkIEq(toInt(a[0], 32), mkIConst(0)))); };
  B("__sym_check") { symCheck(mkNot(mkIEq(toInt(a[0], 32), mkIConst(0))), cstr(a[1].b)); };
  B("__sym_eq") { std::string lab = cstr(a[3].b); int64_t ix = (int64_t)a[4].b; if (ix >= 0) lab += "[" + std::to_string(ix) + "]";
    if (!a[0].e && !a[1].e) { REP.eqs++; REP.eqsNorm++; double x = D(a[0].b), y = D(a[1].b), s = std::max(std::fabs(y), D(a[2].b)); if (!(std::fabs(x - y) <= 50 * OPT.eps * s) && !(x == y)) { std::map<int, double> m; if (!PATH.cons.empty()) checkSat(0, &m); char t[200]; snprintf(t, 200, "got %.12g expected %.12g", x, y); violation("eq", lab, &m, t); } return; }
    pendEq(toReal(a[0], LD), toReal(a[1], LD), D(a[2].b), lab); };
  B("__sym_reach") { emit("{\"t\":\"reach\",\"label\":" + jstr(cstr(a[0].b)) + "}"); };
  B("__sym_param") { std::string k = cstr(a[0].b); auto it = OPT.params.find(k); ret[0] = it != OPT.params.end() ? CV((uint64_t)it->second) : a[1]; };
  B("__sym_is_symbolic") { ret[0] = CV(anySymbolic(a[0].b, a[1].b)); };
  B("__sym_engine") { ret[0] = CV(1); };
  B("__sym_threads") { OMP_THREADS = (int)a[0].b; }; B("__sym_races") { RACES = (int)a[0].b; };
  B("__sym_concretize") { ret[0] = CV((uint64_t)concretize(toInt(a[0], 64), 64, "requested")); };
  B("__sym_note") { emit("{\"t\":\"note\",\"text\":" + jstr(cstr(a[0].b)) + "}"); };
  B("__sym_debug") { emit("{\"t\":\"note\",\"text\":" + jstr(cstr(a[0].b) + " = " + (a[1].e ? exprStr(a[1].e, 8) : std::to_string(D(a[1].b)))) + "}"); };
  B("__sym_end") { throw PathEnd{"harness end"}; };
  B("__sym_uf1") { ret[0] = SV(mkRUF(ufId(cstr(a[0].b)), toReal(a[1], LD))); };
  B("__sym_uf2") { ret[0] = SV(mkRUF(ufId(cstr(a[0].b)), toReal(a[1], LD), toReal(a[2], LD))); };
}
void builtinsInit() { ompBuiltins(); libBuiltins(); symBuiltins(); }
