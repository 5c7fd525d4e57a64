// WKB evolution of the linear axion: every mode's amplitude and phase, the arrays around the transforms, and the clock.
#include "common.h"
#include "scalar/folder.h"
#include "fft/fftCode.h"
#include "WKB/WKB.h"
namespace AxionFFT { extern char outfftName[]; }
extern "C" { int mdl_wkbfile = 1; }
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
typedef double D; typedef std::complex<double> Z;
static size_t RN, RZ, RT; static int call, two; static std::vector<D> m0, v0; static std::vector<Z> M, V; static std::vector<D> mo, vo;
static D ZI, ZE, ZC, NQ, I3, L, TOL; static bool EXACT;
static D mass(D z) { return I3 * std::pow(z < ZC ? z : ZC, NQ / 2) * z; }       // conformal mass
static D dmass2(D z, bool late) { D q = late ? 0 : NQ; return (q + 2) * mass(z) * mass(z) / z; }
static D omega(D k2, D z) { return std::sqrt(k2 + mass(z) * mass(z)); }
static D simpson(D k2, D a, D b) { const int n = 400; D h = (b - a) / n, s = omega(k2, a) + omega(k2, b); for (int i = 1; i < n; i++) s += (i % 2 ? 4 : 2) * omega(k2, a + i * h); return s * h / 3; }
static D phase(D k2) { return ZI < ZC && ZC < ZE ? simpson(k2, ZI, ZC) + simpson(k2, ZC, ZE) : simpson(k2, ZI, ZE); }
static std::vector<Z> E1, E2; static std::vector<D> W2, SC_;
static void evolve() { // what the modes should become
  const size_t H = RN / 2 + 1, nm = H * RN / mdl_size * RT; E1.resize(nm); E2.resize(nm); W2.resize(nm); SC_.resize(nm); std::vector<D> memo(4 * RN * RN, -1);
  for (size_t i = 0; i < nm; i++) {
    long kx = i % H, kz = i / H % RT, ky = i / H / RT + RN / mdl_size * mdl_rank; if (ky > (long)RN / 2) ky -= RN; if (kz > (long)RT / 2) kz -= RT;
    const size_t q = kx * kx + ky * ky + kz * kz; const D k2 = q * 4 * M_PI * M_PI / (L * L), w1 = omega(k2, ZI), w2 = omega(k2, ZE);
    if (memo[q] < 0) memo[q] = phase(k2); const D f = memo[q], a1 = dmass2(ZI, ZI >= ZC) / (4 * w1 * w1 * w1), a2 = dmass2(ZE, ZE > ZC) / (4 * w2 * w2 * w2), A = std::sqrt(w1 / w2), c = std::cos(f), s = std::sin(f);
    E1[i] = A * (M[i] * (c + a1 * s) + V[i] * (s / w1)); E2[i] = w2 * (A * (M[i] * (a1 * c - s) + V[i] * (c / w1)) - a2 * E1[i]); W2[i] = 1 + w2;
    size_t r = (size_t)(std::sqrt((D)q) + 0.5); SC_[i] = two || r * r == q || EXACT ? 1 : TOL;   // between whole wave numbers the phase is interpolated
  }
}
template <class T> static int hook(int kind, int sign, void *in, void *out) {
  const size_t H = RN / 2 + 1, nm = H * RN / mdl_size * RT; const bool vel = two ? call % 2 : (call == 0 || call == 3); T *p = (T *)in, *o = (T *)out;
  if (sign < 0) { // the field arrives; modes leave
    const std::vector<D> &w = vel ? v0 : m0; for (size_t i = 0; i < w.size(); i++) __sym_eq((D)p[i / RN * 2 * H + i % RN], w[i], 1, vel ? "velocity to be transformed" : "field to be transformed", (long)i);
    std::vector<Z> &md = vel ? V : M; md.resize(nm); for (size_t i = 0; i < nm; i++) { D a = __sym_real_i(vel ? "vr" : "mr", i, -2, 2), b = __sym_real_i(vel ? "vi" : "mi", i, -2, 2); md[i] = {a, b}; o[2 * i] = (T)a; o[2 * i + 1] = (T)b; }
  } else {
    if (E1.empty()) evolve(); const std::vector<Z> &e = vel ? E2 : E1;
    for (size_t i = 0; i < nm; i++) { const D sc = SC_[i] * (vel ? W2[i] : 1); __sym_eq((D)p[2 * i], e[i].real(), sc, vel ? "evolved velocity mode, real part" : "evolved mode, real part", (long)i); __sym_eq((D)p[2 * i + 1], e[i].imag(), sc, vel ? "evolved velocity mode, imaginary part" : "evolved mode, imaginary part", (long)i); }
    std::vector<D> &w = vel ? vo : mo; w.resize(RN * RN * RZ); for (size_t i = 0; i < RZ * RN * 2 * H; i++) { D x = __sym_real_i(vel ? "vx" : "mx", i, -2, 2); o[i] = (T)x; if (i % (2 * H) < RN) w[i / (2 * H) * RN + i % (2 * H)] = x; }
  }
  call++; return 1;
}
static const D CS[][5] = {{1, 1, 9, 0, 2}, {1, 2, 9, 0, 1}, {1, 1.5, 9, 4, 1}, {1, 2, 1.5, 4, 1}, {2, 3, 1.5, 2, 1}, {1.2, 1.7, 9, 7, 0.5}, {1, 1.75, 1.25, 7, 1}, {1.5, 2, 1.5, 3, 1}};  // start, end, saturation, exponent, mass
template <class T> static void run() {
  const int ranks = __sym_param("ranks", 1), fold = __sym_param("fold", 0), cs = __sym_param("cs", 1); two = __sym_param("two", 0);
  const size_t n = __sym_param("n", 4), lz = n / ranks, ng = __sym_param("ng", 1), N = n * n * lz; L = 3; TOL = 3e3; ZI = CS[cs][0]; ZE = CS[cs][1]; ZC = CS[cs][2]; NQ = CS[cs][3]; I3 = CS[cs][4]; EXACT = ZE == ZI;
  mdl_size = ranks; zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; strcpy(AxionFFT::outfftName, "/dev/null"); debug = false; mdl_rank = __sym_param("rank", 0); mdl_wkbfile = !__sym_param("nofile", 0);
  RN = n; RZ = lz; RT = n; Cosmos *c = mkCosmos(); c->SetPhysSize(L); c->SetQcdExp(NQ); c->SetIndi3(I3); c->SetZThRes(ZC); c->SetZRestore(1e6); c->ICData().zi = ZI;
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_AXION, false, ng), *g = two ? mkScalar(c, n, lz, sizeof(T) == 8, FIELD_WKB, true, ng) : f; f->setFolded(fold); const size_t sh = f->DataAlign() / f->DataSize();
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); m0.resize(N); v0.resize(N);
  for (size_t i = 0; i < N; i++) { size_t j = flat(n, sh, fold, i % n, i / n % n, i / (n * n)); m0[i] = __sym_real_i("m", i, -2, 2); v0[i] = __sym_real_i("v", i, -2, 2); m[j] = (T)m0[i]; v[j] = (T)v0[i]; }
  AxionFFT::initFFT(f->Precision()); AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx"); mdl_fft_hook = hook<T>;
  { AxionWKB::WKB w(f, g); __sym_check(call == 2, "field and velocity transformed once"); w(ZE); }
  __sym_check(call == 4, "field and velocity transformed back once"); __sym_check(!f->Folded(), "natural order afterwards"); __sym_check(*f->zV() == ZE && f->Field() == FIELD_AXION, "clock at the final time"); __sym_eq(*f->RV(), ZE, 1, "scale factor", 0);
  for (size_t i = 0; i < N; i++) { __sym_eq((D)m[i], mo[i] / (D)(N * ranks), 0.02, "evolved field", (long)i); __sym_eq((D)v[i], vo[i] / (D)(N * ranks), 0.02, "evolved velocity", (long)i); }
  __sym_reach("end");
}
extern "C" void harness() { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
