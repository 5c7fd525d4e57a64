// Fourier representation of the fields and whole steps of the spectral propagators.
//   what 0 transforms there and back   1 spectral Laplacian   2 step, Laplacian in Fourier space   3 step, angle kept in Fourier space
#include "saxref.h"
#include <complex>
#include "propagator/allProp.h"
#include "propagator/laplacian.h"
#include "scalar/folder.h"
#include "scalar/fourier.h"
namespace AxionFFT { extern char outfftName[]; }
extern bool fpectral; extern PropType pType;
void initPropagator(PropType, Scalar *, VqcdType, int);
void propagate(Scalar *, const double);
static const double KC[4] = {0.1344961992774310892, -0.2248198030794208058, 0.7563200005156682911, 0.3340036032863214255};
static const double KD[4] = {0.5153528374311229364, -0.085782019412973646, 0.4415830236164665242, 0.1288461583653841854};
static std::complex<double> w8(long k, long n) { k = ((k % n) + n) % n; return (4 * k) % n == 0 ? std::complex<double>((4 * k / n) % 2 ? 0 : 1 - 4 * k / n, (4 * k / n) % 2 ? 2 - 4 * k / n : 0) : std::polar(1., 2 * M_PI * k / n); }
// plain three-dimensional transform of nc interleaved components (1: real input), z slowest; sign -1 or 1
template <class T> static void dft(std::vector<T> &re, std::vector<T> &im, size_t n, size_t lz, int sign) {
  const size_t d[3] = {n, n, lz}, st[3] = {1, n, n * n};
  for (int a = 0; a < 3; a++) { std::vector<T> R(re.size()), I(re.size());
    for (size_t i = 0; i < re.size(); i++) { size_t k = i / st[a] % d[a], b = i - k * st[a]; T sr = 0, si = 0; for (size_t x = 0; x < d[a]; x++) { auto w = w8((long)(k * x), d[a]); T c = (T)w.real(), s = (T)(sign * w.imag()); sr += re[b + x * st[a]] * c - im[b + x * st[a]] * s; si += re[b + x * st[a]] * s + im[b + x * st[a]] * c; } R[i] = sr; I[i] = si; }
    re = R; im = I; }
}
static long sg(long k, long n) { return k > n / 2 ? k - n : k; }
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out); extern "C" int mdl_mpi_record;
// the spectral Laplacian on one of several processes: opaque transforms, their inputs checked, their outputs fresh
static struct { size_t n, lz, tz, X; int sax, calls; std::vector<double> pos, mode, back; } RK;
template <class T> static int rkhook(int kind, int sign, void *in, void *out) {
  auto &k = RK; const T *a = (const T *)in; T *o = (T *)out; const size_t N = k.n * k.n * k.lz, M = k.n / mdl_size * k.tz * k.X, nc = k.sax ? 2 : 1;
  __sym_check((kind == 0) == (k.sax != 0), "kind of transform"); __sym_check(k.calls == 0 ? sign < 0 : sign > 0, "forward, then backward"); auto at = [&](size_t i) { return k.sax ? i : i / k.n * (k.n + 2) + i % k.n; };
  if (k.calls++ == 0) { for (size_t i = 0; i < N * nc; i++) __sym_eq((double)a[at(i)], k.pos[i], 1, "values handed to the transform", i); for (size_t i = 0; i < 2 * M; i++) { k.mode.push_back(__sym_real_i("mode", i, -3, 3)); o[i] = (T)k.mode[i]; } }
  else { for (size_t i = 0; i < 2 * M; i++) { size_t q = i / 2; long x = sg(q % k.X, k.n), z = sg(q / k.X % k.tz, k.tz), y = sg(q / k.X / k.tz + k.n / mdl_size * mdl_rank, k.n); __sym_eq((double)a[i], k.mode[i] * (double)(x * x + y * y + z * z), 20, "mode times squared momentum", i); }
    for (size_t i = 0; i < N * nc; i++) { k.back.push_back(__sym_real_i("back", i, -3, 3)); o[at(i)] = (T)k.back[i]; } }
  return 1;
}
template <class T> static void ranklap() {
  auto &k = RK; const int sax = __sym_param("sax", 0), nc = sax ? 2 : 1; const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), N = n * n * lz; strcpy(AxionFFT::outfftName, "/dev/null"); mdl_mpi_record = 1;
  mdl_size = __sym_param("ranks", 2); mdl_rank = __sym_param("rank", 0); zGrid = mdl_size; sizeN = n; sizeZ = lz; fpectral = false; pType = PROP_RKN4;
  Cosmos *co = mkCosmos(); co->ICData().zi = 1.5; co->SetPhysSize(2.0); Scalar *f = mkScalar(co, n, lz, sizeof(T) == 8, sax ? FIELD_SAXION : FIELD_AXION, false, __sym_param("ng", 1)); f->setFolded(false);
  k.n = n; k.lz = lz; k.tz = lz * mdl_size; k.X = sax ? n : n / 2 + 1; k.sax = sax; k.calls = 0; T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *m2 = (T *)f->m2Cpu();
  for (size_t i = 0; i < N * nc; i++) { k.pos.push_back(__sym_real_i("m", i, -3, 3)); v[i] = (T)0.5; m[i] = (T)k.pos[i]; if (!sax) m2[i / n * (n + 2) + i % n] = (T)k.pos[i]; }
  mdl_fft_hook = rkhook<T>; applyLaplacian(f); __sym_check(k.calls == 2, "two transforms");
  m2 = (T *)f->m2Cpu(); for (size_t i = 0; i < N * nc; i++) { __sym_eq((double)m2[sax ? i : i / n * (n + 2) + i % n], k.back[i], 1, "Laplacian", i); __sym_eq((double)m[i], k.pos[i], 1, "field untouched", i); __sym_eq((double)v[i], 0.5, 1, "velocity untouched", i); }
  __sym_reach("end");
}
template <class T> static void run() {
  if (__sym_param("what", 0) == 4) { ranklap<T>(); return; }
  const int what = __sym_param("what", 0), sax = __sym_param("sax", 0); const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 4), ng = __sym_param("ng", 1), n2 = n * n, N = n2 * lz, H = n / 2 + 1; const bool dbl = sizeof(T) == 8;
  const int nc = sax ? 2 : 1; strcpy(AxionFFT::outfftName, "/dev/null"); fpectral = what == 0 || what == 3; pType = PROP_RKN4 | (what == 2 ? PROP_SPEC : what == 3 ? PROP_FSPEC : PROP_BASE);
  const int pot = sax ? V_QCD1_PQ1 : V_QCD1_PQ1; const double frw = 1.5, dz = 0.0625;
  Cosmos *co = mkCosmos(); co->SetFrw(frw); co->ICData().zi = 1.5; co->SetPhysSize(2.0); co->SetQcdExp(2.0); co->SetQcdPot((VqcdType)pot); co->SetLambda(0); const int qcd = __sym_param("qcd", 0); co->SetIndi3((sax && what == 2) || qcd ? 0.5 : 0); co->SetGamma(0);
  Scalar *f = mkScalar(co, n, lz, dbl, sax ? FIELD_SAXION : FIELD_AXION, false, ng);
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); std::vector<T> mr(N), mi(N), vr(N), vi(N);
  for (size_t i = 0; i < N; i++) { mr[i] = __sym_real_i("m", nc * i, -2, 2); vr[i] = __sym_real_i("v", nc * i, -2, 2); if (sax) { mi[i] = __sym_real_i("m", nc * i + 1, -2, 2); vi[i] = __sym_real_i("v", nc * i + 1, -2, 2); } else mi[i] = vi[i] = 0;
    m[nc * i] = mr[i]; v[nc * i] = vr[i]; if (sax) { m[2 * i + 1] = mi[i]; v[2 * i + 1] = vi[i]; } }
  f->setFolded(false);
  auto real = [&](const char *lm, const char *lv, double sc) { m = (T *)f->mStart(); v = (T *)f->vCpu(); for (size_t i = 0; i < N; i++) { __sym_eq(m[nc * i], mr[i], sc, lm, nc * i); __sym_eq(v[nc * i], vr[i], sc, lv, nc * i); if (sax) { __sym_eq(m[nc * i + 1], mi[i], sc, lm, nc * i + 1); __sym_eq(v[nc * i + 1], vi[i], sc, lv, nc * i + 1); } } };
  if (what == 0) { const int ord = __sym_param("ord", 0); FTfield ft(f);
    __sym_check(!f->MMomSpace() && !f->VMomSpace(), "starts in position space");
    if (ord == 2) { ft(FIELD_M, FFT_FWD); __sym_check(f->MMomSpace() && !f->VMomSpace(), "only the field in momentum space"); ft(FIELD_MV, FFT_FWD); } else if (ord) { ft(FIELD_V, FFT_FWD); ft(FIELD_M, FFT_FWD); } else ft(FIELD_MV, FFT_FWD);
    __sym_check(f->MMomSpace() && f->VMomSpace(), "both in momentum space");
    if (ord) ft(FIELD_MV, FFT_FWD);  // nothing left to do
    std::vector<T> ar = mr, ai = mi, br = vr, bi = vi; dft(ar, ai, n, lz, -1); dft(br, bi, n, lz, -1); T *fm = (T *)(sax ? f->mStart() : f->mCpu()), *fv = (T *)f->vCpu(); const size_t X = sax ? n : H;
    for (size_t y = 0; y < n; y++) for (size_t z = 0; z < lz; z++) for (size_t x = 0; x < X; x++) { size_t o = 2 * ((y * lz + z) * X + x), i = (z * n + y) * n + x;
      __sym_eq(fm[o], ar[i] / N, 4, "mode of the field", o); __sym_eq(fm[o + 1], ai[i] / N, 4, "mode of the field", o + 1); __sym_eq(fv[o], br[i] / N, 4, "mode of the velocity", o); __sym_eq(fv[o + 1], bi[i] / N, 4, "mode of the velocity", o + 1); }
    if (!sax || __sym_param("m2", 0)) { ft(FIELD_MTOM2, FFT_BCK); __sym_check(f->MMomSpace(), "field still in momentum space"); T *a = (T *)f->m2Cpu(); const size_t P = sax ? 2 * n : n + 2; for (size_t i = 0; i < N * nc; i++) __sym_eq(a[i / (n * nc) * P + i % (n * nc)], nc == 1 ? mr[i] : i % 2 ? mi[i / 2] : mr[i / 2], 4, "field handed to m2 in position space", i);
      ft(FIELD_M2TOM2, FFT_FWD); a = (T *)f->m2Cpu(); for (size_t y = 0; y < n; y++) for (size_t z = 0; z < lz; z++) for (size_t x = 0; x < X; x++) { size_t o = 2 * ((y * lz + z) * X + x), i = (z * n + y) * n + x; __sym_eq(a[o], ar[i] / N, 4, "mode of m2", o); __sym_eq(a[o + 1], ai[i] / N, 4, "mode of m2", o + 1); } }
    if (ord == 2) { ft(FIELD_M, FFT_BCK); ft(FIELD_MV, FFT_BCK); } else if (ord) { ft(FIELD_V, FFT_BCK); ft(FIELD_M, FFT_BCK); } else ft(FIELD_MV, FFT_BCK);
    __sym_check(!f->MMomSpace() && !f->VMomSpace() && !f->Folded(), "back in position space, unfolded");
    real("field after the round trip", "velocity after the round trip", 4); __sym_reach("end"); return; }
  auto lap = [&](std::vector<T> &a, std::vector<T> &b, bool k) { dft(a, b, n, lz, -1); for (size_t i = 0; i < N; i++) { long x = sg(i % n, n), y = sg(i / n % n, n), z = sg(i / n2, lz); T p = (T)(x * x + y * y + z * z); a[i] *= p; b[i] *= p; } if (k) dft(a, b, n, lz, 1); };
  if (what == 1) {
    if (!sax) { T *a = (T *)f->m2Cpu(); for (size_t i = 0; i < N; i++) a[i / n * (n + 2) + i % n] = mr[i]; }
    applyLaplacian(f); std::vector<T> a = mr, b = mi; lap(a, b, true); T *q = (T *)f->m2Cpu();
    for (size_t i = 0; i < N; i++) { size_t o = sax ? 2 * i : i / n * (n + 2) + i % n; __sym_eq(q[o], a[i], 20. * N, "squared momentum applied", i); if (sax) __sym_eq(q[o + 1], b[i], 20. * N, "squared momentum applied (imaginary)", i); }
    real("field untouched", "velocity untouched", 1); __sym_check(f->m2Status() == M2_DIRTY, "m2 declared used"); __sym_reach("end"); return; }
  double z = *f->zV(); const int steps = __sym_param("steps", 1); initPropagator(pType, f, (VqcdType)pot, ng); for (int s = 0; s < steps; s++) propagate(f, dz);
  for (int s = 0; s < 4 * steps; s++) { const double R = std::pow(z, frw), Rpp = frw * (frw - 1) / (z * z), mA2 = co->AxionMass2(z), c = KC[s % 4] * dz, d = KD[s % 4] * dz; std::vector<T> a = mr, b = mi;
    if (what == 2) { lap(a, b, true); const double K = -M_PI * M_PI / N; // (2 pi/L)^2 with L = 2
      for (size_t i = 0; i < N; i++) { vr[i] += (T)c * (a[i] * (T)K + (T)Rpp * mr[i] + (sax ? (T)(mA2 * R * R * R) : qcd ? -(T)(mA2 * R * R * R) * std::sin(mr[i] / (T)R) : (T)0)); mr[i] += (T)d * vr[i]; if (sax) { vi[i] += (T)c * (b[i] * (T)K + (T)Rpp * mi[i]); mi[i] += (T)d * vi[i]; } } }
    else { for (size_t i = 0; i < N; i++) vr[i] += (T)c * ((T)Rpp * mr[i] - (qcd ? (T)(mA2 * R * R * R) * std::sin(mr[i] / (T)R) : (T)0)); std::vector<T> e = vr, g = vi; dft(a, b, n, lz, -1); dft(e, g, n, lz, -1);   // kick, then every mode flies freely
      for (size_t i = 0; i < N; i++) { long x = sg(i % n, n), y = sg(i / n % n, n), q = sg(i / n2, lz); double w = M_PI * std::sqrt((double)(x * x + y * y + q * q)), C = std::cos(w * d), S = w > 0 ? std::sin(w * d) / w : d; T A[2] = {a[i], b[i]}, E[2] = {e[i], g[i]}; a[i] = A[0] * (T)C + E[0] * (T)S; b[i] = A[1] * (T)C + E[1] * (T)S; e[i] = E[0] * (T)C - A[0] * (T)(w * w * S); g[i] = E[1] * (T)C - A[1] * (T)(w * w * S); }
      dft(a, b, n, lz, 1); dft(e, g, n, lz, 1); for (size_t i = 0; i < N; i++) { mr[i] = a[i] / N; vr[i] = e[i] / N; } }
    z += d; }
  __sym_eq(*f->zV(), 1.5 + dz * steps, 30, "time advanced by the step", -1); __sym_eq(*f->RV(), std::pow(1.5 + dz * steps, frw), 30, "scale factor follows the time", -1);
  if (what == 3) { __sym_check(f->MMomSpace() && f->VMomSpace(), "field left in momentum space"); FTfield ft(f); ft(FIELD_MV, FFT_BCK); }
  __sym_check(!f->Folded(), "field left in plain order"); real("field after the step", "velocity after the step", 20); __sym_reach("end");
}
extern "C" void harness() { mdl_threads = __sym_param("th", 1); __sym_threads(mdl_threads); if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
