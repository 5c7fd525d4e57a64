// Power spectra: every Fourier mode counted once with the right weight, in the right bin, of the right field.
#include "common.h"
#include <complex>
#include "spectrum/spectrum.h"
#include "fft/fftCode.h"
#include "utils/kgvops.h"
#include "spectrum/LLUTs.h"
namespace AxionFFT { extern char outfftName[2048]; }
typedef std::complex<double> Cd;
static Cd tw(size_t k, size_t n) { k %= n; if (4 * k % n == 0) { static const double c[4] = {1, 0, -1, 0}, s[4] = {0, 1, 0, -1}; size_t q = 4 * k / n; return {c[q], s[q]}; } double a = 2 * M_PI * (double)k / (double)n; return {std::cos(a), std::sin(a)}; }
// per-bin sum over the full Brillouin zone of weight(k) |sum_x g(x) exp(-ikx)|^2
template <class W> static std::vector<double> spectrum(const std::vector<double> &g, size_t n, size_t nz, size_t nb, double mul, W w) {
  std::vector<double> o(nb, 0.0); const long h = n / 2, hz = nz / 2;
  for (size_t kz = 0; kz < nz; kz++) for (size_t ky = 0; ky < n; ky++) for (size_t kx = 0; kx < n; kx++) {
    double re = 0, im = 0;
    for (size_t z = 0; z < nz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { Cd e = tw(kx * x, n) * tw(ky * y, n) * tw(kz * z, nz); double v = g[(z * n + y) * n + x]; re += v * e.real(); im -= v * e.imag(); }
    long X = kx, Y = ky, Z = kz; if (X > h) X -= n; if (Y > h) Y -= n; if (Z > hz) Z -= nz;
    long k2 = X * X + Y * Y + Z * Z; size_t b = (size_t)std::floor(mul * std::sqrt((double)k2));
    if (b < nb) o[b] += w(X, Y, Z, k2) * (re * re + im * im);
  }
  return o;
}
// One process of several: the transform is opaque; its input is checked, its output fresh, and the spectrum must hold this
// process's modes, each once, plus what the other processes contribute.
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out); extern "C" const double *mdl_others; extern "C" int mdl_mpi_record;
static struct { size_t n, lz; int calls; std::vector<double> pos, mode; } RK;
template <class T> static int rkhook(int kind, int sign, void *in, void *out) {
  auto &k = RK; const T *a = (const T *)in; T *o = (T *)out; __sym_check(kind == 1 && sign < 0 && k.calls++ == 0, "one real forward transform");
  for (size_t i = 0; i < k.n * k.n * k.lz; i++) __sym_eq((double)a[i / k.n * (k.n + 2) + i % k.n], k.pos[i], 1, "values handed to the transform", i);
  for (size_t i = 0; i < k.n * k.lz * (k.n / 2 + 1) * 2 * k.n; i++) { k.mode.push_back(__sym_real_i("mode", i, -3, 3)); o[i] = (T)k.mode[i]; if (i + 1 == 2 * (k.n / 2 + 1) * k.n * k.lz) break; }
  return 1;
}
template <class T> static void rankrun() {
  auto &k = RK; const int sub = __sym_param("sub", 0); const size_t n = __sym_param("n", 4), ranks = __sym_param("ranks", 2), lz = n / ranks, ng = __sym_param("ng", 1), S = n * n, N = S * lz, X = n / 2 + 1, ny = n / ranks;
  mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; mdl_mpi_record = 1; strcpy(AxionFFT::outfftName, "/dev/null");
  Cosmos *c = mkCosmos(); c->SetQcdExp(2); c->SetIndi3(1.5); c->SetPhysSize(3.0); c->SetQcdPot(V_QCD1_PQ1); Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_AXION, false, ng); const double z = 2, R = c->R(z), L = 3.0; *f->zV() = z; f->updateR();
  f->setFolded(__sym_param("fold", 0)); const bool fd = f->Folded(); const size_t sh = f->DataAlign() / sizeof(T); AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWD, "pSpecAx", 1);
  MeasInfo mi; mi.nbinsspec = __sym_param("nb", -1); SpecBin sb(f, true, mi); const size_t nb = sb.NBins(), pw = (size_t)std::floor(std::sqrt(3.0 * (n / 2) * (n / 2))) + 1; __sym_check(nb == (mi.nbinsspec < 0 ? pw : (size_t)mi.nbinsspec), "number of bins");
  const double mul = mi.nbinsspec < 0 ? 1.0 : (double)nb / pw, norm = L * L * L / (2.0 * N * ranks * N * ranks), k1 = 2 * M_PI / L, mA2 = f->AxionMassSq() * R * R;
  k.n = n; k.lz = lz; k.calls = 0; T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *m2 = (T *)f->m2Cpu(); char *sd = (char *)f->sData(); std::vector<double> oth; for (size_t i = 0; i < nb; i++) oth.push_back(__sym_real_i("others", i, 0, 4)); mdl_others = oth.data(); mdl_fft_hook = rkhook<T>;
  for (size_t i = 0; i < N; i++) { size_t j = flat(n, sh, fd, i % n, i / n % n, i / S); double a = __sym_real_i("d", i, -3, 3); m[j] = v[j] = (T)0.25; sd[i] = 0; if (sub == 2) { m2[i] = (T)a; a = (double)m2[i]; } if (sub == 3) v[j] = (T)a; if (sub == 4) m[j] = (T)a; k.pos.push_back(a); }
  if (sub == 0) sb.nmodRun(); if (sub == 1) sb.avekRun(); if (sub == 2) { f->setM2(M2_ENERGY); sb.pRun(); } if (sub == 3) sb.nRun(SPMASK_FLAT, NRUN_K); if (sub == 4) sb.nRun(SPMASK_FLAT, (nRunType)(NRUN_G | NRUN_V));
  __sym_check(k.calls == (sub > 1), "number of transforms");
  auto cmp = [&](const double *got, double fac, auto w, const char *nm) { std::vector<double> o(nb, 0.0);
    for (size_t y = 0; y < ny; y++) for (size_t q = 0; q < n; q++) for (size_t x = 0; x < X; x++) { long Y = y + ny * mdl_rank, Z = q; if (Y > (long)n / 2) Y -= n; if (Z > (long)n / 2) Z -= n; const long k2 = x * x + Y * Y + Z * Z; size_t b = (size_t)std::floor(mul * std::sqrt((double)k2)), i = 2 * (x + X * (q + n * y));
      double p = sub > 1 ? k.mode[i] * k.mode[i] + k.mode[i + 1] * k.mode[i + 1] : 1; if (b < nb) o[b] += (x == 0 || x == n / 2 ? 1 : 2) * w((double)k2) * p; }
    for (size_t b = 0; b < nb; b++) __sym_eq(got[b], fac * o[b] + oth[b] , 1, nm, b); };
  auto one = [](double) { return 1.0; };
  if (sub == 0) cmp(sb.data(SPECTRUM_NN), 1, one, "number of modes"); if (sub == 1) cmp(sb.data(SPECTRUM_AK), 1, [](double q) { return q; }, "sum of k^2"); if (sub == 2) cmp(sb.data(SPECTRUM_P), norm, one, "power of the density contrast"); if (sub == 3) cmp(sb.data(SPECTRUM_KK), norm, one, "kinetic spectrum");
  if (sub == 4) { cmp(sb.data(SPECTRUM_GG), norm, [&](double q) { return q * k1 * k1; }, "gradient spectrum"); cmp(sb.data(SPECTRUM_VV), norm, [&](double) { return mA2; }, "mass spectrum"); }
  __sym_reach("end");
}
template <class T> static void run() {
  if (__sym_param("what", 0) == 4) { rankrun<T>(); return; }
  typedef std::complex<T> C;
  const int what = __sym_param("what", 0), ax = __sym_param("ax", 1), sp = __sym_param("spec", 1), msk = __sym_param("mask", 1), nrt = __sym_param("nrt", 1);
  const size_t n = __sym_param("n", 4), lz = n, ng = __sym_param("ng", 1), S = n * n, N = S * lz; const long nsym = __sym_param("nsym", 1000);
  Cosmos *c = mkCosmos(); c->SetQcdExp(2); c->SetIndi3(1.5); c->SetPhysSize(3.0); c->SetQcdPot(V_QCD1_PQ1);
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, ax ? FIELD_AXION : FIELD_SAXION, false, ng);
  const double z = 2, R = c->R(z), L = 3.0; *f->zV() = z; f->updateR();
  f->setFolded(__sym_param("fold", 0)); const bool fd = f->Folded(); const size_t sh = f->DataAlign() / ((ax ? 1 : 2) * sizeof(T));
  strcpy(AxionFFT::outfftName, "/dev/null"); AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWD, "pSpecAx", 1);
  MeasInfo mi; mi.nbinsspec = __sym_param("nb", -1);
  SpecBin sb(f, sp, mi);
  const size_t nb = sb.NBins(), pw = (size_t)std::floor(std::sqrt(3.0 * (n / 2) * (n / 2))) + 1; __sym_check(nb == (mi.nbinsspec < 0 ? pw : (size_t)mi.nbinsspec), "number of bins");
  const double mul = mi.nbinsspec < 0 ? 1.0 : (double)nb / pw, norm = L * L * L / (2.0 * N * N), k1 = 2 * M_PI / L, mA2 = f->AxionMassSq() * R * R;
  auto one = [](long, long, long, long) { return 1.0; };
  auto cmp = [&](const double *got, const std::vector<double> &o, double fac, const char *nm) { for (size_t b = 0; b < nb; b++) __sym_eq(got[b], fac * o[b], fac, nm, b); };
  unsigned rs = 5; auto rnd = [&](double lo, double hi) { rs = rs * 1664525u + 1013904223u; return (T)(lo + (hi - lo) * ((rs >> 20) + 0.5) / 4096.0); };
  auto symb = [&](size_t i) { return nsym > (long)N || (long)((i * 7 + 3) % N) < nsym; };
  if (what == 0) { // number of modes and mean k^2
    std::vector<double> d(N, 0.0); d[0] = 1; sb.nmodRun(); cmp(sb.data(SPECTRUM_NN), spectrum(d, n, lz, nb, mul, one), 1, "number of modes");
    sb.avekRun(); cmp(sb.data(SPECTRUM_AK), spectrum(d, n, lz, nb, mul, [](long, long, long, long k2) { return (double)k2; }), 1, "sum of k^2");
  } else if (what == 1) { // power spectrum of the stored density
    const int half = __sym_param("half", 0); T *p = (T *)(half ? f->m2half() : f->m2Cpu()); std::vector<double> g(N);
    for (size_t i = 0; i < N; i++) g[i] = p[i] = symb(i) ? (T)__sym_real_i("d", i, -1, 3) : rnd(-1, 3);
    if (half) { f->setM2(M2_DIRTY); f->setM2h(M2_ENERGY); } else f->setM2(M2_ENERGY);
    sb.pRun(); __sym_check(f->m2Status() == M2_ENERGY_FFT, "status after pRun"); cmp(sb.data(SPECTRUM_P), spectrum(g, n, lz, nb, mul, one), norm, "power of the density contrast");
    if (__sym_param("twice", 0)) { sb.pRun(); cmp(sb.data(SPECTRUM_P), spectrum(g, n, lz, nb, mul, one), norm, "second pRun uses the stored transform"); }
  } else if (ax) { // axion: kinetic, gradient, mass and nonlinear potential
    T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); std::vector<double> a(N), b(N), s(N); char *sd = (char *)f->sData();
    for (size_t i = 0; i < N; i++) {
      size_t k = flat(n, sh, fd, i % n, i / n % n, i / S); bool mm = msk == SPMASK_AXIT2 && (i % 3 == 1); sd[i] = mm ? STRING_MASK : 0; if (i % 5 == 0) sd[i] |= STRING_WALL;
      m[k] = symb(i) ? (T)__sym_real_i("m", i, -3, 3) : rnd(-3, 3); v[k] = symb(i) ? (T)__sym_real_i("v", i, -3, 3) : rnd(-3, 3);
      a[i] = mm ? 0 : (double)m[k]; b[i] = mm ? 0 : (double)v[k]; s[i] = mm ? 0 : 2 * R * std::sin((double)m[k] / (2 * R));
    }
    f->setSD(SD_AXITONMASK);
    sb.nRun((SpectrumMaskType)msk, (nRunType)nrt);
    if (nrt & (NRUN_K | NRUN_CK)) cmp(sb.data(SPECTRUM_KK), spectrum(b, n, lz, nb, mul, one), norm, "kinetic spectrum");
    if (nrt & (NRUN_G | NRUN_V)) { cmp(sb.data(SPECTRUM_GG), spectrum(a, n, lz, nb, mul, [&](long, long, long, long k2) { return k2 * k1 * k1; }), norm, "gradient spectrum"); cmp(sb.data(SPECTRUM_VV), spectrum(a, n, lz, nb, mul, [&](long, long, long, long) { return mA2; }), norm, "mass spectrum"); }
    if (nrt & NRUN_S) cmp(sb.data(SPECTRUM_VVNL), spectrum(s, n, lz, nb, mul, [&](long, long, long, long) { return mA2; }), norm, "nonlinear potential spectrum");
    for (size_t i = 0; i < N; i++) { bool mm = msk == SPMASK_AXIT2 && (i % 3 == 1); size_t k = flat(n, f->DataAlign() / sizeof(T), f->Folded(), i % n, i / n % n, i / S); if (!mm) { __sym_eq((double)m[k], a[i], 1, "field unchanged", i); __sym_eq((double)v[k], b[i], 1, "velocity unchanged", i); } }
  } else { // saxion: spectra of the axion part with different masks
    C *m = (C *)f->mStart(), *v = (C *)f->vCpu(); std::vector<Cd> M(N), V(N); std::vector<double> th(N), wt(N); char *sd = (char *)f->sData(); const double zs = f->Saskia() * R, dx = L / n; T *mh = (T *)f->m2half();
    for (size_t i = 0; i < N; i++) {
      size_t k = flat(n, sh, fd, i % n, i / n % n, i / S); bool y = symb(i), mm = msk == SPMASK_REDO && (i % 3 == 1); sd[i] = mm ? STRING_MASK : 0; if (i % 5 == 0) sd[i] |= STRING_WALL;
      T a = y ? (T)__sym_real_i("mr", i, zs + 2.5, zs + 3) : rnd(zs + 2.5, zs + 3), b = y ? (T)__sym_real_i("mi", i, -0.5, 0.5) : rnd(-0.5, 0.5); m[k] = C(a, b); M[i] = Cd((double)a - zs, b);
      a = y ? (T)__sym_real_i("vr", i, -2, 2) : rnd(-2, 2); b = y ? (T)__sym_real_i("vi", i, -2, 2) : rnd(-2, 2); v[k] = C(a, b); V[i] = Cd(a, b);
      double r2 = M[i].real() * M[i].real() + M[i].imag() * M[i].imag(); wt[i] = msk == SPMASK_REDO ? (mm ? 0 : R) : msk == SPMASK_VIL ? std::sqrt(r2) : msk == SPMASK_VIL2 ? r2 / R : R;
      if (msk == SPMASK_DIFF || msk == SPMASK_GAUS) { double q = 0.25 + 0.5 * (double)(i % 3); mh[i] = (T)q; wt[i] = R * q; }
      th[i] = std::atan2(M[i].imag(), M[i].real());
    }
    f->setSD(SD_MASK);
    sb.nRun((SpectrumMaskType)msk, (nRunType)nrt);
    auto g = [&](auto fn) { std::vector<double> o(N); for (size_t i = 0; i < N; i++) o[i] = fn(i); return o; };
    auto rate = [&](size_t i, double dr, double di) { double x = M[i].real(), y = M[i].imag(); return (x * di - y * dr) / (x * x + y * y); };
    if (nrt & (NRUN_K | NRUN_CK)) cmp(sb.data(SPECTRUM_KK), spectrum(g([&](size_t i) { return wt[i] * rate(i, V[i].real(), V[i].imag()); }), n, lz, nb, mul, one), norm, "kinetic spectrum");
    if (nrt & NRUN_V) { __sym_check(mA2 > 0, "massive axion");
      cmp(sb.data(SPECTRUM_VVNL), spectrum(g([&](size_t i) { return wt[i] * 2 * std::sin(0.5 * th[i]); }), n, lz, nb, mul, [&](long, long, long, long) { return mA2; }), norm, "nonlinear potential spectrum");
      if (msk != SPMASK_DIFF && msk != SPMASK_GAUS) cmp(sb.data(SPECTRUM_VV), spectrum(g([&](size_t i) { return wt[i] * th[i]; }), n, lz, nb, mul, [&](long, long, long, long) { return mA2; }), norm, "mass spectrum");
    }
    if (nrt & NRUN_CV) cmp(sb.data(SPECTRUM_VV), spectrum(g([&](size_t i) { return wt[i] * th[i]; }), n, lz, nb, mul, [&](long, long, long, long) { return mA2; }), norm, "potential spectrum");
    if (nrt & (NRUN_G | NRUN_CG)) {
      std::vector<double> tot(nb, 0.0);
      for (int d = 0; d < 3; d++) {
        auto nbr = [&](size_t i, int st) { size_t x = i % n, y = i / n % n, zz = i / S; if (d == 0) x = (x + n + st) % n; if (d == 1) y = (y + n + st) % n; if (d == 2) zz = (zz + lz + st) % lz; return zz * S + y * n + x; };
        auto gr = g([&](size_t i) {
          Cd p = M[nbr(i, 1)], q = M[nbr(i, -1)], o = M[i];
          if (nrt & NRUN_G) return wt[i] / (2 * dx) * rate(i, p.real() - q.real(), p.imag() - q.imag()); // central difference
          double sr = p.real() + o.real(), si = p.imag() + o.imag(), dr = p.real() - o.real(), di = p.imag() - o.imag(); return wt[i] * 2 / dx * (sr * di - si * dr) / (sr * sr + si * si); // angle between neighbours
        });
        auto o = spectrum(gr, n, lz, nb, mul, [&](long X, long Y, long Z, long) { long k = d == 0 ? X : d == 1 ? Y : Z; if (!k) return 1.0; double p = 2 * M_PI * (double)k / n; return p * p / (2 * (1 - std::cos(p))); });
        for (size_t b = 0; b < nb; b++) tot[b] += o[b];
      }
      cmp(sb.data(SPECTRUM_GG), tot, norm, "gradient spectrum");
    }
  }
  __sym_reach("end");
}
// string-core correction: multilinear in (A,B,e,cos) between the nodes of the tables, odd under the reflections
template <class T> static void lut() {
  const int iA = __sym_param("iA", 3), iB = __sym_param("iB", 4), iE = __sym_param("iE", 2), iC = __sym_param("iC", 7), flip = __sym_param("flip", 0), sg = __sym_param("sg", 0), nr = __sym_param("nr", 1);
  const double hA = 5.0 / (N_A - 1), hB = 5.0 / (N_B - 1), fe = 0.375, fc = 0.625, e = (iE + fe) / (N_E - 1), cb = 2 * (iC + fc) / (N_C - 1) - 1, M = 0.8;
  const double A = __sym_real("A", (iA + 0.02) * hA, (iA + 0.98) * hA), B = __sym_real("B", (iB + 0.02) * hB, (iB + 0.98) * hB), s1 = sg & 1 ? -1 : 1, s2 = sg & 2 ? -1 : 1, sc = s1 * s2; // reflected fields: A -> s1 A, B -> s2 B
  double ga[3] = {M, 0, 0}, gb[3] = {M * e * cb * sc, M * e * std::sqrt(1 - cb * cb), 0};
  T da[10], re[2]; double d2 = __sym_real("d2", -1, 1), d3 = __sym_real("d3", -1, 1), r0 = __sym_real("r0", -1, 1), r1 = __sym_real("r1", -1, 1);
  da[flip ? 1 : 0] = (T)(s1 * A * M); da[flip ? 0 : 1] = (T)(s2 * B * M); da[2] = (T)d2; da[3] = (T)d3; re[0] = (T)r0; re[1] = (T)r1;
  for (int i = 0; i < 3; i++) { da[(flip ? 7 : 4) + i] = (T)ga[i]; da[(flip ? 4 : 7) + i] = (T)gb[i]; }
  stringcorre((void *)da, (void *)re, sizeof(T) == 8 ? FIELD_DOUBLE : FIELD_SINGLE, nr);
  auto tab = [&](const std::array<float, 85176> &t) { double o = 0, fa = A / hA - iA, fb = B / hB - iB; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { double w = 0; for (int x = 0; x < 2; x++) for (int c = 0; c < 2; c++) w += (x ? fe : 1 - fe) * (c ? fc : 1 - fc) * (double)t[(size_t)((iA + a) * N_B + iB + b) * N_E * N_C + (iE + x) * N_C + iC + c]; o += w * (a ? fa : 1 - fa) * (b ? fb : 1 - fb); } return o; };
  const double Lc = s1 * tab(LUTc), Ls = s2 * tab(LUTs);
  auto rate = [&](double vr, double vi) { return (flip ? Ls * vi - Lc * vr : Lc * vi - Ls * vr) / M; };
  __sym_eq((double)re[0], rate(d2, d3), 1, "corrected rate", -1); if (nr == 2) __sym_eq((double)re[1], rate(r0, r1), 1, "second corrected rate", -1);
  __sym_reach("end");
}
extern "C" void harness() {
  if (__sym_param("what", 0) == 3) { if (__sym_param("dbl", 1)) lut<double>(); else lut<float>(); return; }
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(__sym_param("races", 1));
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
}
