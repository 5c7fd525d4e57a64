// Smoothing of the energy map in Fourier space: the transforms are opaque, what they are given is checked, what they give is fresh.
#include "common.h"
#include "spectrum/spectrum.h"
#include "fft/fftCode.h"
#include "mpimodel.h"
#include <functional>
namespace AxionFFT { extern char outfftName[2048]; }
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
static std::function<void(int, void *)> onfft;
static int hook(int kind, int sign, void *in, void *out) { __sym_check(in == out && kind != 0, "transform in place, real to complex"); onfft(sign, in); return 1; }
template <class T> static void run() {
  const int ax = __sym_param("ax", 1), ranks = __sym_param("ranks", 1), rank = __sym_param("rank", 0), st = __sym_param("st", 0), f1 = __sym_param("flt", 0), f2 = __sym_param("flt2", f1), th = __sym_param("th", 1);
  const size_t n = __sym_param("n", 4), ng = __sym_param("ng", 1), lz = __sym_param("lz", n / ranks), S = n * n, N = S * lz, P = n + 2, X = n / 2 + 1, Tz = lz * ranks, ny = n / ranks, M = X * Tz * ny;
  mdl_size = ranks; mdl_rank = rank; zGrid = ranks; sizeN = n; sizeZ = Tz; strcpy(AxionFFT::outfftName, "/dev/null"); mdl_mpi_record = 1;
  Cosmos *c = mkCosmos(); const double box = 3.0; c->SetPhysSize(box); c->SetLambda(0.7); c->SetIndi3(0.4); c->SetQcdPot(V_QCD1_PQ1);
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, ax ? FIELD_AXION : FIELD_SAXION, false, ng); *f->zV() = 1.5; f->updateR(); f->setFolded(false);
  AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx", 1);
  T *m2 = (T *)f->m2Cpu(), *m2h = (T *)f->m2half();
  // st: 0 energy in m2, 1 energy in m2h, 2 modes in m2, 3 modes in m2h, 4 modes in both
  std::vector<double> pos, mode(2 * M), back(N); bool haveModes = st > 1;
  for (size_t i = 0; i < N; i++) pos.push_back(st < 2 ? __sym_real_i("e", i, 0, 3) : 0);
  if (st < 2) { for (size_t i = 0; i < N; i++) (st ? m2h : m2)[i] = (T)pos[i]; (st ? f->setM2h(M2_ENERGY) : f->setM2(M2_ENERGY)); }
  else { for (size_t i = 0; i < 2 * M; i++) { mode[i] = __sym_real_i("mode", i, -3, 3); if (st != 3) m2[i] = (T)mode[i]; if (st != 2) m2h[i] = (T)mode[i]; } if (st != 3) f->setM2(M2_ENERGY_FFT); if (st != 2) f->setM2h(M2_ENERGY_FFT); }
  int calls = 0, filter = 0; double R = 0;
  auto sg = [](long q, long L) { return (double)(q > L / 2 ? q - L : q); };
  onfft = [&](int sign, void *p) {
    T *a = (T *)p; calls++; __sym_check(p == (void *)f->m2Cpu(), "transform of the map");
    if (!haveModes) { haveModes = true; __sym_check(sign < 0, "forward first"); for (size_t i = 0; i < N; i++) __sym_eq((double)a[i / n * P + i % n], pos[i], 1, "energies handed to the transform", i);
      for (size_t i = 0; i < 2 * M; i++) { mode[i] = __sym_real_i("mode", i, -3, 3); a[i] = (T)mode[i]; } return; }
    __sym_check(sign > 0, "backward last");
    for (size_t i = 0; i < M; i++) { const size_t x = i % X, z = i / X % Tz, y = i / X / Tz + ny * rank; const double kx = x, ky = sg(y, n), kz = sg(z, Tz), q = 2 * M_PI / box * R * std::sqrt(kx * kx + ky * ky + kz * kz);
      const double w = (filter == FILTER_GAUSS ? std::exp(-q * q / 2) : filter == FILTER_SHARPK ? (q > 1 ? 0. : 1.) : q == 0 ? 1 : 3 * (std::sin(q) - q * std::cos(q)) / (q * q * q)) / ((double)N * ranks);
      for (int h = 0; h < 2; h++) __sym_eq((double)a[2 * i + h], mode[2 * i + h] * w, 3. / (N * ranks), filter == FILTER_GAUSS ? "mode, gaussian" : filter == FILTER_SHARPK ? "mode, sharp" : "mode, top hat", 2 * i + h); }
    for (size_t i = 0; i < n * P * lz; i++) a[i] = (T)0.3;
    for (size_t i = 0; i < N; i++) { back[i] = __sym_real_i("back", i, 0, 3); a[i / n * P + i % n] = (T)back[i]; }
  };
  mdl_fft_hook = hook;
  MeasInfo mi; mi.nbinsspec = -1; SpecBin sb(f, __sym_param("spec", 0), mi);
  mdl_threads = th; __sym_threads(th); __sym_races(th > 1);
  static const FilterIndex fi[] = {FILTER_GAUSS, FILTER_TOPHAT, FILTER_SHARPK};
  const int fl[2] = {f1, f2}; const double len[2] = {0.23, 0.61};
  for (int k = 0; k < 2; k++) { calls = 0; const bool had = haveModes; filter = fi[fl[k]]; R = len[k];
    sb.smoothFourier(R, (FilterIndex)filter);
    __sym_check(calls == (had ? 1 : 2), "number of transforms");
    for (size_t i = 0; i < N; i++) __sym_eq((double)m2[i / n * P + i % n], back[i], 1, "smoothed map", i);
    for (size_t i = 0; i < 2 * M; i++) __sym_eq((double)m2h[i], mode[i], 1, "modes kept for the next filter", i);
    __sym_check(f->m2Status() == M2_ENERGY_SMOOTH && f->m2hStatus() == M2_ENERGY_FFT, "labels of the maps"); }
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
