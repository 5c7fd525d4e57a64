// Gravitational potential: the spectral solver, its hybrid variant, and the normalisation of the field.
#include "common.h"
#include <memory>
#include <string>
#include <sstream>
#include <map>
#include <functional>
#include "scalar/folder.h"
#include "fft/fftCode.h"
#include "comms/comms.h"
#include "utils/utils.h"
#include "energy/energy.h"
#define private public
#include "../lib/gravity/potential.cpp"
#undef private
namespace AxionFFT { extern char outfftName[]; }
extern "C" const double *mdl_others;
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
static const int MU[][3] = {{0, 0, 0}, {1, 0, 0}, {3, 2, 1}, {0, 3, 2}, {2, 1, 3}, {1, 3, 0}, {2, 2, 2}, {0, 0, 3}};
static double K0; static size_t RN, RZ, RT, RK; static int DBL; static std::vector<double> src; static std::vector<std::complex<double>> md; static int stage; static double nrm;
template <class T> static int hook(int kind, int sign, void *in, void *out) {
  const size_t H = RN / 2 + 1, nm = H * RN / mdl_size * RT;
  if (sign < 0) { // the source arrives; modes leave
    T *p = (T *)in; for (size_t z = 0; z < RZ; z++) for (size_t y = 0; y < RN; y++) for (size_t x = 0; x < RN; x++) __sym_eq((double)p[(z * RN + y) * 2 * H + x], src[(z * RN + y) * RN + x], 1, "source of the Poisson equation", (long)((z * RN + y) * RN + x));
    T *o = (T *)out; md.resize(nm); for (size_t i = 0; i < nm; i++) { double a = __sym_real_i("mr", i, -2, 2), b = __sym_real_i("mi", i, -2, 2); md[i] = {a, b}; o[2 * i] = (T)a; o[2 * i + 1] = (T)b; }
  } else { // the potential's modes arrive; potential leaves
    T *p = (T *)in; for (size_t i = 0; i < nm; i++) {
      long kx = i % H, kz = i / H % RT, ky = i / H / RT + RN / mdl_size * mdl_rank; if (ky > (long)RN / 2) ky -= RN; if (kz > (long)RT / 2) kz -= RT; const double k2 = kx * kx + ky * ky + kz * kz;
      std::complex<double> e = 0; if (k2 > 0) { std::complex<double> w = -1 / (K0 * K0 * k2 * RN * RN * RT); if (RK > 1) w *= std::polar(1., M_PI * ((double)kx / RN + (double)ky / RN + (double)kz / RT)); e = {md[i].real() * w.real() - md[i].imag() * w.imag(), md[i].real() * w.imag() + md[i].imag() * w.real()}; }
      __sym_eq((double)p[2 * i], e.real(), nrm, "potential mode, real part", (long)i); __sym_eq((double)p[2 * i + 1], e.imag(), nrm, "potential mode, imaginary part", (long)i);
    }
    T *o = (T *)out; for (size_t i = 0; i < RZ * RN * 2 * H; i++) o[i] = (T)__sym_real_i("pot", i, -2, 2);
  }
  stage++; return 1;
}
template <class T> static void fld(Scalar *f, size_t n, size_t lz, size_t ns, std::vector<double> &rho) {
  T *m = (T *)f->mStart(), *v = (T *)f->vStart(); const size_t N = n * n * lz, sh = f->DataAlign() / f->DataSize(); rho.assign(N, 0);
  std::vector<int> on(N, ns == 0); for (size_t s = 0; s < ns; s++) on[(MU[s][2] % lz * n + MU[s][1] * (n / 4)) * n + MU[s][0] * (n / 4) + (s & 1)] = 1;
  for (size_t i = 0; i < N; i++) { size_t j = flat(n, sh, f->Folded(), i % n, i / n % n, i / (n * n)); double a = on[i] ? __sym_real_i("re", i, -2, 2) : 0.25, b = on[i] ? __sym_real_i("im", i, -2, 2) : -0.5; m[j] = (T)a; v[j] = (T)b; rho[i] = a * a + b * b; }
}
static double green(size_t n, size_t lz, long x, long y, long z) {
  double g = 0; for (size_t c = 0; c < lz; c++) for (size_t b = 0; b < n; b++) for (size_t a = 0; a < n; a++) { auto s = [](size_t k, size_t N) { return k > N / 2 ? (double)k - N : (double)k; }; double k2 = s(a, n) * s(a, n) + s(b, n) * s(b, n) + s(c, lz) * s(c, lz); if (k2 > 0) g -= cos(2 * M_PI * ((double)(a * x + b * y) / n + (double)(c * z) / lz)) / k2; }
  return g / (K0 * K0 * n * n * lz);
}
static void poisson(size_t n, size_t lz, const std::vector<double> &rho, std::vector<double> &phi) {
  std::vector<double> G(n * n * lz); phi.assign(n * n * lz, 0);
  for (size_t i = 0; i < G.size(); i++) { G[i] = green(n, lz, i % n, i / n % n, i / (n * n)); if (fabs(G[i]) < 1e-15) G[i] = 0; }
  for (size_t i = 0; i < G.size(); i++) { double s = 0; for (size_t j = 0; j < G.size(); j++) { size_t x = (i % n + n - j % n) % n, y = (i / n % n + n - j / n % n) % n, z = (i / (n * n) + lz - j / (n * n)) % lz; s += G[(z * n + y) * n + x] * rho[j]; } phi[i] = s; }
}
template <class T> static void run() {
  const int what = __sym_param("what", 0), fold = __sym_param("fold", 0), ranks = __sym_param("ranks", 1), hyb = __sym_param("hyb", 0); DBL = sizeof(T) == 8;
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", n / ranks), ng = __sym_param("ng", 1), ns = __sym_param("ns", 0), ref = hyb ? __sym_param("ref", 2) : 1, N = n * n * lz; const double L = 3.0;
  mdl_size = ranks; zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; strcpy(AxionFFT::outfftName, "/dev/null"); debug = false; K0 = 2 * M_PI / L; mdl_rank = __sym_param("rank", 0);
  Cosmos *c = mkCosmos(); c->SetPhysSize(L); c->ICData().beta = 0.75; Scalar *f = mkScalar(c, n, lz, DBL, what == 1 ? FIELD_AXION : FIELD_PAXION, false, ng); f->setFolded(fold); const size_t sh = f->DataAlign() / f->DataSize(), S = n * n;
  std::vector<double> rho, phi; nrm = 1 / (K0 * K0 * S * lz * ranks);
  if (what == 2) { // normalisation
    fld<T>(f, n, lz, ns, rho); InitGravity(f); T *m = (T *)f->mStart(), *v = (T *)f->vStart(); std::vector<double> a(N), b(N); double s = 0; for (size_t i = 0; i < N; i++) { a[i] = m[i]; b[i] = v[i]; s += a[i] * a[i] + b[i] * b[i]; }
    const double oth = ranks > 1 ? __sym_real("others", 0, 9) : 0; if (ranks > 1) mdl_others = &oth; normaliseFields(); s = (s + oth) / (N * ranks);
    double nn = 1. / std::sqrt(s); for (size_t i = 0; i < N; i++) { __sym_eq((double)m[i], a[i] * nn, 1, "field divided by its root mean square", (long)i); __sym_eq((double)v[i], b[i] * nn, 1, "field divided by its root mean square (imaginary)", (long)i); }
    __sym_eq(c->ICData().beta, 0.75 * s, 1, "self-coupling rescaled", -1); __sym_reach("end"); return;
  }
  double avg = 1;
  if (what == 1) {
    T *m = (T *)f->mStart(), *v = (T *)f->vStart(); for (size_t i = 0; i < N; i++) { m[i] = (T)(0.1 * (i % 5)); v[i] = (T)0.25; } for (size_t s = 0; s < (ns ? ns : 2); s++) v[(MU[s][2] % lz * n + MU[s][1] * (n / 4)) * n + MU[s][0] * (n / 4)] = (T)__sym_real_i("v", s, -2, 2);
    if (fold) { Folder mg(f); f->setFolded(false); mg(FOLD_ALL); }
    void *er; double E[64]; for (auto &x : E) x = 0; er = E; energy(f, er, EN_MAP, 0); rho.resize(N); for (size_t i = 0; i < N; i++) rho[i] = (double)((T *)f->m2Cpu())[i]; avg = E[TH_KIN] + E[TH_POT] + E[TH_GRX] + E[TH_GRY] + E[TH_GRZ]; if (fold && !f->Folded()) { Folder mg(f); mg(FOLD_ALL); }
  } else fld<T>(f, n, lz, ns, rho);
  InitGravity(f); 
  grav->SetBlockX(n); grav->SetBlockY(__sym_param("by", n / sh ? 1 : 1)); grav->SetBlockZ(lz);
  setHybridMode(hyb);
  if (what == 3 || hyb) { // modes of every rank, stage by stage
    RK = ref; RN = n / ref; RZ = lz / ref; RT = lz * ranks / ref; src.assign(RN * RN * RZ, 0); double mean = 0; if (hyb) { AxionFFT::removePlan("m2redFFT"); AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "m2redFFT", ref); grav->redfft = ref; grav->smsteps = grav->smstep2 = 0; for (size_t i = 0; i < N; i++) mean += rho[i]; static double oth; oth = ranks > 1 ? __sym_real("others", 0, 9) : 0; if (ranks > 1) mdl_others = &oth; mean = (mean + oth) / (N * ranks); }
    for (size_t z = 0; z < RZ; z++) for (size_t y = 0; y < RN; y++) for (size_t x = 0; x < RN; x++) src[(z * RN + y) * RN + x] = rho[((z * ref) * n + y * ref) * n + x * ref] - mean;
    nrm = 1 / (K0 * K0 * RN * RN * RT); mdl_fft_hook = hook<T>; stage = 0; calculateGraviPotential(); __sym_check(stage == 2, "one transform each way");
    const bool fd = hyb ? true : fold; T *m2 = (T *)f->m2Start();
    for (size_t i = 0; i < N; i++) { size_t x = i % n / ref, y = i / n % n / ref, z = i / S / ref; __sym_eq((double)m2[flat(n, sh, fd, i % n, i / n % n, i / S)], __sym_real_i("pot", (z * RN + y) * 2 * (RN / 2 + 1) + x, -2, 2), 1, "potential delivered at its site", (long)i); }
  } else {
    calculateGraviPotential(); poisson(n, lz, rho, phi); T *m2 = (T *)f->m2Start(); const double inv = what == 1 ? 1 / avg : 1;
    for (size_t i = 0; i < N; i++) __sym_eq((double)m2[flat(n, sh, f->Folded(), i % n, i / n % n, i / S)], phi[i] * inv, 1, "potential solves the Poisson equation", (long)i);
  }
  __sym_check(f->m2Status() == M2_POT, "workspace marked as holding the potential"); __sym_reach("end");
}
extern "C" void harness() { mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
