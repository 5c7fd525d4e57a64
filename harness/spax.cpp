// Thermal starts and starts from tabulated spectra. A start from tabulated spectra: angle and velocity drawn in mode space, transformed, and merged with a string network for the complex field.
#include "common.h"
#include "gen/genConf.h"
#include "gen/momConf.h"
#include "scalar/normCore.h"
extern "C" { double mdl_draw(double lo, double hi); extern double *mdl_kkk; int mdl_kkk_len; }
double *mdl_kkk = nullptr; static std::vector<double> dr; static int coarse;
double mdl_draw(double lo, double hi) { __sym_check(coarse, "no draw outside the modes"); double d = lo + (hi - lo) * ((dr.size() * 37 + 11) % 64 + 0.5) / 64.; dr.push_back(d); return d; }
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out); namespace AxionFFT { extern char outfftName[]; }
static size_t n, lz, N; static int moms, ffts, cores, SAX; static int hot; static double mass2; static double tab[8]; static Scalar *F; static std::vector<double> o1, o2, st; static double xi0, kc, R0;
void normCoreField(Scalar *) { cores++; }
void momConf(Scalar *f, MomParms p) {
  __sym_check(f == F, "the field"); const int k = moms++;
  if (hot) { __sym_check(!k && p.cmplx && p.mocoty == MOM_MVTHERMAL && p.mp == f->mStart() && p.vp == f->vStart() && p.kMax == n, "thermal modes in field and velocity"); __sym_eq(p.mass2, mass2, 1, "curvature of the thermal potential", -1); __sym_eq(p.kCrt, kc, 1, "temperature", -1); __sym_eq(p.k0, 2 * M_PI / f->BckGnd()->PhysSize(), 1, "wave number of a mode", -1); return; }
  if (k < 2) { __sym_check(!p.cmplx && p.mocoty == MOM_SPAX && p.mp == f->m2Cpu() && p.kMax == n, "real modes from the table, in the transform buffer"); __sym_check(p.mfttab.size() >= 4, "the whole table"); for (size_t i = 0; i < 4 && i < p.mfttab.size(); i++) __sym_eq(p.mfttab[i], tab[2 * i + k], 1, k ? "table of the velocity" : "table of the angle", i); }
  else { const double D = F->Delta(), q = 6 * xi0 * D * D / (*F->zV() * *F->zV()); __sym_check(p.cmplx && p.mocoty == MOM_MEXP2 && p.mp == f->mStart() && p.kMax == n, "string network drawn in the field"); __sym_eq(p.kCrt, n * std::sqrt(q / 4.7 * std::pow(1 - std::pow(q, 1.5), -1 / 1.5)), 1, "correlation length of the network", -1); }
}
template <class T> static int hook(int, int sign, void *in, void *out) {
  const int k = ffts++; if (hot) { T *o = (T *)out; const bool a = out == F->mStart(); __sym_check(sign > 0 && moms == 1 && in == out && (a || out == F->vStart()), "field and velocity transformed back"); auto &w = a ? o1 : o2; __sym_check(w.empty(), "once each"); for (size_t i = 0; i < 2 * N; i++) { const double v = __sym_real_i(a ? "ang" : "vel", i, -2, 2); w.push_back(v); o[i] = (T)v; } return 1; }
  __sym_check(sign > 0 && moms == k + 1, "each set of modes transformed back"); T *o = (T *)out;
  if (k < 2) { __sym_check(in == F->m2Cpu() && out == F->m2Cpu(), "in the transform buffer"); for (size_t r = 0; r < n * lz; r++) for (size_t x = 0; x < n + 2; x++) { if (x >= n) { o[r * (n + 2) + x] = (T)77; continue; } const double v = __sym_real_i(k ? "vel" : "ang", r * n + x, -2, 2); (k ? o2 : o1).push_back(v); o[r * (n + 2) + x] = (T)v; } }
  else { __sym_check(out == F->mStart(), "in the field"); for (size_t i = 0; i < 2 * N; i++) { const double v = i % 2 ? -0.5 + 0.01 * (double)(i % 13) : 1.25 - 0.02 * (double)(i % 17); st.push_back(v); o[i] = (T)v; } }
  return 1;
}
template <class T> static void run() {
  n = __sym_param("n", 4); lz = __sym_param("lz", 4); N = n * n * lz; SAX = __sym_param("sax", 1); const int si = __sym_param("siter", 0), frw = __sym_param("frw", 1), core = __sym_param("core", 0);
  sizeN = n; sizeZ = lz; lowmem = false; debug = false; strcpy(AxionFFT::outfftName, "/dev/null");
  Cosmos *c = mkCosmos(); const double z = 1.75; c->SetFrw(frw); IcData &ic = c->ICData(); ic.zi = z; ic.fType = SAX ? FIELD_SAXION : FIELD_AXION; coarse = __sym_param("flat", 0); ic.kMax = !coarse; ic.smvarType = CONF_RAND; ic.kcr = kc = 1.5; ic.siter = si; ic.logi = 1.5; ic.randommom = true; ic.normcore = core; ic.preprop = false;
  for (int i = 0; i < 8; i++) tab[i] = __sym_real_i("tab", i, -1, 1); mdl_kkk = tab; mdl_kkk_len = 8;
  xi0 = (249.48 + 38.8431 * 1.5 + 1086.06 * 1.5 * 1.5) / (21775.3 + 3665.11 * 1.5) * (si == 1 ? kc : 1);
  hot = __sym_param("hot", 0); if (hot) { kc = hot == 1 ? __sym_real("T", 0.5, 1.7) : __sym_real("T", 1.75, 3); const double lam = __sym_real("lambda", 0.5, 2); c->SetLambda(lam); c->SetPhysSize(3.); ic.kcr = kc; const double R2 = std::pow(z, 2. * frw); mass2 = hot == 1 ? 2 * lam * R2 * (1 - kc * kc / 3) : lam * R2 * (kc * kc / 3 - 1); }
  Scalar *f = F = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_SAXION, false, __sym_param("ng", 1)); ic.cType = hot ? CONF_THERMAL : CONF_SPAX; mdl_fft_hook = hook<T>; mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  genConf(c, f); __sym_races(0);
  if (hot) { __sym_check(moms == 1 && ffts == 2 && o1.size() == 2 * N && o2.size() == 2 * N && *f->zV() == z && !f->Folded(), "one set of modes, two transforms"); T *m = (T *)f->mStart(), *v = (T *)f->vStart(); const double w = 1 / std::pow(3., 1.5);
    for (size_t i = 0; i < 2 * N && o1.size() == 2 * N && o2.size() == 2 * N; i++) { __sym_eq((double)m[i], o1[i] * w, 1, "thermal field", i); __sym_eq((double)v[i], o2[i] * w, 1, "thermal velocity", i); } __sym_reach("end"); return; }
  __sym_check(moms == 2 + (SAX && !coarse) && ffts == moms, "two sets of modes, and the network of a complex field"); __sym_check(*f->zV() == z && !f->Folded(), "clock and order"); __sym_check(f->Field() == (SAX ? FIELD_SAXION : FIELD_AXION), "kind of field"); if (o1.size() != N || o2.size() != N) return;
  if (coarse) { if (dr.size() != 2 * N) { __sym_check(0, "one draw per site and component"); return; } st = dr; const double D = f->Delta(), al = 0.143; const int its = (int)(0.8 / std::min(1., 6 * xi0 * D * D / (z * z)));
    for (int q = 0; q < its; q++) { std::vector<double> o(2 * N); for (size_t i = 0; i < 2 * N; i++) { const long k = i % 2, x = i / 2 % n, y = i / 2 / n % n, w = i / 2 / n / n; auto at = [&](long a, long b, long d) { return st[2 * (((d + lz) % lz * n + (b + n) % n) * n + (a + n) % n) + k]; };
        o[i] = al * at(x, y, w) + (1 - al) / 6 * (at(x + 1, y, w) + at(x - 1, y, w) + at(x, y + 1, w) + at(x, y - 1, w) + at(x, y, w + 1) + at(x, y, w - 1)); } st = o; } }
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); const double R = std::pow(z, (double)frw), H = frw / z;
  if (!SAX) for (size_t i = 0; i < N; i++) { __sym_eq((double)m[i], o1[i], 1, "angle", i); __sym_eq((double)v[i], o2[i], 1, "velocity", i); }
  else { __sym_check(cores == (core != 0), "cores adjusted if asked"); for (size_t i = 0; i < N; i++) { const double r = std::sqrt(st[2 * i] * st[2 * i] + st[2 * i + 1] * st[2 * i + 1]), a = st[2 * i] / r, b = st[2 * i + 1] / r, th = o1[i] / R, tp = o2[i] / R - th * H, C = std::cos(th), S = std::sin(th), x = R * (a * C - b * S), y = R * (a * S + b * C);
    __sym_eq((double)m[2 * i], x, 1, "conformal field, real part", i); __sym_eq((double)m[2 * i + 1], y, 1, "conformal field, imaginary part", i); __sym_eq((double)v[2 * i], H * x - tp * y, 1, "conformal velocity, real part", i); __sym_eq((double)v[2 * i + 1], H * y + tp * x, 1, "conformal velocity, imaginary part", i); } }
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
