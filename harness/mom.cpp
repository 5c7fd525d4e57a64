// Random initial spectra: amplitude and phase of every Fourier mode.
#include "common.h"
#include <array>
#include "gen/momConf.h"
#include "comms/comms.h"
extern "C" { double mdl_draw(double lo, double hi); extern double *mdl_kkk; }
double *mdl_kkk = nullptr;
static std::vector<double> un, ga;
double mdl_draw(double lo, double hi) { auto &v = lo < -1 ? ga : un; double d = __sym_real_i(lo < -1 ? "amp" : "phase", v.size(), lo, hi); v.push_back(d); return d; }
typedef std::complex<double> C;
template <class T> static void run() {
  const MomConfType mt = (MomConfType)__sym_param("mt", 0); const int ranks = __sym_param("ranks", 1), fixed = __sym_param("fixed", 0), zero = __sym_param("zero", 0), real = __sym_param("real", 0), kq = __sym_param("kcr4", 0); const bool dbl = sizeof(T) == 8;
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", n / ranks), ng = __sym_param("ng", 1), tz = lz * ranks, kM = __sym_param("kmax", n), nx = real ? n / 2 + 1 : n, ny = n / ranks;
  mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; debug = false;
  Cosmos *c = mkCosmos(); Scalar *f = mkScalar(c, n, lz, dbl, FIELD_SAXION, false, ng); f->setFolded(false);
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); const bool two = mt == MOM_MVSINCOS || mt == MOM_MVTHERMAL;
  const double kc = kq ? kq * 0.25 : __sym_real("kcr", 1, 4), mass2 = mt == MOM_MVTHERMAL ? __sym_param("mass4", 3) * 0.25 : 0, k0 = 2 * M_PI / c->PhysSize();
  MomParms p; p.kMax = kM; p.kCrt = kc; p.mocoty = mt; p.mass2 = mass2; p.k0 = k0; p.cmplx = !real; p.randommom = !fixed; p.mp = f->mStart(); p.ftype = FIELD_SAXION;
  if (mt == MOM_SPAX) for (size_t i = 0; i < 2 * n; i++) p.mfttab.push_back(__sym_real_i("tab", i, -2, 2));
  double z0 = 0; if (zero) { z0 = __sym_real("mode0", -3, 3); mode0 = z0; } else mode0 = 10.;
  std::vector<std::array<double, 3>> pt;
  if (mt == MOM_STRING) { // a closed polygon, moved by an arbitrary offset
    static const double P[][3] = {{1, 1, 1}, {3, 1, 1}, {3, 2.5, 2}, {2, 2.5, 3}, {1, 2, 3}, {1, 1, 1}}; const double o[3] = {__sym_real("sx", -2, 2), __sym_real("sy", -2, 2), __sym_real("sz", -2, 2)};
    for (auto &a : P) { pt.push_back({a[0] + o[0], a[1] + o[1], a[2] + o[2]}); p.xx.push_back(pt.back()[0]); p.yy.push_back(pt.back()[1]); p.zz.push_back(pt.back()[2]); }
  }
  momConf(f, p);
  const long km = kM > n / 2 - 1 ? n / 2 - 1 : kM; size_t q = 0, modes = 0; const double sc = 4;
  auto chk = [&](T *a, size_t i, double re, double im, const char *w) { __sym_eq((double)a[2 * i], re, sc, (std::string(w) + ", real part").c_str(), (long)i); __sym_eq((double)a[2 * i + 1], im, sc, (std::string(w) + ", imaginary part").c_str(), (long)i); };
  for (size_t oy = 0; oy < ny; oy++) for (size_t oz = 0; oz < tz; oz++) for (size_t ox = 0; ox < nx; ox++) {
    const size_t i = ox + nx * (oz + tz * oy); long x = ox, y = oy + ny * mdl_rank, z = oz; if (x > (long)n / 2) x -= n; if (y > (long)n / 2) y -= n; if (z > (long)tz / 2) z -= tz;
    const long k2 = x * x + y * y + z * z; const double k = std::sqrt((double)k2);
    if (mt == MOM_STRING) {
      double re = 0, im = 0;
      if (k2) for (size_t s = 0; s + 1 < pt.size(); s++) {
        static const double D[][3] = {{2, 0, 0}, {0, 1.5, 1}, {-1, 0, 1}, {-1, -.5, 0}, {0, -1, -2}}; const double *d = D[s], w = 2 * M_PI / n, a = w * (x * d[0] + y * d[1] + z * d[2]), g = x ? (y * d[2] - z * d[1]) / x : y ? (z * d[0] - x * d[2]) / y : (x * d[1] - y * d[0]) / z;
        // the integral of exp(-i p.r) along the segment
        const double fr = a ? std::sin(a) / a : 1, fi = a ? (std::cos(a) - 1) / a : 0, t = w * (x * pt[s][0] + y * pt[s][1] + z * pt[s][2]), c0 = std::cos(t), s0 = std::sin(t);
        re += g * (fr * c0 + fi * s0) / (k2 * k0 * k0); im += g * (fi * c0 - fr * s0) / (k2 * k0 * k0);
      }
      chk(m, i, re, im, "mode of the loop's phase"); chk(v, i, 0, 0, "velocity untouched"); continue;
    }
    if (k2 > 3 * km * km) { chk(m, i, 0, 0, "mode beyond the cut"); chk(v, i, 0, 0, "velocity mode beyond the cut"); continue; }
    modes++; if (q >= un.size()) { __sym_check(0, "every mode below the cut has a random phase"); return; }
    auto rnd = [&](double &a, double &b) { double t = 2 * M_PI * un[q], r = fixed ? 1. : ga[q]; a = std::cos(t) * r; b = std::sin(t) * r; q++; };
    double a, b, w = 1, wv = 0, a2 = 0, b2 = 0; rnd(a, b);
    switch (mt) {
      case MOM_MSIN: w = k2 ? std::sin(k / kc) * kc / k : 1; break;
      case MOM_MVSINCOS: w = k2 ? std::sin(k / kc) * kc / k : 1; wv = k2 ? std::cos(k / kc) - w : 0; a2 = a; b2 = b; break;
      case MOM_MEXP: w = std::exp(-k / kc); break;
      case MOM_MEXP2: case MOM_KCOLE: w = std::exp(-k2 / (kc * kc)); break;
      case MOM_COLE: w = std::exp(-4. * k2 / (double)(n * n)) / std::pow(1 + k2 / (kc * kc), 1.5); break;
      case MOM_SPAX: { const int l = (int)k; w = p.mfttab[l] + (p.mfttab[l + 1] - p.mfttab[l]) * (k - l); break; }
      case MOM_MVTHERMAL: { const double om = std::sqrt(k2 * k0 * k0 + mass2), nb = std::sqrt(1 / (std::exp(om / kc) - 1)); double t = 2 * M_PI * un[q], r = ga[q]; q++; a2 = std::cos(t) * r; b2 = std::sin(t) * r; w = k2 ? nb / std::sqrt(om) : 0; wv = k2 ? nb * std::sqrt(om) : std::sqrt(kc); break; }
      default: break;
    }
    const bool zm = k2 == 0 && zero && mt != MOM_SPAX; double e0 = zm ? std::cos(z0) : 0, e1 = zm ? std::sin(z0) : 0;
    if (zm && !two) chk(m, i, e0, e1, "prescribed zero mode"); else chk(m, i, a * w, b * w, "field mode");
    if (zm && two) chk(v, i, e0, e1, "prescribed zero mode"); else chk(v, i, a2 * wv, b2 * wv, "velocity mode");
  }
  __sym_check(un.size() == q && ga.size() == q, "one phase and one amplitude per mode");
  if (!zero && mdl_rank == 0 && mt != MOM_SPAX && mt != MOM_STRING) __sym_check(mode0 < 3.1416 && mode0 > -3.1416, "the drawn zero mode is reported");
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 0)) run<double>(); else run<float>(); }
