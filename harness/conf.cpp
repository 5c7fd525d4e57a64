// Initial conditions: configuration formulas, and the smooth start end to end.
#include "common.h"
#include "gen/randXeon.h"
#include "gen/genConf.h"
#include "comms/comms.h"
extern "C" { double mdl_draw(double lo, double hi); extern double *mdl_kkk; }
static std::vector<double> draws;
double mdl_draw(double lo, double hi) { double d = __sym_real_i("draw", draws.size(), lo, hi); draws.push_back(d); return d; }
double *mdl_kkk = nullptr;
typedef std::complex<double> C;
static const double TPI = 2 * M_PI;
// signed distance from the origin on a periodic axis
static long wrap(long i, long N) { return i > N / 2 ? i - N : i; }
template <class T> struct Ref {
  size_t n, lz, tz, z0; double mode0, kcr, kx, ky, kz, L; long kMax; ConfsubType sv;
  // phase, modulus, or (velocities) the imaginary part of the value at a site
  C at(size_t i) const {
    const long x = i % n, y = i / n % n, z = i / (n * n) + z0, h = n / 2; double th = 0, rho = 1;
    switch (sv) {
      case CONF_RAND: return C(draws[2 * i], draws[2 * i + 1]);
      case CONF_AXNOISE: th = mode0 + draws[i] * kcr; break;
      case CONF_SAXNOISE: th = mode0; rho = 1 + draws[i] * kcr; break;
      case CONF_AX1MODE: th = mode0 * std::cos(TPI * (x * kMax + y) / (double)n); break;
      case CONF_PARRES: th = mode0 * std::cos(TPI / n * (x * kx + y * ky + z * kz)); rho = kcr; break;
      case CONF_THETAVEL: return C(0, mode0 * std::sin(TPI / n * (x * kx + y * ky + z * kz)));
      case CONF_VELRAND: return C(0, mode0 * draws[i]);
      case CONF_MINICLUSTER: { double r2 = (x - h) * (x - h) + (y - h) * (y - h) + wrap(z, tz) * wrap(z, tz); th = mode0 * std::exp(-r2 * L * L / (2. * n * n * kcr * kcr)); break; }
      case CONF_MINICLUSTER0: { double r2 = wrap(x, n) * wrap(x, n) + wrap(y, n) * wrap(y, n) + wrap(z, tz) * wrap(z, tz); th = mode0 * std::exp(-r2 * L * L / (2. * n * n * kcr * kcr)); break; }
      case CONF_AXITON: { double r2 = wrap(x, n) * wrap(x, n) + wrap(y, n) * wrap(y, n) + wrap(z, tz) * wrap(z, tz); th = mode0 / (1. + r2 * L * L / (2. * n * n * kcr * kcr)); break; }
      // circular loops: the phase is minus/plus the angle under which a point of the axial half plane sees the two cuts of the ring
      case CONF_STRINGXY: { double zz = z - kz; if (zz > (double)tz / 2) zz -= tz; if (zz < -(double)tz / 2) zz += tz; double r = std::sqrt((double)((x - h) * (x - h) + (y - h) * (y - h))); th = ring(r, zz) * (zz > 0.01 ? 1. : -1.); break; }
      case CONF_STRINGYZ: { double zz = wrap(z, tz), r = std::sqrt((double)(zz * zz + (y - h) * (y - h))); th = ring(r, x - h) * (x > h ? -1. : 1.); break; }
      default: break;
    }
    return C(rho * std::cos(th), rho * std::sin(th));
  }
  double ring(double r, double z) const { const double a = n * (mode0 > 0 ? mode0 : 0.2501), p = (r + a) * (r + a) + z * z, q = (r - a) * (r - a) + z * z; return M_PI * (0.5 + (4 * a * a - p - q) / (4 * std::sqrt(p * q))); }
  // lattice of straight vortices: strings of alternating sign at the centres of the cells of side n/div, summed over the cells the code keeps
  C vortices(size_t x, size_t y) const { double th = 0; const int d = kMax; const double c = (double)n / d; for (int a = -d; a < d + 2; a++) for (int b = -d; b < d + 2; b++) th += ((a + b) % 2 ? -1. : 1.) * std::atan2(y - (b + 0.5) * c, x - (a + 0.5) * c); return C(std::cos(th), std::sin(th)); }
};
template <class T> static void run() {
  const int sv = __sym_param("sv", 0), gen = __sym_param("gen", 0), ranks = __sym_param("ranks", 1), idx = __sym_param("field", 0), kkk = __sym_param("kkk", 0), nz = __sym_param("neg", 0); const bool dbl = sizeof(T) == 8;
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", n / ranks), ng = __sym_param("ng", 1), N = n * n * lz;
  mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; debug = false;
  Cosmos *c = mkCosmos(); Scalar *f = mkScalar(c, n, lz, dbl, FIELD_SAXION, false, ng); f->setFolded(false);
  Ref<T> r; r.n = n; r.lz = lz; r.tz = lz * ranks; r.z0 = lz * mdl_rank; r.sv = (ConfsubType)sv; r.L = c->PhysSize(); r.kMax = __sym_param("kmax", 2);
  r.mode0 = nz ? __sym_real("mode0", -3, 0) : __sym_real("mode0", 0.125, 3); r.kcr = __sym_real("kcr", 0.5, 2); r.kx = r.kMax; r.ky = r.kz = 0; double kk[3];
  if (sv == CONF_STRINGXY) { r.kz = __sym_param("zc4", 5) * 0.25; kCrit = r.kz; r.mode0 = nz ? -1 : __sym_param("r8", 2) * 0.125; }
  if (sv == CONF_STRINGYZ) r.mode0 = nz ? 0 : __sym_param("r8", 2) * 0.125;
  if (kkk) { r.kx = kk[0] = 1 + __sym_concretize(__sym_int("kx", -1, 1)); r.ky = kk[1] = __sym_concretize(__sym_int("ky", -1, 1)); r.kz = kk[2] = __sym_concretize(__sym_int("kz", -1, 1)); mdl_kkk = kk; }
  IcData &ic = c->ICData(); ic.smvarType = (ConfsubType)sv; ic.mode0 = r.mode0; ic.kcr = sv == CONF_STRINGXY ? 1. : r.kcr; ic.kMax = r.kMax; ic.fieldindex = idx == 0 ? FIELD_M : idx == 1 ? FIELD_V : FIELD_M2;
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *t = (T *)(idx == 0 ? f->mStart() : idx == 1 ? f->vCpu() : f->m2Cpu());
  std::vector<C> pre(N); if (sv == CONF_STRWAVE) for (size_t i = 0; i < N; i++) { double a = __sym_real_i("re", i, -2, 2), b = __sym_real_i("im", i, -2, 2); t[2 * i] = a; t[2 * i + 1] = b; pre[i] = C(a, b); }
  auto chk = [&](T *p, size_t i, double re, double im, double sc, const char *what) { __sym_eq((double)p[2 * i], re, sc, (std::string(what) + ", real part").c_str(), (long)i); __sym_eq((double)p[2 * i + 1], im, sc, (std::string(what) + ", imaginary part").c_str(), (long)i); };
  randConf(f, ic);
  for (size_t i = 0; i < N; i++) {
    if (sv == CONF_STRWAVE) { C w = r.vortices(i % n, i / n % n); chk(t, i, pre[i].real() * w.real() - pre[i].imag() * w.imag(), pre[i].real() * w.imag() + pre[i].imag() * w.real(), 1, "vortex lattice times the previous field"); }
    else { C e = r.at(i); chk(t, i, e.real(), e.imag(), 1, "configuration"); }
  }
  if (sv == CONF_RAND || sv == CONF_AXNOISE || sv == CONF_SAXNOISE || sv == CONF_VELRAND) __sym_check(draws.size() == N * (sv == CONF_RAND ? 2 : 1), "one independent draw per random number");
  if (idx == 0) for (size_t i = 0; i < N; i++) chk(v, i, 0, 0, 1, "velocity untouched"); else for (size_t i = 0; i < N; i++) chk(m, i, 0, 0, 1, "field untouched");
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 0)) run<double>(); else run<float>(); }
