// Starting configurations end to end: what genConf leaves in field and velocity.
#include "common.h"
#include "gen/genConf.h"
#include "comms/comms.h"
namespace AxionFFT { extern char outfftName[]; }
extern "C" { double mdl_draw(double lo, double hi); extern double *mdl_kkk; }
double *mdl_kkk = nullptr;
extern "C" const double *mdl_others; extern "C" int mdl_mpi_record;
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
static std::vector<double> un, ga, dr;
double mdl_draw(double lo, double hi) { auto &v = lo < -2 ? ga : lo < 0 ? dr : un; double d = __sym_real_i(lo < -2 ? "amp" : lo < 0 ? "draw" : "phase", v.size(), lo, hi); v.push_back(d); return d; }
static size_t RN, RZ, RT; static long ns; static int DBL, ffts; static std::vector<std::vector<double>> outv; static std::vector<void *> where;
struct W { int mt; double kc; long km; bool vel; }; static std::vector<W> want; static std::vector<size_t> drawn;
template <class T> static int hook(int kind, int sign, void *in, void *out) {
  const size_t N = RN * RN * RZ; T *p = (T *)in; const W w = want[ffts]; size_t q = drawn[ffts];
  __sym_check(kind == 0 && sign > 0 && in == out, "one complex backward transform in place");
  for (size_t i = 0; i < N; i++) {
    long x = i % RN, z = i / RN % RT, y = i / RN / RT + RN / mdl_size * mdl_rank; if (x > (long)RN / 2) x -= RN; if (y > (long)RN / 2) y -= RN; if (z > (long)RT / 2) z -= RT; const long k2 = x * x + y * y + z * z; const double k = std::sqrt((double)k2); double a = 0, b = 0, f = 1;
    if (k2 <= 3 * w.km * w.km) {
      if (q >= un.size()) { __sym_check(0, "every mode below the cut has a random phase"); break; }
      if (w.mt == MOM_MSIN || w.mt == MOM_MVSINCOS) { f = k2 ? std::sin(k / w.kc) * w.kc / k : 1; if (w.vel) f = k2 ? std::cos(k / w.kc) - f : 0; } else if (w.mt == MOM_MEXP) f = std::exp(-k / w.kc); else if (w.mt == MOM_MEXP2 || w.mt == MOM_KCOLE) f = std::exp(-k2 / (w.kc * w.kc)); else if (w.mt == MOM_COLE) f = std::exp(-4. * k2 / (double)(RN * RN)) / std::pow(1 + k2 / (w.kc * w.kc), 1.5);
      if (w.mt == MOM_KCOLE && !k2) { q++; continue; } // the zero mode is the one prescribed: C19 mom
      a = f * ga[q] * std::cos(2 * M_PI * un[q]); b = f * ga[q] * std::sin(2 * M_PI * un[q]); q++;
    }
    __sym_eq((double)p[2 * i], a, 4, "mode handed to the transform, real part", (long)i); __sym_eq((double)p[2 * i + 1], b, 4, "mode handed to the transform, imaginary part", (long)i);
  }
  std::vector<double> o(2 * N); T *r = (T *)out; char nm[16]; snprintf(nm, 16, "out%d", ffts);
  for (size_t i = 0; i < 2 * N; i++) { o[i] = ns < 0 || (long)i < 2 * ns ? __sym_real_i(nm, i, i % 2 ? -2 : 0.25, 2) : i % 2 ? -0.5 : 1.25; r[i] = (T)o[i]; }
  outv.push_back(o); where.push_back(out); ffts++; return 1;
}
static double preAt, preR; static int preps; static void (*prep_look)(Scalar *);
void prepropa2(Scalar *f) { preps++; __sym_eq(*f->zV(), preAt, 1, "time at which the evolution before the start begins", -1); __sym_eq(*f->RV(), preR, 1, "scale factor then", -1); __sym_check(!f->Folded(), "handed over unfolded"); *f->zV() = f->BckGnd()->ICData().zi; f->updateR(); }
template <class T> static void run() {
  const int type = __sym_param("type", 0), sv = __sym_param("sv", 0), ranks = __sym_param("ranks", 1), mink = __sym_param("mink", 0), kick = __sym_param("kick", 0), frw = __sym_param("frw", 1), xv = __sym_param("extrav", 0), mt = __sym_param("mt", 8), si = __sym_param("siter", 0); DBL = sizeof(T) == 8;
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", n / ranks), ng = __sym_param("ng", 1), N = n * n * lz; ns = __sym_param("ns", -1);
  RN = n; RZ = lz; RT = lz * ranks; mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; debug = false; strcpy(AxionFFT::outfftName, "/dev/null");
  Cosmos *c = mkCosmos(); c->SetFrw(frw); c->SetMink(mink); const double z = __sym_param("z4", 5) * 0.25, L = c->PhysSize(); c->ICData().zi = z;
  IcData &ic = c->ICData(); Scalar *f = mkScalar(c, n, lz, DBL, FIELD_SAXION, false, ng); T *m = (T *)f->mStart(), *v = (T *)f->vCpu();
  const double kc = type == 3 || type == 4 ? 2. : (type == 2 || type == 5) && si ? 1.5 : __sym_real("kcr", 1, 2), mo = __sym_real("mode0", 0.125, 3), ka = kick ? __sym_real("kick", -0.5, 0.5) : 0; const long km = __sym_param("kmax", 1);
  ic.smvarType = (ConfsubType)sv; ic.mode0 = mo; ic.kcr = kc; ic.kMax = km; ic.kickalpha = ka; ic.normcore = false; const int pre = __sym_param("prep", 0); const double coe = 2.5; ic.preprop = pre; ic.prepcoe = coe; ic.prelZ2e = 2; ic.siter = si; ic.alpha = 0.25; ic.mocoty = (MomConfType)mt; ic.extrav = xv ? 0.5 : 0; ic.logi = 1.5; ic.randommom = true; mode0 = 10.;
  static const ConfType CT[] = {CONF_SMOOTH, CONF_KMAX, CONF_VILGOR, CONF_COLE, CONF_TKACHEV, CONF_LOLA}; ic.cType = CT[type];
  const double R = mink ? 1. : std::pow(z, (double)frw), Rp = mink ? 0. : frw * std::pow(z, frw - 1.), D = L / n; const long kcut = km > (long)n / 2 - 1 ? n / 2 - 1 : km, kall = n / 2 - 1;
  auto ncrit = [&](double xi) { double q = 6 * xi * D * D / (z * z); return n * std::sqrt(q / 4.7 * std::pow(1 - std::pow(q, 1.5), -1 / 1.5)); };
  preps = 0; preAt = z / coe; preR = mink ? 1. : std::pow(z / coe, (double)frw); const double lg = pre && type == 5 ? std::log(std::sqrt(2 * c->Lambda() * std::pow(R / preR, 2.)) * preR * preR) : 1.5;
  const double xi = (249.48 + 38.8431 * lg + 1086.06 * lg * lg) / (21775.3 + 3665.11 * lg) * (pre && type == 5 ? coe * coe : 1) * ((type == 2 || type == 5) && si == 1 ? kc : 1);
  switch (type) { case 1: want = {{mt, kc, kcut, false}}; break; case 2: want = {{mt, ncrit(xi), kall, false}}; break; case 3: want = {{MOM_COLE, L / (2 * M_PI * z * kc), kall, false}, {MOM_KCOLE, L / (2 * M_PI * z * kc), kall, false}}; break; case 4: want = {{MOM_MVSINCOS, L / (2 * M_PI * z), kcut, false}, {MOM_MVSINCOS, L / (2 * M_PI * z), kcut, true}}; break; case 5: want = {{MOM_MEXP2, ncrit(xi), kall, false}}; break; }
  size_t per = 0; { const long k = want.size() ? want[0].km : 0; for (size_t i = 0; i < N; i++) { long x = i % n, zz = i / n % RT, y = i / n / RT + n / ranks * mdl_rank; if (x > (long)n / 2) x -= n; if (y > (long)n / 2) y -= n; if (zz > (long)RT / 2) zz -= RT; per += x * x + y * y + zz * zz <= 3 * k * k; } }
  const bool five0 = type == 5 && km == 0; drawn = {0, type == 3 ? per : 0}; mdl_fft_hook = hook<T>; double oth[2] = {0, 0}; if (ranks > 1) { oth[0] = __sym_real("others0", 4, 9); oth[1] = __sym_real("others1", 4, 9); mdl_others = oth; }
  mdl_mpi_record = ranks > 1; genConf(c, f);
  auto chk = [&](T *p, size_t i, double re, double im, const char *w) { __sym_eq((double)p[2 * i], re, 1, (std::string(w) + ", real part").c_str(), (long)i); __sym_eq((double)p[2 * i + 1], im, 1, (std::string(w) + ", imaginary part").c_str(), (long)i); };
  __sym_check(!f->Folded(), "the field is marked unfolded"); __sym_check(ffts == (type == 0 || five0 ? 0 : type == 4 ? 2 : type == 3 ? 1 + xv : 1), "number of transforms"); __sym_check(*f->zV() == z, "the clock does not move"); __sym_check(preps == pre, "evolved before the start if asked");
  double mean[2] = {0, 0}, t2 = 0; for (int k = 0; k < (int)outv.size() && type == 3; k++) { for (size_t i = 0; i < N; i++) mean[k] += std::sqrt(outv[k][2 * i] * outv[k][2 * i] + outv[k][2 * i + 1] * outv[k][2 * i + 1]); mean[k] = (mean[k] + (ranks > 1 ? oth[0] : 0)) / (double)(N * ranks); }
  if (type == 4) { for (size_t i = 0; i < N; i++) t2 += outv[0][2 * i] * outv[0][2 * i]; t2 = (t2 + (ranks > 1 ? oth[0] : 0)) / (double)(N * ranks); }
  // the field before the normalisation, smoothed over the whole lattice if asked
  std::vector<double> A(N), B(N); for (size_t i = 0; i < N; i++) {
    double &a = A[i], &b = B[i];
    if (type == 0) switch (sv) {
      case CONF_RAND: a = dr[2 * i]; b = dr[2 * i + 1]; break;
      case CONF_AXNOISE: a = std::cos(mo + dr[i] * kc); b = std::sin(mo + dr[i] * kc); break;
      case CONF_SAXNOISE: a = std::cos(mo) * (1 + dr[i] * kc); b = std::sin(mo) * (1 + dr[i] * kc); break;
      default: { double t = mo * std::cos(2 * M_PI * km * (double)(i % n) / n); a = kc * std::cos(t); b = kc * std::sin(t); }
    } else if (five0) { a = dr[2 * i]; b = dr[2 * i + 1]; } else { a = outv[0][2 * i]; b = outv[0][2 * i + 1]; }
  }
  const double al = five0 ? 0.143 : 0.25; const int its = five0 ? (int)(0.8 / std::min(1., 6 * xi * D * D / (z * z))) : type == 0 ? si : 0;
  for (int q = 0; q < its; q++) for (auto *F : {&A, &B}) { std::vector<double> o(N); for (size_t i = 0; i < N; i++) { const long x = i % n, y = i / n % n, zz = i / n / n; auto at = [&](long p, long q, long r) { return (*F)[((r + lz) % lz * n + (q + n) % n) * n + (p + n) % n]; };
      o[i] = al * at(x, y, zz) + (1 - al) / 6 * (at(x + 1, y, zz) + at(x - 1, y, zz) + at(x, y + 1, zz) + at(x, y - 1, zz) + at(x, y, zz + 1) + at(x, y, zz - 1)); } *F = o; }
  for (size_t i = 0; i < N; i++) {
    double a = A[i], b = B[i], w;
    if (type == 4) { double q = M_PI / std::sqrt(3 * t2 / kc), th = q * a, tp = q / z * outv[1][2 * i]; double e = R * std::cos(th), g = R * std::sin(th); chk(m, i, e, g, "field on the circle of radius R"); chk(v, i, e * Rp / R - g * tp, g * Rp / R + e * tp, "velocity of a field of modulus R and angle theta"); continue; }
    if (type == 3) w = 1 / mean[0]; else if (type == 0 && (sv == CONF_SAXNOISE || sv == CONF_PARRES)) w = 1; else w = 1 / std::sqrt(a * a + b * b);
    if (pre) { if (type == 0) w = 1; chk(m, i, a * w, b * w, "field handed to the evolution before the start"); continue; }
    a *= w; b *= w; double va = mink ? 0 : Rp * a * (1 + ka), vb = mink ? 0 : Rp * b * (1 + ka); if (type == 3 && xv) { va += 0.5 / mean[1] * outv[1][2 * i]; vb += 0.5 / mean[1] * outv[1][2 * i + 1]; }
    chk(m, i, R * a, R * b, "conformal field"); chk(v, i, va, vb, "conformal velocity of a field at rest");
  }
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 0)) run<double>(); else run<float>(); }
