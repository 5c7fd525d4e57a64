// 8-bit logarithmic density-contrast maps built from the energy map.
#include "common.h"
#include <complex>
#include <functional>
#include "energy/dContrast.h"
#include "reducer/reducer.h"
#include "io/readWrite.h"
static std::vector<std::vector<char>> MAPS; static std::vector<double> MX, MN; static std::vector<int> KIND;
void writeDensity(Scalar *a, MapType t, double eMax, double eMin) { char *s = (char *)a->sData(); MAPS.push_back(std::vector<char>(s, s + a->rSize())); MX.push_back(eMax); MN.push_back(eMin); KIND.push_back(t); }
Scalar *reduceField(Scalar *f, size_t, size_t, FieldIndex, std::function<std::complex<float>(int, int, int, std::complex<float>)>, bool) { __builtin_trap(); return f; }
Scalar *reduceField(Scalar *f, size_t, size_t, FieldIndex, std::function<std::complex<double>(int, int, int, std::complex<double>)>, bool) { __builtin_trap(); return f; }
template <class T> static void run() {
  const size_t n = __sym_param("n", 4), lz = 2, ng = __sym_param("ng", 1), N = n * n * lz; const int have = __sym_param("have", 1), sax = __sym_param("sax", 1), rho = __sym_param("rho", 1), low = __sym_param("low", 0);
  Cosmos *c = mkCosmos(); c->SetIndi3(1.5); c->SetQcdPot(V_QCDC_PQ1); c->SetPhysSize(n * 0.5);
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, sax ? FIELD_SAXION : FIELD_AXION, false, ng);
  f->setFolded(true);
  T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *m2 = (T *)f->m2Cpu(); const int w = sax ? 2 : 1;
  for (size_t i = 0; i < N * w; i++) { m[i] = (T)(0.5 + (i * 37 % 64) / 64.0); v[i] = (T)((i * 29 % 32) / 16.0 - 1); }
  if (have) {
    for (int hh = 0; hh < 2; hh++) for (size_t i = 0; i < N; i++) { T *p = m2 + (hh ? f->eSize() : 0); p[i] = i == 1 || i == N - 2 ? (T)__sym_real_i(hh ? "r" : "e", i, low ? 0.0005 : hh ? 1.25 : 0.75, 4) : (T)((i * 7 % 16 + 2) * (hh ? 0.5 : 0.25)); if (low && i == 3) p[i] = (T)0.0002; }
    f->setM2(M2_ENERGY);
  }
  cDensityMap(f, 0, rho);
  const size_t nm = sax && rho ? 2 : 1;
  __sym_check(MAPS.size() == nm, "number of maps");
  for (size_t q = 0; q < nm && q < MAPS.size(); q++) {
    T *p = m2 + (q ? f->eSize() : 0);
    __sym_check(KIND[q] == (q ? MAP_RHO : MAP_THETA), "map kind");
    T mx = p[0], mn = p[0]; for (size_t i = 0; i < N; i++) { mx = p[i] > mx ? p[i] : mx; mn = p[i] < mn ? p[i] : mn; }
    __sym_eq(MX[q], mx, 1, "largest density", q); __sym_eq(MN[q], mn, 1, "smallest density", q);
    T cMin = mn <= (T)0.001 ? (T)std::log(0.001) : (T)std::log(mn), cMax = std::log(mx); double sc = 255. / (cMax - cMin);
    for (size_t i = 0; i < N; i++) { int want = p[i] <= 0.001 ? 0 : (int)std::round((std::log(p[i]) - cMin) * sc); __sym_check((unsigned char)MAPS[q][i] == (unsigned char)want, "map value"); }
  }
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  if (__sym_param("dbl", 0)) run<double>(); else run<float>();
}
