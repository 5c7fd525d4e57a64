// Axion (angle) propagation kernels against the equation of motion, every lattice site.
//   what 0: full kernel m,v -> m2,v     1: drift only (m += v dz d)
#include "common.h"
#include <immintrin.h>
#include "propagator/propThetaXeon.h"
#undef opCode
static double MOD(double x, double md) { __m256d a = _mm256_set1_pd(x), b = _mm256_set1_pd(md); return _mm256_mod_pd(a, b)[0]; }
static float MOD(float x, float md) { __m256 a = _mm256_set1_ps(x), b = _mm256_set1_ps(md); return _mm256_mod_ps(a, b)[0]; }
template <class T> static void run() {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1); const bool dbl = sizeof(T) == 8, wm = __sym_param("mod", 0);
  const size_t sh = 32 / sizeof(T), n2 = n * n, E = n2 * (lz + 2 * ng);
  const int sc = __sym_param("symc", 0), what = __sym_param("what", 0);
  static const int POTS[] = {V_QCD0, V_QCDC, V_QCDL, V_QCD1, V_QCDV, V_NONE};
  const int pot = POTS[__sym_param("pot", 1)];
  T *m = (T *)aligned_alloc(64, E * sizeof(T)), *m2 = (T *)aligned_alloc(64, E * sizeof(T)), *v = (T *)aligned_alloc(64, n2 * lz * sizeof(T));
  std::vector<T> M(E), V(n2 * lz);
  const double pi = 3.14159265358979323846;
  double R = 1.25, Rpp = 0.1875, mA2 = 0.75, ood2 = 4, dz = 0.125, c = 0.75, d = 0.5;
  if (sc >= 1) { mA2 = __sym_real("mA2", 0.1, 4); Rpp = __sym_real("Rpp", -2, 2); ood2 = __sym_real("ood2", 1, 8); dz = __sym_real("dz", 0.0625, 0.5); c = __sym_real("c", 0.1, 1); d = __sym_real("d", 0.1, 1); }
  if (sc >= 2) R = __sym_real("R", 0.5, 2);
  symFill(M.data(), E, "m", -3.9, 3.9); symFill(V.data(), n2 * lz, "v", -2, 2);
  for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    size_t o = flat(n, sh, true, x, y, z), i = flat(n, sh, false, x, y, z); m[o] = M[i]; m2[o] = 77; if (z < lz) v[o] = V[i]; }
  static const double C[4][4] = {{1}, {4. / 3, -1. / 12}, {1.5, -.15, 1. / 90}, {1.6, -.2, 8. / 315, -1. / 560}};
  double PC[4]; for (size_t q = 0; q < ng; q++) PC[q] = C[ng - 1][q];
  const size_t a = __sym_param("v0", 0), b = __sym_param("v1", lz), bx = 1 << 20, by = __sym_param("by", 2), bz = __sym_param("bz", 2);
  auto at = [&](long x, long y, long z) -> T { x = (x + 4 * (long)n) % (long)n; y = (y + 4 * (long)n) % (long)n; return M[flat(n, sh, false, x, y, z + ng)]; };
  if (what == 0) {
    PropParms pp; memset(&pp, 0, sizeof pp); pp.Ng = ng; pp.Lx = n; pp.PC = PC; pp.ood2a = ood2; pp.R = R; pp.Rpp = Rpp; pp.massA2 = mA2; pp.beta = 0;
    propThetaKernelXeon(m, v, m2, pp, dz, c, d, n2 * (a + ng), n2 * (b + ng), dbl ? FIELD_DOUBLE : FIELD_SINGLE, bx, by, bz, wm, (VqcdType)pot);
  } else updateMThetaXeon(m, v, dz, d, n, n2 * ng, n2 * (lz + ng), dbl ? FIELD_DOUBLE : FIELD_SINGLE, bx, by, bz);
  const T P = (T)(2 * pi * R);
  for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    size_t o = flat(n, sh, true, x, y, z), o2 = flat(n, sh, true, x, y, z + ng), id = flat(n, sh, false, x, y, z);
    T u = at(x, y, z), w = V[id];
    if (what == 1) { __sym_eq(m[o2], u + w * (T)(dz * d), 10, "drift", id); __sym_eq(v[o], w, 10, "velocity untouched", id); continue; }
    if (z < a || z >= b) { __sym_eq(v[o], w, 10, "velocity outside the range untouched", id); __sym_eq(m2[o2], 77, 10, "m2 outside the range untouched", id); continue; }
    T s = 0;
    for (long q = 1; q <= (long)ng; q++) {
      T t = 0, nb[6] = {at(x + q, y, z), at(x - q, y, z), at(x, y, z + q), at(x, y, z - q), at(x, y + q, z), at(x, y - q, z)};
      for (int k = 0; k < 6; k++) t += wm ? MOD((T)(nb[k] - u), P) : nb[k] - u;
      s += t * (T)(PC[q - 1] * ood2);
    }
    T acc = s + (T)Rpp * u; T zq = mA2 * R * R * R;
    if (pot == V_QCDL) acc -= zq * u / (T)R; else if (pot != V_QCD0 && pot != V_NONE) acc -= zq * std::sin(u / (T)R);
    T nv = w + acc * (T)(dz * c), nm = u + nv * (T)(dz * d); if (wm) nm = MOD((T)(u + v[o] * (T)(dz * d)), P);   // wrapped drift with the velocity just checked
    __sym_eq(v[o], nv, 30, "v", id); __sym_eq(m2[o2], nm, 30, "m", id);
  }
  if (what == 0) for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t o = flat(n, sh, true, x, y, z), i = flat(n, sh, false, x, y, z); __sym_eq(m[o], M[i], 10, "input field untouched", i); }
  for (size_t i = 0; i < n2 * ng; i++) {
    T *q = what == 0 ? m2 : m; size_t y = i / n % n, x = i % n, z = i / n2, z2 = z + lz + ng;
    __sym_eq(q[flat(n, sh, true, x, y, z)], what == 0 ? (T)77 : M[flat(n, sh, false, x, y, z)], 10, "front ghost untouched", i); __sym_eq(q[flat(n, sh, true, x, y, z2)], what == 0 ? (T)77 : M[flat(n, sh, false, x, y, z2)], 10, "back ghost untouched", i); }
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  if (__sym_param("dbl", 0)) run<double>(); else run<float>();
}
