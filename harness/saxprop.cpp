// Saxion propagation kernel (m,v) -> (m2,v) against the equations of motion, every lattice site.
#include "saxref.h"
#include "propagator/propXeon.h"
template <class T, int POT> static void run() {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1); const bool dbl = sizeof(T) == 8;
  const size_t sh = 32 / (2 * sizeof(T)), n2 = n * n, E = n2 * (lz + 2 * ng);
  const int sc = __sym_param("symc", 0);
  T *m = (T *)aligned_alloc(64, E * 2 * sizeof(T)), *m2 = (T *)aligned_alloc(64, E * 2 * sizeof(T)), *v = (T *)aligned_alloc(64, n2 * lz * 2 * sizeof(T));
  std::vector<T> M(E * 2), V(n2 * lz * 2);
  symFill(M.data(), E * 2, "m", -2, 2); symFill(V.data(), n2 * lz * 2, "v", -2, 2);
  for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (int k = 0; k < 2; k++) {
    m[flat(n, sh, true, x, y, z) * 2 + k] = M[flat(n, sh, false, x, y, z) * 2 + k]; m2[flat(n, sh, true, x, y, z) * 2 + k] = 77;
    if (z < lz) v[flat(n, sh, true, x, y, z) * 2 + k] = V[flat(n, sh, false, x, y, z) * 2 + k]; }
  static const double C[4][4] = {{1}, {4. / 3, -1. / 12}, {1.5, -.15, 1. / 90}, {1.6, -.2, 8. / 315, -1. / 560}};
  double PC[4]; for (size_t q = 0; q < ng; q++) PC[q] = C[ng - 1][q];
  SaxP p; p.PC = PC; p.Ng = ng;
  p.R = 1.25; p.Rp = 0.5; p.Rpp = 0.1875; p.lambda = 1.5; p.mA2 = 0.75; p.gamma = 0.375; p.deti = __sym_param("deti", 0) ? 1.5 : -1; p.ood2 = 4; p.dz = 0.125; p.c = 0.75; p.d = 0.5;
  if (sc >= 1) { p.lambda = __sym_real("lambda", 0.5, 4); p.mA2 = __sym_real("mA2", 0.1, 4); p.Rpp = __sym_real("Rpp", -2, 2); p.Rp = __sym_real("Rp", -2, 2); p.ood2 = __sym_real("ood2", 1, 8); p.dz = __sym_real("dz", 0.0625, 0.5); p.c = __sym_real("c", -1, 1); p.d = __sym_real("d", -1, 1); }
  if (sc >= 2) { p.R = __sym_real("R", 0.5, 2); }
  PropParms pp; memset(&pp, 0, sizeof pp);
  pp.Ng = ng; pp.Lx = n; pp.PC = PC; pp.ood2a = p.ood2; pp.R = p.R; pp.Rp = p.Rp; pp.Rpp = p.Rpp; pp.lambda = p.lambda; pp.massA2 = p.mA2; pp.gamma = p.gamma; pp.dectime = p.deti;
  const size_t a = __sym_param("v0", 0), b = __sym_param("v1", lz);     // slice range
  propagateKernelXeon<(VqcdType)POT>(m, v, m2, pp, p.dz, p.c, p.d, n2 * (a + ng), n2 * (b + ng), dbl ? FIELD_DOUBLE : FIELD_SINGLE, __sym_param("bx", 1 << 20), __sym_param("by", 2), __sym_param("bz", 2));
  SaxRef<T> ref{n, lz, p, M.data(), V.data()};
  // spread: cover all sites with cheap comparison
  for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    size_t o = flat(n, sh, true, x, y, z) * 2, o2 = flat(n, sh, true, x, y, z + ng) * 2, id = flat(n, sh, false, x, y, z);
    if (z < a || z >= b) { for (int k = 0; k < 2; k++) { __sym_eq(v[o + k], V[id * 2 + k], 1, "velocity outside the range untouched", id); __sym_eq(m2[o2 + k], 77, 1, "m2 outside the range untouched", id); } continue; }
    T nv[2], nm[2]; ref.step(POT, x, y, z, nv, nm);
    for (int k = 0; k < 2; k++) { __sym_eq(v[o + k], nv[k], 50, k ? "v im" : "v re", id); __sym_eq(m2[o2 + k], nm[k], 50, k ? "m im" : "m re", id); }
  }
  for (size_t i = 0; i < E * 2; i++) { size_t y = i / 2 / n % n, x = i / 2 % n, z = i / 2 / n2; __sym_eq(m[flat(n, sh, true, x, y, z) * 2 + i % 2], M[i], 1, "input field untouched", i); }
  for (size_t i = 0; i < n2 * ng * 2; i++) { __sym_eq(m2[i], 77, 1, "m2 front ghost untouched", i); __sym_eq(m2[(lz + ng) * n2 * 2 + i], 77, 1, "m2 back ghost untouched", i); }
  __sym_reach("end");
}
template <int POT> static void pick() { if (__sym_param("dbl", 0)) run<double, POT>(); else run<float, POT>(); }
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  switch (__sym_param("pot", 0)) {
#define P(i, x) case i: pick<(int)(x)>(); break;
    P(0, V_QCD1_PQ1) P(1, V_QCD0_PQ2) P(2, V_QCDV_PQ3) P(3, V_QCD2_PQ1) P(4, V_QCDC_PQ1) P(5, V_QCD1_PQ1_THETA) P(6, V_QCD1_PQ1_RHO)
    P(7, V_QCD1_PQ1_DRHO) P(8, V_QCDC_PQ2_DALL) P(9, V_QCD2_PQ3_DRHO_RHO) P(10, V_QCDV_PQ1_DALL_THETA) P(11, V_QCD0_PQ1)
  }
}
