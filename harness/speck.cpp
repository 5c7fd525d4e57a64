// Site kernels of the spectral propagators: a kick with a Laplacian handed over in momentum-square units, then a drift.
//   what 0 complex field   1 angle   2 potential part of the fully spectral angle   3 its update of the Fourier modes
#include "saxref.h"
#include <immintrin.h>
#include "propagator/propXeon.h"
#include "propagator/sPropXeon.h"
#include "propagator/sPropThetaXeon.h"
#include "propagator/fsPropThetaXeon.h"
template <class T, int POT> static void sax() {
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), n2 = n * n, N = n2 * lz; const bool dbl = sizeof(T) == 8; const int sc = __sym_param("symc", 0);
  T *m = (T *)aligned_alloc(64, (N + 2 * n2) * 2 * sizeof(T)), *m2 = (T *)aligned_alloc(64, N * 2 * sizeof(T)), *v = (T *)aligned_alloc(64, N * 2 * sizeof(T)); std::vector<T> M((N + 2 * n2) * 2), V(N * 2), L(N * 2);
  symFill(M.data(), M.size(), "m", -2, 2); symFill(V.data(), V.size(), "v", -2, 2); symFill(m2, N * 2, "k2m", -9, 9); memcpy(m, M.data(), M.size() * sizeof(T)); memcpy(v, V.data(), V.size() * sizeof(T));
  SaxP p; memset(&p, 0, sizeof p); p.R = 1.25; p.Rp = 1 / p.R; p.Rpp = 0.1875; p.lambda = 1.5; p.mA2 = 0.75; p.gamma = 0.375; p.deti = -1; p.ood2 = 4; p.dz = 0.125; p.c = 0.75; p.d = 0.5; double fm = -0.375;
  if (sc) { p.lambda = __sym_real("lambda", 0.5, 4); p.mA2 = __sym_real("mA2", 0.1, 4); p.Rpp = __sym_real("Rpp", -2, 2); p.dz = __sym_real("dz", 0.0625, 0.5); p.c = __sym_real("c", -1, 1); p.d = __sym_real("d", -1, 1); fm = __sym_real("fmom", -2, -0.1); p.Rp = __sym_real("Rp", -2, 2); }
  PropParms pp; memset(&pp, 0, sizeof pp); pp.Ng = 1; pp.Lx = n; pp.ood2a = 4; pp.R = p.R; pp.Rp = p.Rp; pp.Rpp = p.Rpp; pp.lambda = p.lambda; pp.massA2 = p.mA2; pp.gamma = p.gamma; pp.fMom1 = fm; pp.dectime = -1; pp.frw = 1;
  sPropKernelXeon<(VqcdType)POT>(m, v, m2, pp, p.dz, p.c, p.d, n2, n2 + N, dbl ? FIELD_DOUBLE : FIELD_SINGLE);
  for (size_t i = 0; i < N * 2; i++) L[i] = m2[i] * (T)fm;
  SaxRef<T> ref{n, lz, p, M.data(), V.data(), L.data()}; ref.p.Ng = 1;
  for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { T nv[2], nm[2]; ref.step(POT, x, y, z, nv, nm); size_t o = ((z * n + y) * n + x) * 2;
    for (int k = 0; k < 2; k++) { __sym_eq(v[o + k], nv[k], 50, k ? "v im" : "v re", o / 2); __sym_eq(m[2 * n2 + o + k], nm[k], 50, k ? "m im" : "m re", o / 2); } }
  for (size_t i = 0; i < 2 * n2; i++) { __sym_eq(m[i], M[i], 1, "front ghost untouched", i); __sym_eq(m[2 * (n2 + N) + i], M[2 * (n2 + N) + i], 1, "back ghost untouched", i); }
}
template <class T> static void theta() {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 2), n2 = n * n, N = n2 * lz, W = n * lz * (n + 2); const bool dbl = sizeof(T) == 8; const int sc = __sym_param("symc", 0);
  T *m = (T *)aligned_alloc(64, (N + 2 * n2) * sizeof(T)), *m2 = (T *)aligned_alloc(64, W * sizeof(T)), *v = (T *)aligned_alloc(64, N * sizeof(T)); std::vector<T> M(N + 2 * n2), V(N);
  symFill(M.data(), M.size(), "m", -3.9, 3.9); symFill(V.data(), N, "v", -2, 2); symFill(m2, W, "k2m", -9, 9); memcpy(m, M.data(), M.size() * sizeof(T)); memcpy(v, V.data(), N * sizeof(T));
  double R = 1.25, Rpp = 0.1875, mA2 = 0.75, dz = 0.125, c = 0.75, d = 0.5, fm = -0.375; if (sc) { mA2 = __sym_real("mA2", 0.1, 4); Rpp = __sym_real("Rpp", -2, 2); dz = __sym_real("dz", 0.0625, 0.5); c = __sym_real("c", 0.1, 1); d = __sym_real("d", 0.1, 1); fm = __sym_real("fmom", -2, -0.1); }
  sPropThetaKernelXeon(m, v, m2, &R, dz, c, d, mA2, fm, Rpp, n, n2, n2 + N, dbl ? FIELD_DOUBLE : FIELD_SINGLE);
  for (size_t i = 0; i < N; i++) { T u = M[n2 + i], a = m2[i / n * (n + 2) + i % n] * (T)fm + (T)Rpp * u - (T)(mA2 * R * R * R) * std::sin(u / (T)R), w = V[i] + a * (T)(dz * c); __sym_eq(v[i], w, 50, "velocity", i); __sym_eq(m[n2 + i], u + w * (T)(dz * d), 50, "field", i); }
  for (size_t i = 0; i < n2; i++) { __sym_eq(m[i], M[i], 1, "front ghost untouched", i); __sym_eq(m[n2 + N + i], M[n2 + N + i], 1, "back ghost untouched", i); }
}
template <class T> static void modes() {
  const int what = __sym_param("what", 2); const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 4), nr = __sym_param("ranks", 1), W = n * lz * (n + 2); const bool dbl = sizeof(T) == 8; mdl_size = nr; mdl_rank = __sym_param("rank", 0);
  T *m = (T *)aligned_alloc(64, W * sizeof(T)), *m2 = (T *)aligned_alloc(64, W * sizeof(T)), *v = (T *)aligned_alloc(64, W * sizeof(T)); std::vector<T> M(W), V(W), A(W);
  symFill(m, W, "m", -2, 2); symFill(v, W, "v", -2, 2); symFill(m2, W, "a", -2, 2); M.assign(m, m + W); V.assign(v, v + W); A.assign(m2, m2 + W);
  PropParms pp; memset(&pp, 0, sizeof pp); pp.Lx = n; pp.Tz = lz * nr; pp.R = 1.25; pp.Rpp = 0.1875; pp.massA2 = 0.75; pp.fMom1 = 1.5; const double dz = 0.125; double c = 0.75, d = 0.5; if (__sym_param("symc", 0)) c = __sym_real("c", -1, 1);
  if (what == 2) { fsAccKernelThetaXeon<V_QCD1_PQ1>(m2, pp, 0, W, dbl ? FIELD_DOUBLE : FIELD_SINGLE); for (size_t i = 0; i < W; i++) __sym_eq(m2[i], (T)pp.Rpp * A[i] - (T)(pp.massA2 * pp.R * pp.R * pp.R) * std::sin(A[i] / (T)pp.R), 10, "acceleration without the Laplacian", i); return; }
  fsPropKernelThetaXeon<V_QCD1_PQ1>(m, v, m2, pp, dz, c, d, dbl ? FIELD_DOUBLE : FIELD_SINGLE);
  for (size_t i = 0; i < W / 2; i++) { long kx = i % (n / 2 + 1), kz = i / (n / 2 + 1) % (lz * nr), ky = i / (n / 2 + 1) / (lz * nr) + n / nr * mdl_rank; if (ky > (long)n / 2) ky -= n; if (kz > (long)(lz * nr) / 2) kz -= lz * nr;
    const double w = pp.fMom1 * sqrt((double)(kx * kx + ky * ky + kz * kz)), C = cos(w * dz * d), S = w > 0 ? sin(w * dz * d) / w : dz * d;
    for (int k = 0; k < 2; k++) { size_t o = 2 * i + k; T u = V[o] + A[o] * (T)(dz * c); __sym_eq(m[o], M[o] * (T)C + u * (T)S, 10, "mode after the kick and the free flight", o); __sym_eq(v[o], u * (T)C - M[o] * (T)(w * w * S), 10, "mode velocity after the kick and the free flight", o); } }
}
template <int POT> static void pick() { if (__sym_param("dbl", 0)) sax<double, POT>(); else sax<float, POT>(); }
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  switch (__sym_param("what", 0)) {
    case 0: switch (__sym_param("pot", 0)) {
#define P(i, x) case i: pick<(int)(x)>(); break;
      P(0, V_QCD1_PQ1) P(1, V_QCD0_PQ2) P(2, V_QCDV_PQ1) P(3, V_QCD2_PQ1) P(4, V_QCDC_PQ1) P(5, V_QCD1_PQ1_DRHO) P(6, V_QCDC_PQ2_DALL) P(7, V_QCD0_PQ1_RHO) P(8, V_QCD2_PQ1_DALL) P(9, V_QCDV_PQ2_DRHO)
    } break;
    case 1: if (__sym_param("dbl", 0)) theta<double>(); else theta<float>(); break;
    default: if (__sym_param("dbl", 0)) modes<double>(); else modes<float>();
  }
  __sym_reach("end");
}
