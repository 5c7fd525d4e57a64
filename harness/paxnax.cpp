// Non-relativistic axion kernels (real pair: paxion; complex: naxion) and the gravity source kernel.
//  what 0 paxion Laplacian kick, 1 paxion self-interaction rotation, 2 same with gravity, 3/4 density (with / without ghosts),
//       5 mean subtraction, 6 naxion step, 7 potential relaxation from an interior-constant start
#include "common.h"
#include <immintrin.h>
#include "propagator/propPaxXeon.h"
#include "propagator/propNaxXeon.h"
#include "gravity/gravityPaxionXeon.h"
static const double C[4][4] = {{1}, {4. / 3, -1. / 12}, {1.5, -.15, 1. / 90}, {1.6, -.2, 8. / 315, -1. / 560}};
template <class T> static void run() {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1); const bool dbl = sizeof(T) == 8;
  const int sc = __sym_param("symc", 0), what = __sym_param("what", 0); const bool nax = what == 6; const size_t nc = nax ? 2 : 1;
  const size_t sh = 32 / sizeof(T) / nc, n2 = n * n, E = n2 * (lz + 2 * ng);
  T *A[4]; std::vector<T> N[4]; const char *nm[4] = {"m", "v", "m2", "mh"};
  for (int k = 0; k < 4; k++) { A[k] = (T *)aligned_alloc(64, E * nc * sizeof(T)); N[k].resize(E * nc); for (size_t i = 0; i < E * nc; i++) N[k][i] = k == 2 && nax ? (T)77 : (T)__sym_real_i(nm[k], i, -2, 2); }
  auto put = [&](size_t i, size_t c) { size_t x = i % n, y = i / n % n, z = i / n2; return flat(n, sh, true, x, y, z) * nc + c; };
  for (int k = 0; k < 4; k++) for (size_t i = 0; i < E; i++) for (size_t c = 0; c < nc; c++) A[k][put(i, c)] = N[k][i * nc + c];
  double PC[4]; for (size_t q = 0; q < ng; q++) PC[q] = C[ng - 1][q];
  PropParms pp; memset(&pp, 0, sizeof pp);
  double ct = 3, dz = 0.125, R = 1.25, mA = 1.5, ood2 = 4, beta = -0.5, grav = 0.25, c = 0.75, d = 0.5; int sgn = __sym_param("sign", 1);
  if (sc) { ct = __sym_real("ct", 1, 4); dz = __sym_real("dz", 0.0625, 0.5); R = __sym_real("R", 0.5, 2); mA = __sym_real("mA", 0.5, 4); ood2 = __sym_real("ood2", 1, 8); beta = __sym_real("beta", -1, 1); grav = __sym_real("grav", 0, 1); c = __sym_real("c", 0.1, 1); d = __sym_real("d", 0.1, 1); }
  pp.Ng = ng; pp.Lx = n; pp.PC = PC; pp.ood2a = ood2; pp.R = R; pp.massA = mA; pp.ct = ct; pp.beta = beta; pp.grav = grav; pp.frw = 1; pp.n = __sym_param("nexp", 0); pp.sign = sgn; if (what == 5) pp.beta = beta;
  const size_t a = __sym_param("v0", 0), b = __sym_param("v1", lz), Vo = n2 * (a + ng), Vf = n2 * (b + ng), bx = 1 << 20, by = __sym_param("by", 1), bz = __sym_param("bz", 2); const FieldPrecision P = dbl ? FIELD_DOUBLE : FIELD_SINGLE;
  T *m = A[0], *v = A[1], *m2 = A[2], *mh = A[3];
  auto M = [&](int k, long x, long y, long z, size_t cc) -> T { x = (x + 4 * (long)n) % (long)n; y = (y + 4 * (long)n) % (long)n; return N[k][((z + ng) * n2 + y * n + x) * nc + cc]; };
  auto lap = [&](int k, long x, long y, long z, size_t cc) { T s = 0; for (long q = 1; q <= (long)ng; q++) s += (T)PC[q - 1] * (M(k, x + q, y, z, cc) + M(k, x - q, y, z, cc) + M(k, x, y + q, z, cc) + M(k, x, y - q, z, cc) + M(k, x, y, z + q, cc) + M(k, x, y, z - q, cc) - 6 * M(k, x, y, z, cc)); return s; };
  double srcw = 0; T dlt = 0; for (size_t q = 0; q < ng; q++) srcw += PC[q] / 6;
  if (what == 7) { pp.beta = -0.5; if (__sym_param("src", 0)) dlt = __sym_real("dlt", -1, 1);
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t i = ((z + ng) * n + y) * n + x; N[2][i] = lap(3, x, y, z, 0) / (T)pp.beta; if (i == (a + ng) * n2 + 5 * n + 3) N[2][i] += dlt; m2[put(i, 0)] = N[2][i]; } }
  switch (what) {
    case 0: propagatePaxKernelXeon<KIDI_LAP>(m, v, nullptr, pp, dz, Vo, Vf, P, bx, by, bz); break;
    case 1: propagatePaxKernelXeon<KIDI_POT>(m, v, m2, pp, dz, Vo, Vf, P, bx, by, bz); break;
    case 2: propagatePaxKernelXeon<KIDI_POT_GRAV>(m, v, m2, pp, dz, Vo, Vf, P, bx, by, bz); break;
    case 3: graviPaxKernelXeon<KIDI_ENE>(m, v, nullptr, mh, pp, Vo, Vf, P, bx, by, bz); break;
    case 4: graviPaxKernelXeon<KIDI_ENEUG>(m, v, nullptr, mh, pp, Vo, Vf, P, bx, by, bz); break;
    case 5: graviPaxKernelXeon<KIDI_ADD>(nullptr, nullptr, nullptr, mh, pp, Vo, Vf, P, bx, by, bz); break;
    case 6: propagateNaxKernelXeon<V_QCDC>(m, v, m2, pp, dz, c, d, Vo, Vf, P, bx, by, bz); break;
    case 7: graviPaxKernelXeon<KIDI_SOR>(nullptr, nullptr, m2, mh, pp, Vo, Vf, P, 1, by, bz); break;
  }
  const double LD = nax ? dz * d : (pp.n == 1 ? ct * std::log(1 + dz / ct) : dz);     // integrals over the step, radiation era
  const double KL = nax ? dz * d * ood2 / (2 * mA * R) : sgn * LD * ood2 / (2 * mA * R);
  const double KP = nax ? beta * ct * (dz * d) / (4 * R * R * (ct + dz * d)) : sgn * beta * ct * dz / (8 * R * R * (ct + dz));
  for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    const size_t i = (z * n + y) * n + x; const long zl = (long)z - (long)ng; const bool in = zl >= (long)a && zl < (long)b;
    T w[4][2]; for (int k = 0; k < 4; k++) for (size_t cc = 0; cc < nc; cc++) w[k][cc] = N[k][i * nc + cc];
    if (what == 4 && zl < (long)(lz - ng)) { /* destination shifted by the ghost slices; checked below */ }
    if (in) {
      T r = N[0][i * nc], s = nax ? N[0][i * nc + 1] : N[1][i];
      if (what == 0) w[1][0] += (T)KL * lap(0, x, y, zl, 0);
      if (what == 1 || what == 2) { T ph = (T)KP * (r * r + s * s); if (what == 2) ph -= (T)(mA * grav * dz) * N[2][i]; T cs = std::cos(ph), sn = std::sin(ph); w[0][0] = cs * r - sn * s; w[1][0] = cs * s + sn * r; }
      if (what == 3) w[3][0] = r * r + s * s;
      if (what == 5) w[3][0] += (T)beta;
      if (nax) { T p = r - (T)KL * lap(0, x, y, zl, 1), q = s + (T)KL * lap(0, x, y, zl, 0), ph = (T)KP * (p * p + q * q), cs = std::cos(ph), sn = std::sin(ph); w[2][0] = p * cs - q * sn; w[2][1] = q * cs + p * sn; }
    }
    for (int k = 0; k < 4; k++) for (size_t cc = 0; cc < nc; cc++) {
      if (k == 3 && (what == 4 || what == 7)) continue;
      __sym_eq(A[k][put(i, cc)], w[k][cc], 20, in ? nm[k] : "outside the range untouched", i); }
  }
  if (what == 4) for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    size_t i = (z * n + y) * n + x, j = i + ng * n2; bool in = z >= a && z < b;
    T want = in ? N[0][j] * N[0][j] + N[1][j] * N[1][j] : N[3][i]; __sym_eq(mh[put(i, 0)], want, 20, "density without ghosts", i); }
  if (what == 7) for (size_t z = 0; z < lz + 2 * ng; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
    size_t i = (z * n + y) * n + x; T want = N[3][i]; bool hit = i == (a + ng) * n2 + 5 * n + 3; if (__sym_param("src", 0) && !hit) continue; if (hit) want -= (T)(pp.beta * srcw) * dlt;
    __sym_eq(mh[put(i, 0)], want, 20, "relaxation keeps a solution and moves towards the source", i); }
  __sym_reach("end");
}
extern "C" void harness() { mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(__sym_param("what", 0) != 7); if (__sym_param("dbl", 0)) run<double>(); else run<float>(); }
