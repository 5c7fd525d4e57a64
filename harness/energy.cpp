// Energy totals and energy maps against the energy densities of the fields, through the public energy().
//   kind 0 saxion (pot), 1 axion, 2 axion wrapped, 3 paxion, 4 low-memory saxion
#include "common.h"
#include "../models/mpimodel.h"
#include <immintrin.h>
#include "energy/energy.h"
#include "utils/triSimd.h"
#undef opCode
static double MOD(double x, double md) { __m256d a = _mm256_set1_pd(x), b = _mm256_set1_pd(md); return _mm256_mod_pd(a, b)[0]; }
static float MOD(float x, float md) { __m256 a = _mm256_set1_ps(x), b = _mm256_set1_ps(md); return _mm256_mod_ps(a, b)[0]; }
static const int POTS[] = {V_QCD1_PQ1, V_QCD0_PQ2, V_QCDV_PQ3, V_QCD2_PQ1, V_QCDC_PQ2, V_QCDV_PQ1, V_QCD0_PQ1, V_QCD1_PQ3, V_QCD2_PQ2, V_QCDV_PQ2, V_QCD2_PQ3, V_QCD0_PQ3, V_QCDC_PQ1};
enum { GX, GY, GZ, KIN, POT_, RGX, RGY, RGZ, RKIN, RPOT, RHO, NQ };
extern "C" { extern const double *mdl_others; }
static double oth[32];
template <class T> static void run() {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1); const bool dbl = sizeof(T) == 8;
  const int kind = __sym_param("kind", 0), map = __sym_param("en", EN_MAP), frwi = __sym_param("frw", 0), nsym = __sym_param("nsym", 0), msk = __sym_param("msk", 0);
  const bool sax = kind == 0 || kind == 4, cplx = sax; const int w = cplx ? 2 : 1; const int pot = POTS[__sym_param("pot", 0)];
  const size_t n2 = n * n, N = n2 * lz, sh = 32 / (w * sizeof(T));
  const double zz = __sym_param("zz2", 0) ? 2.0 : 1.5, frw = frwi ? 1.5 : 1.0;
  // one of several processes: the neighbours' slices and the others' share of every sum are symbols
  const int ranks = __sym_param("ranks", 1); mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz;
  if (ranks > 1) { mdl_mpi_record = 1; mdl_others = oth; for (int i = 0; i < 23; i++) oth[i] = i == MM_NUMM ? 5. : __sym_real_i("others", i, 0, 8); }
  Cosmos *c = mkCosmos(); c->SetQcdPot((VqcdType)pot); c->SetFrw(frw); c->ICData().zi = zz; c->SetIndi3(1.5); c->SetLambda(2.0); c->SetPhysSize(0.5 * n);
  if (kind == 3) c->SetQcdExp(0.0);
  Scalar *f = mkScalar(c, n, lz, dbl, sax ? FIELD_SAXION : kind == 3 ? FIELD_PAXION : kind == 2 ? FIELD_AXION_MOD : FIELD_AXION, kind == 4, ng);
  if (kind == 2) f->setField(FIELD_AXION_MOD);
  const double R = *f->RV(), Rp = frw * R / zz, mA2 = f->AxionMassSq(), mA = f->AxionMass(), LL = f->LambdaP(), del = 0.5, shift = sax ? __sym_param("shift", 0) * 0.125 : 0;
  f->setFolded(true);
  std::vector<T> M(N * w), V(N * w);
  const double lo = sax ? 0.4 : -2, hi = sax ? 1.6 : 2;
  for (size_t i = 0; i < N * w; i++) {
    bool s = !nsym || (long)(i / w) % nsym == 0;                  // nsym: only every nsym-th site symbolic
    M[i] = s ? (T)__sym_real_i("m", i, lo, hi) : (T)(lo + (hi - lo) * ((i * 37 % 64) / 64.0));
    V[i] = s ? (T)__sym_real_i("v", i, -1, 1) : (T)((i * 29 % 32) / 16.0 - 1); }
  T *m = (T *)f->mStart(), *v = (T *)(kind == 3 ? f->vStart() : f->vCpu()), *m2 = (T *)f->m2Cpu();
  for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (int k = 0; k < w; k++) {
    size_t o = flat(n, sh, true, x, y, z) * w + k, i = flat(n, sh, false, x, y, z) * w + k; m[o] = M[i]; v[o] = V[i]; }
  std::vector<T> G[2][2];   // [field, velocity][below, above]
  if (ranks > 1) for (int q = 0; q < (kind == 3 ? 2 : 1); q++) for (int e = 0; e < 2; e++) { G[q][e].resize(n2 * w); T *b = q ? v : m;
    for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (int k = 0; k < w; k++) { size_t i = (y * n + x) * w + k; bool s = !nsym || (long)(i / w) % nsym == 1;
      G[q][e][i] = s ? (T)__sym_real_i("ghost", (q * 2 + e) * n2 * w + i, lo, hi) : (T)(lo + (hi - lo) * ((i * 23 % 64) / 64.0));
      b[(e ? (long)(n2 * lz * w) : -(long)(n2 * w)) + (long)(flat(n, sh, true, x, y, 0) * w + k)] = G[q][e][i]; } }
  const size_t h = f->eSize(), m2n = m2 ? (kind == 4 ? 0 : 2 * f->eSize()) : 0;
  for (size_t i = 0; i < m2n; i++) m2[i] = 77;
  std::vector<int> mk(N, 0); bool masked = map & EN_MASK;
  if (masked) { char *s = (char *)f->sData(); for (size_t i = 0; i < N; i++) { bool on = msk == 0 ? (i * 11 % 7 == 0) : msk == 1 ? i == N / 2 + 1 : i < n2 * 2 - 3; if (i < 2 && msk == 2) on = __sym_concretize(__sym_int(i ? "mask1" : "mask0", 0, 1)); mk[i] = on; s[i] = on ? (char)(STRING_MASK | 3) : (char)(i % 2 ? 5 : 0); }
    f->setSD((StatusSD)(SD_MASK)); }
  double *eRes = (double *)calloc(32, 8); for (int i = 0; i < 32; i++) eRes[i] = 55;
  energy(f, eRes, (EnType)map, shift);
  // ---- reference -------------------------------------------------------------------------------
  auto at = [&](const std::vector<T> &A, long x, long y, long z, int k) -> T { x = (x + n) % n; y = (y + n) % n; if (ranks > 1 && (z < 0 || z >= (long)lz)) return G[&A == &V][z >= 0][(y * n + x) * w + k]; z = (z + lz) % lz; return A[((z * n + y) * n + x) * w + k]; };
  std::vector<T> tot(NQ, 0), totM(NQ, 0), mapT(N), mapR(N); double nm = 0;
  const long D[6][3] = {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}};
  const T iR2 = (T)(1.0 / (R * R)), iR = (T)(1.0 / R);
  for (long z = 0; z < (long)lz; z++) for (long y = 0; y < (long)n; y++) for (long x = 0; x < (long)n; x++) {
    size_t id = (z * n + y) * n + x; T q[NQ]; for (int k = 0; k < NQ; k++) q[k] = 0;
    if (sax) {
      T a = at(M, x, y, z, 0), b = at(M, x, y, z, 1), r2 = a * a + b * b;
      for (int d = 0; d < 6; d++) { T s = d % 2 ? -1 : 1, da = s * (at(M, x + D[d][0], y + D[d][1], z + D[d][2], 0) - a), db = s * (at(M, x + D[d][0], y + D[d][1], z + D[d][2], 1) - b);
        T rad = (a * da + b * db) / r2, ang = (a * db - b * da) / r2, f0 = (T)(0.25 / (del * del)) * iR2 * (r2 * iR2);
        q[RGX + d / 2] += rad * rad * f0; q[GX + d / 2] += ang * ang * f0; }
      T va = V[id * 2], vb = V[id * 2 + 1], rad = (a * va + b * vb) / r2 - (T)(Rp) * iR, ang = (a * vb - b * va) / r2;
      q[RKIN] = rad * rad * (r2 * iR2) * iR2 * (T)0.5; q[KIN] = ang * ang * (r2 * iR2) * iR2 * (T)0.5;
      T as = a - (T)shift, p2 = (as * as + b * b), u2 = p2 * iR2;      // potentials refer to the shifted field
      q[RHO] = std::sqrt(u2);
      T vp = 0;
      if ((pot & V_PQ) == V_PQ1) vp = (u2 - 1) * (u2 - 1);
      else if ((pot & V_PQ) == V_PQ2) vp = (u2 * u2 - 1) * (u2 * u2 - 1);
      else { T in = (u2 - 1) * (u2 - 1), s = std::sqrt(u2) - 1, out = 4 * (s * s); vp = u2 >= 1 ? out : in; }
      q[RPOT] = vp * (T)(0.25 * LL);
      T th = 0;
      switch (pot & V_QCD) { case V_QCD1: case V_QCDC: th = 1 - as / std::sqrt(p2); break;
        case V_QCDV: th = ((1 - as * iR) * (1 - as * iR) + b * b * iR2) * (T)0.5; break;
        case V_QCD2: th = (1 - as * as / p2) * (T)0.5; break; default: break; }
      q[POT_] = th * (T)mA2;
    } else {
      T a = M[id], va = V[id], p = V[id];
      for (int d = 0; d < 6; d++) { T g = at(M, x + D[d][0], y + D[d][1], z + D[d][2], 0) - a; if (kind == 2) g = MOD(g, (T)(2 * M_PI * R));
        if (kind == 3) { T g2 = at(V, x + D[d][0], y + D[d][1], z + D[d][2], 0) - p; q[GX + d / 2] += (g * g + g2 * g2) * (T)(0.25 / (del * del) / mA / std::pow(R, 5)); }
        else q[GX + d / 2] += g * g * (T)(0.25 / (del * del)) * (iR2 * iR2); }
      if (kind == 3) { T nn = a * a + p * p; q[KIN] = nn; q[POT_] = nn * nn * (T)(-1. / 16 / std::pow(R, 6)); }
      else { T k = va - (T)(Rp / R) * a, s = std::sin((T)0.5 * (a * iR)); q[KIN] = k * k * (iR2 * iR2) * (T)0.5; q[POT_] = 2 * (s * s) * (T)mA2; }
    }
    T P = q[POT_]; if (sax && (pot & V_QCD) == V_QCD0) P = 0;
    mapT[id] = q[GX] + q[GY] + q[GZ] + q[POT_] + (kind == 3 ? 0 : q[KIN]);
    mapR[id] = kind == 3 ? q[KIN] : q[RGX] + q[RGY] + q[RGZ] + q[RKIN] + q[RPOT];
    for (int k = 0; k < NQ; k++) { tot[k] += q[k]; if (mk[id]) totM[k] += q[k]; }
    if (mk[id]) nm += 1;
  }
  // ---- compare -----------------------------------------------------------------------------------
  static const int IT[NQ] = {TH_GRX, TH_GRY, TH_GRZ, TH_KIN, TH_POT, RH_GRX, RH_GRY, RH_GRZ, RH_KIN, RH_POT, RH_RHO}, IM[NQ] = {TH_GRXM, TH_GRYM, TH_GRZM, TH_KINM, TH_POTM, RH_GRXM, RH_GRYM, RH_GRZM, RH_KINM, RH_POTM, RH_RHOM};
  const bool noPot = sax && (pot & V_QCD) == V_QCD0;       // the angular potential is undefined there (mass zero)
  if (map & EN_ENE) for (int k = 0; k < (sax ? NQ : 5); k++) if (!(noPot && k == POT_)) __sym_eq(eRes[IT[k]], (tot[k] + (T)oth[IT[k]]) / (T)(N * ranks), 40, "mean energy", k);
  if (masked) { nm += oth[MM_NUMM]; __sym_eq(eRes[MM_NUMM], nm, 10, "number of masked sites", 0); if (nm > 0) for (int k = 0; k < NQ; k++) if (!(noPot && k == POT_)) __sym_eq(eRes[IM[k]], (totM[k] + (T)oth[IM[k]]) / (T)nm, 40, "mean energy over the mask", k); }
  if (m2n) {
    const bool isMap = (map & EN_ONLYMAP);
    for (size_t i = 0; i < N; i++) {
      T wt = mapT[i], wr = mapR[i]; if (map == EN_MAPMASK && !mk[i]) wt = wr = 0;
      T *a = m2, *b = m2 + h;
      if (!isMap) { __sym_eq(a[i], 77, 1, "auxiliary field untouched without a map", i); __sym_eq(b[i], 77, 1, "auxiliary field untouched without a map", i); continue; }
      if (kind == 3) { __sym_eq(a[i], wr, 40, "density map", i); __sym_eq(b[i], wt, 40, "energy map", i); }
      else { if (!noPot) __sym_eq(a[i], wt, 60, "energy map", i); if (sax) __sym_eq(b[i], wr, 60, "radial energy map", i); }
    }
    __sym_check(!isMap || f->m2Status() == M2_ENERGY, "auxiliary field marked as energy");
    for (size_t i = N; i < h; i++) if (map != EN_MAPMASK) __sym_eq(m2[i], 77, 1, "memory behind the map untouched", i);
  }
  for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (int k = 0; k < w; k++) {
    size_t o = flat(n, sh, true, x, y, z) * w + k, i = flat(n, sh, false, x, y, z) * w + k; __sym_eq(m[o], M[i], 1, "field untouched", i); __sym_eq(v[o], V[i], 1, "velocity untouched", i); }
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  if (__sym_param("dbl", 0)) run<double>(); else run<float>();
}
