// Masks around strings and axitons. The transforms are stood in for: what is handed over is checked, what comes back is fresh.
#include "common.h"
#include "../models/mpimodel.h"
#include <algorithm>
#include <functional>
#include "spectrum/spectrum.h"
#include "fft/fftCode.h"
namespace AxionFFT { extern char outfftName[2048]; }
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
extern double ng0calib;
static std::function<void(int, int, void *)> onfft; static std::function<void(void *, size_t, int)> deliver;
static int hook(int kind, int sign, void *in, void *out) { __sym_check(in == out, "transform in place"); onfft(kind, sign, in); return 1; }
static void fill(void *b, size_t n, int peer, int) { deliver(b, n, peer); }
template <class T> static void run() {
  typedef std::complex<T> C;
  const int mask = __sym_param("mask", 1), out = __sym_param("out", 0), ranks = __sym_param("ranks", 1), rank = __sym_param("rank", 0), ax = mask & (SPMASK_AXIT | SPMASK_AXIT2 | SPMASK_AXITV) ? 1 : 0;
  const size_t n = __sym_param("n", 4), ng = __sym_param("ng", 1), lz = __sym_param("lz", n / ranks), S = n * n, N = S * lz, P = n + 2; const double rad = __sym_param("rad", 3) / 2.;
  mdl_size = ranks; mdl_rank = rank; zGrid = ranks; sizeN = n; sizeZ = lz * ranks; ng0calib = __sym_param("cal", 5) / 4.; strcpy(AxionFFT::outfftName, "/dev/null");
  Cosmos *c = mkCosmos(); c->SetQcdExp(2); c->SetIndi3(0.4); c->SetPhysSize(3.0); c->SetLambda(0.7); c->SetQcdPot(V_QCD1_PQ1);
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, ax ? FIELD_AXION : FIELD_SAXION, false, ng); const double zz = 1.5; *f->zV() = zz; f->updateR(); const double R = *f->RV();
  AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx", 1);
  const int fold = __sym_param("fold", 0); f->setFolded(fold); const size_t sh = f->DataAlign() / ((ax ? 1 : 2) * sizeof(T));
  const size_t M = (n / 2 + 1) * n * lz, ny = n / ranks; // half-complex modes; after the transform the y axis is shared out
  char *s = (char *)f->sData(); T *m2 = (T *)f->m2Cpu(), *m2h = (T *)f->m2half(); const long site = __sym_param("site", 5), site2 = __sym_param("site2", -1), bg = __sym_param("bg", 0);
  std::vector<int> F(N); std::vector<double> re(N), im(N), en(N), got(n * P * lz); unsigned rs = 99 + 7919 * bg; auto rnd = [&]() { rs = rs * 1664525u + 1013904223u; return rs >> 20; };
  auto sy = [&](size_t i) { return (long)i == site || (long)i == site2; };
  const double eth = (mask == SPMASK_AXITV ? 0.5 * M_PI * M_PI : 2) * f->AxionMassSq(), tth = std::min(3., std::sqrt(12 / eth) / R / f->Delta());
  for (size_t i = 0; i < N; i++) {
    const size_t k = flat(n, sh, fold, i % n, i / n % n, i / S); int fl = 0; const int dens = bg == 0 ? 40 : 8;
    unsigned r = rnd() % dens; fl = r == 0 ? STRING_XY_POSITIVE : r == 1 ? STRING_YZ_NEGATIVE : r == 2 ? STRING_ZX_POSITIVE : r == 3 ? (STRING_XY_NEGATIVE | STRING_YZ_POSITIVE) : r == 4 ? STRING_WALL : 0;
    if (ax) fl = r == 0 ? STRING_WALL : r == 1 ? STRING_XY_POSITIVE : r == 2 ? STRING_MASK : 0; else if (rnd() % 5 == 0) fl |= STRING_MASK;
    if (sy(i)) { const long q = __sym_int(i == (size_t)site ? "flag" : "flag2", 0, ax ? 3 : 7); fl = ax ? (q & 1 ? STRING_WALL : 0) | (q & 2 ? STRING_XY_POSITIVE : 0) : (q & 1 ? STRING_XY_POSITIVE : 0) | (q & 2 ? STRING_YZ_NEGATIVE : 0) | (q & 4 ? STRING_ZX_NEGATIVE : 0); }
    F[i] = fl; s[i] = (char)fl;
    double a = 0.3 + (rnd() % 64) / 64., b = 0.2 + (rnd() % 64) / 64., e = eth * (0.1 + 0.8 * (rnd() % 64) / 64.);
    if (ax) { a = tth * 0.9 * R * (rnd() % 128 - 64.) / 64.; if (sy(i)) { a = __sym_real_i("th", i, -2 * tth * R, 2 * tth * R); e = __sym_real_i("en", i, 0, 3 * eth); const double g = 1e-5; __sym_assume((e < eth * (1 - g)) | (e > eth * (1 + g))); const double A = fabs(a); __sym_assume((A < tth * R * (1 - g)) | (A > tth * R * (1 + g))); } }
    else if (sy(i)) { a = __sym_real_i("re", i, 0.2, 2); b = __sym_real_i("im", i, -2, 2); }
    if (mask == SPMASK_AXITV && sy(i)) e = eth;
    if (ax) { ((T *)f->mStart())[k] = (T)a; m2[i] = (T)e; re[i] = ((T *)f->mStart())[k]; en[i] = m2[i]; } else { ((C *)f->mStart())[k] = C((T)a, (T)b); re[i] = ((C *)f->mStart())[k].real(); im[i] = ((C *)f->mStart())[k].imag(); m2[i] = (T)(0.7 + i); }
  }
  f->setSD(SD_MAP); if (ax) f->setM2(M2_ENERGY);
  // ---- reference ----
  std::vector<char> V(N, 0), top(S, 0), low(S, 0); // vertices of flagged plaquettes here, those in the slice above, those the process below found in ours
  auto mark = [&](size_t x, size_t y, size_t z) { x %= n; y %= n; if (z < lz) V[(z * n + y) * n + x] = 1; else if (ranks == 1) V[y * n + x] = 1; else top[y * n + x] = 1; };
  if (!ax && !(mask & (SPMASK_VIL | SPMASK_VIL2))) for (size_t i = 0; i < N; i++) { size_t x = i % n, y = i / n % n, z = i / S; const int fl = F[i];
    if (fl & STRING_ONLY) mark(x, y, z);
    if (fl & STRING_XY) { mark(x + 1, y, z); mark(x, y + 1, z); mark(x + 1, y + 1, z); }
    if (fl & STRING_YZ) { mark(x, y + 1, z); mark(x, y, z + 1); mark(x, y + 1, z + 1); }
    if (fl & STRING_ZX) { mark(x, y, z + 1); mark(x + 1, y, z); mark(x + 1, y, z + 1); } }
  const bool cum = __sym_param("cum", 0); std::vector<double> th0;
  if (ax) for (size_t i = 0; i < N; i++) if (mask != SPMASK_AXITV) V[i] = en[i] > eth || re[i] > tth * R || re[i] < -tth * R || (F[i] & (cum ? STRING_WALL : STRING_XY_POSITIVE));
  const bool fft = mask & (SPMASK_REDO | SPMASK_GAUS | SPMASK_AXIT2); const double rr = mask == SPMASK_AXIT2 || ng0calib < 0 ? rad : rad * ng0calib, rc = rad * ng0calib;
  double cut = 10 / (2 * M_PI * rc * rc) * std::exp(-2 / (ng0calib * ng0calib)); if (ng0calib < 0 && !ax) cut = (rad > 8 ? 0.21 : rad < 4 ? 0.42772052 - 0.05299264 * rad : 0.22619714 - 0.00363601 * rad) / (rad * rad);
  // ---- what the neighbours bring: the slice marks of the one below, the reach of balls from below and above ----
  std::vector<int> fromB(S, 0), fromF(S, 0), sendB(S, 0), sendF(S, 0); int nmsg = 0;
  if (ranks > 1) {
    for (size_t j = 0; j < S; j++) { unsigned q = rnd() % 16; if (!ax && q < 2) low[j] = 1; q = rnd() % 12; if (q == 0) fromB[j] = 1; if (q == 1) fromF[j] = 1; if (q == 2 && rad >= 2) fromB[j] = 2; if (q == 3 && rad >= 2) fromF[j] = 2; }
    mdl_mpi_record = 1; mdl_fill = fill;
  }
  auto addlow = [&]() { for (size_t j = 0; j < S; j++) if (low[j]) V[j] = 1; };
  if (!ax && !(mask & (SPMASK_VIL | SPMASK_VIL2))) addlow();
  const bool ball = mask & (SPMASK_BALL | SPMASK_AXIT); const int rz = (int)std::floor(rad); std::vector<char> B(N, 0);
  if (ball) { auto inside = [&](long dx, long dy, long dz) { return dx * dx + dy * dy + dz * dz <= rad * rad; };
    for (size_t i = 0; i < N; i++) if (V[i]) for (long dz = -rz; dz <= rz; dz++) for (long dy = -rz; dy <= rz; dy++) for (long dx = -rz; dx <= rz; dx++) if (inside(dx, dy, dz)) {
      const long x = ((long)(i % n) + dx + 8 * n) % n, y = ((long)(i / n % n) + dy + 8 * n) % n; long z = (long)(i / S) + dz; const size_t j = y * n + x;
      if (ranks == 1) z = (z + 8 * lz) % lz;
      if (z < 0) sendB[j] = std::max(sendB[j], (int)-z); else if (z >= (long)lz) sendF[j] = std::max(sendF[j], (int)(z + 1 - lz)); else B[z * S + j] = 1; }
    for (size_t j = 0; j < S; j++) { for (int d = 0; d < fromB[j] && ranks > 1; d++) B[d * S + j] = 1; for (int d = 0; d < fromF[j] && ranks > 1; d++) B[(lz - 1 - d) * S + j] = 1; } }
  int lowmsg = 0;
  deliver = [&](void *buf, size_t nb, int peer) {
    const int fw = (rank + 1) % ranks, bk = (rank + ranks - 1) % ranks, to = peer == fw ? bk : fw; const void *src = nullptr;
    for (int k = 0; k < mdl_nrec; k++) if (mdl_rec[k].send && mdl_rec[k].peer == to && mdl_rec[k].n == nb) src = mdl_rec[k].buf;
    if (!src) { __sym_check(false, "something is sent for what is received"); return; }
    if (!ax && lowmsg == 0 && to == fw && nb == n * P) { lowmsg = 1; // one byte per column, rows padded
      for (size_t j = 0; j < S; j++) { const size_t o = j / n * P + j % n; __sym_check((((const char *)src)[o] > 0) == (top[j] != 0), "vertices sent to the process above"); ((char *)buf)[o] = low[j]; }
    } else if (ball) { nmsg++; for (size_t j = 0; j < S; j++) { __sym_check(((const short *)src)[j] == (to == fw ? sendF : sendB)[j], "reach of the balls sent to a neighbour"); ((short *)buf)[j] = to == fw ? fromB[j] : fromF[j]; } }
  };
  auto padded = [&](const void *p, size_t i) { return (double)((const T *)p)[i / n * P + i % n]; };
  int calls = 0; std::vector<double> mode(2 * M), W(N); std::vector<double> fin(N); const char *flab = "masked values handed to the last transform";
  onfft = [&](int kind, int sign, void *p) {
    calls++;
    const int stage = fft ? calls : 3;
    if (stage == 1) { __sym_check(sign < 0, "forward first"); for (size_t i = 0; i < N; i++) __sym_eq(padded(p, i), V[i] ? 1 : 0, 1, "marks handed to the transform", i);
      for (size_t i = 0; i < 2 * M; i++) { mode[i] = i % 11 == 3 ? __sym_real_i("mode", i, -3, 3) : 0.25 * (i % 5) - 0.4; ((T *)p)[i] = (T)mode[i]; mode[i] = ((T *)p)[i]; } }
    else if (stage == 2) { __sym_check(sign > 0, "backward second");
      for (size_t i = 0; i < 2 * M; i++) { const size_t k = i / 2, x = k % (n / 2 + 1), q = k / (n / 2 + 1) % n, y = k / (n / 2 + 1) / n; long Y = y + ny * rank, Z = q; if (Y > (long)n / 2) Y -= n; if (Z > (long)n / 2) Z -= n;
        const double k2 = x * x + Y * Y + Z * Z, w = std::exp(-0.5 * M_PI * M_PI * rr * rr / S * k2) / ((double)N * ranks); __sym_eq((double)((T *)p)[i], mode[i] * w, w, "smoothed modes", i); }
      for (size_t i = 0; i < n * P * lz; i++) ((T *)p)[i] = (T)0.3;
      for (size_t i = 0; i < N; i++) { W[i] = cut * (0.2 + 0.6 * (rnd() % 16) / 16. + (rnd() % 3 == 0 ? 1 : 0)); if (i == 2 || (long)i == site) { W[i] = __sym_real_i("smooth", i, 0, 3 * cut); __sym_assume((W[i] < cut * (1 - 1e-5)) | (W[i] > cut * (1 + 1e-5))); } T &t = ((T *)p)[i / n * P + i % n]; t = (T)W[i]; W[i] = t; } }
    else { __sym_check(sign < 0, "forward last"); for (size_t i = 0; i < N; i++) fin[i] = padded(p, i); for (size_t i = 0; i < 2 * M; i++) ((T *)p)[i] = 0; }
  };
  mdl_fft_hook = hook;
  MeasInfo mi; mi.nbinsspec = -1; SpecBin sb(f, __sym_param("spec", 0), mi);
  static const StatusM2 outs[] = {M2_MASK, M2_ANTIMASK, M2_ENERGY};
  mdl_threads = __sym_param("th", 1); __sym_threads(mdl_threads); __sym_races(mdl_threads > 1 ? 2 : 0);
  sb.masker(rad, (SpectrumMaskType)mask, outs[out], cum);
  __sym_check(calls == (fft ? 3 : 1), "number of transforms"); if (ball && ranks > 1) __sym_check(nmsg == 2, "both neighbours told");
  __sym_races(0);
  // ---- results ----
  const double shf = f->Saskia() * R;
  // diffused mask
  std::vector<double> D(N); std::vector<char> DM(N);
  if (mask == SPMASK_DIFF) { for (size_t i = 0; i < N; i++) { D[i] = V[i]; DM[i] = V[i]; }
    const size_t it = (size_t)(rad * rad); for (size_t k = 0; k <= it; k++) { std::vector<double> E(D); std::vector<char> EM(DM);
      for (size_t i = 0; i < N; i++) { if (DM[i]) { E[i] = 1; continue; } size_t x = i % n, y = i / n % n, z = i / S; double sum = 0; bool any = false;
        for (int q = 0; q < 6; q++) { size_t X = x + (q == 0) + n - (q == 1), Y = y + (q == 2) + n - (q == 3), Z = z + (q == 4) + lz - (q == 5); const double v = D[(Z % lz * n + Y % n) * n + X % n]; sum += v; any |= v > 0; }
        if (k < (size_t)rad) { EM[i] = any; E[i] = any; } else E[i] = sum / 6; }
      D = E; DM = EM; } }
  for (size_t i = 0; i < N; i++) {
    bool mk = false; double w = 0, scale = 1; // masked here, and the weight of the site
    if (mask == SPMASK_VIL || mask == SPMASK_VIL2) { const double q = ((re[i] - shf) * (re[i] - shf) + im[i] * im[i]) / (R * R); w = mask == SPMASK_VIL ? std::sqrt(q) : q; scale = 4; }
    else if (ball) { mk = B[i]; w = !mk; }
    else if (mask == SPMASK_DIFF) { mk = DM[i] || D[i] > 0.5; w = 1 - D[i]; }
    else if (mask == SPMASK_AXITV) { w = 0.5 * (1 - std::tanh(5 * (en[i] / eth - 1))); }
    else { mk = W[i] > cut; w = mk ? 0 : mask == SPMASK_GAUS ? 1 - W[i] / cut : 1; }
    const double e = ax ? en[i] : 1; if (ax) scale = 3 * eth;
    __sym_eq(fin[i], w * e, scale, flab, i);
    if (!(mask & (SPMASK_VIL | SPMASK_VIL2 | SPMASK_AXITV))) __sym_check(((s[i] & STRING_MASK) != 0) == mk, "mask bit of the site");
    if (!ax && !ball && !(mask & (SPMASK_VIL | SPMASK_VIL2))) __sym_check((s[i] & STRING_DEFECT) == (F[i] & STRING_DEFECT), "string flags kept");
    if (ax && mask != SPMASK_AXITV) __sym_check(((s[i] & STRING_WALL) != 0) == (V[i] != 0), "axitons marked");
    if (outs[out] == M2_MASK) __sym_eq((double)m2[i], ax ? !mk : w, scale, "mask handed back", i);
    else if (outs[out] == M2_ANTIMASK) __sym_eq((double)m2[i], ax ? mk : 1 - w, scale, "antimask handed back", i);
    else __sym_eq((double)m2[i], en[i], scale, "energy handed back", i);
    if (ax) { __sym_eq((double)m2h[i], en[i], scale, "energy kept", i); }
    const size_t k = flat(n, sh, f->Folded(), i % n, i / n % n, i / S);
    if (ax) __sym_eq((double)((T *)f->mStart())[k], re[i], 4, "field untouched", i); else { __sym_eq((double)((C *)f->mStart())[k].real(), re[i], 4, "field untouched", i); }
  }
  __sym_check(f->m2Status() == outs[out], "state of the map");
  if (mask & (SPMASK_REDO | SPMASK_GAUS | SPMASK_DIFF)) __sym_check(f->sDStatus() == SD_MAPMASK, "state of the flags");
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
