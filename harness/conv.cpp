// Conversions between field representations, rescaling, normalisation and repair of angle jumps.
#include "common.h"
#include "../models/mpimodel.h"
#include <complex>
#include <mpi.h>
extern "C" { extern const long *mdl_otherl; }
static const long others[1] = {17};
#include "scalar/scaleField.h"
#include "scalar/normField.h"
#include "scalar/normCore.h"
#include "scalar/thetaScalar.h"
#include "scalar/theta2Cmplx.h"
#include "scalar/mendTheta.h"
void thetaToPaxion(Scalar *);
void resetPropagator(Scalar *) {}
template <class T> static void run() {
  typedef std::complex<T> C;
  const int what = __sym_param("what", 0), frw = __sym_param("frw", 1), idx = __sym_param("idx", 1), ax = __sym_param("ax", 0), low = __sym_param("low", 0);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), S = n * n, N = S * lz;
  const int ranks = __sym_param("ranks", 1), rank = __sym_param("rank", 0); mdl_size = ranks; mdl_rank = rank; zGrid = ranks; sizeN = n; sizeZ = lz;
  if (ranks > 1) { mdl_mpi_record = 1; mdl_otherl = others; }
  Cosmos *c = mkCosmos(); c->SetFrw(frw); c->SetQcdExp(2); c->SetIndi3(1.5); c->SetQcdPot(V_QCD1_PQ1); if (__sym_param("grav", 0)) c->ICData().grav = 0.25;
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, ax ? FIELD_AXION : FIELD_SAXION, low, ng);
  const double z = __sym_param("zt", 2), R = c->R(z), Rp = c->Rp(z) * R; *f->zV() = z; f->updateR();
  f->setFolded(__sym_param("fold", 0)); const bool fd = f->Folded(); const size_t sh = f->DataAlign() / ((ax ? 1 : 2) * sizeof(T));
  auto fl = [&](bool fold, size_t i, size_t s) { return flat(n, s, fold, i % n, i / n % n, i / S); };
  const int w = ax ? 2 : 1; (void)w;
  if (what == 0) { // scaleField
    const double k = __sym_real("factor", -3, 3); const FieldIndex fi = idx == 1 ? FIELD_M : idx == 2 ? FIELD_V : FIELD_M2;
    const size_t per = ax ? 1 : 2, M = N * per; T *p = (T *)(idx == 1 ? f->mStart() : idx == 2 ? f->vCpu() : f->m2Cpu()); std::vector<T> o(M);
    for (size_t i = 0; i < M; i++) o[i] = p[i] = (T)__sym_real_i("a", i, -2, 2);
    // everything else that belongs to the field must survive
    T *q = (T *)(idx == 1 ? f->vCpu() : f->mStart()), *r = low ? nullptr : (T *)(idx == 3 ? f->vCpu() : f->m2Cpu());
    for (size_t i = 0; i < M; i++) { q[i] = (T)(0.5 + i); if (r) r[i] = (T)(0.25 + i); }
    scaleField(f, fi, k);
    for (size_t i = 0; i < M; i++) { __sym_eq(p[i], o[i] * k, 1, "scaled value", i); __sym_check(q[i] == (T)(0.5 + i) && (!r || r[i] == (T)(0.25 + i)), "other arrays untouched"); }
  } else if (what == 1 || what == 2) { // normaliseField, normCoreField
    C *m = (C *)(idx == 1 ? f->mStart() : idx == 2 ? f->vCpu() : f->m2Cpu()); std::vector<C> o(N);
    const long sy = __sym_param("nsym", 4); unsigned rs = 7;
    for (size_t i = 0; i < N; i++) {
      rs = rs * 1664525u + 1013904223u; T a = (T)((int)(rs >> 24) - 128 + 0.5) / 64; rs = rs * 1664525u + 1013904223u; T b = (T)((int)(rs >> 24) - 128 + 0.5) / 64;
      if (what == 1 ? true : (long)(i % 7) == sy) { a = (T)__sym_real_i("re", i, 0.25, 2); b = (T)__sym_real_i("im", i, -2, 2); }
      o[i] = m[i] = C(a, b);
    }
    if (ranks > 1 && what == 2) { o.resize(N + 2 * S); for (size_t i = 0; i < 2 * S; i++) { bool sy1 = (long)(i % 7) == sy; C g((T)(sy1 ? __sym_real_i("gr", i, 0.25, 2) : 0.5 + (i * 5 % 16) / 8.), (T)(sy1 ? __sym_real_i("gi", i, -2, 2) : (i * 11 % 16) / 8. - 1)); o[N + i] = g; m[i < S ? (long)(N + i) : (long)i - 2 * (long)S] = g; } }
    if (what == 1) normaliseField(f, idx == 1 ? FIELD_M : idx == 2 ? FIELD_V : FIELD_M2); else normCoreField(f);
    for (size_t i = 0; i < N; i++) {
      T x = m[i].real(), y = m[i].imag(); double mod2 = (double)o[i].real() * o[i].real() + (double)o[i].imag() * o[i].imag(), len = std::sqrt(mod2);
      if (what == 1) { __sym_eq(x * len, o[i].real(), 1, "unit modulus, same phase (real part)", i); __sym_eq(y * len, o[i].imag(), 1, "unit modulus, same phase (imaginary part)", i); }
      else {
        // core profile from the summed squared phase gradients along the six links
        size_t X = i % n, Y = i / n % n, Z = i / S; double g = 0;
        size_t nb[6] = {Z * S + Y * n + (X + 1) % n, Z * S + Y * n + (X + n - 1) % n, Z * S + (Y + 1) % n * n + X, Z * S + (Y + n - 1) % n * n + X, (Z + 1) % lz * S + Y * n + X, (Z + lz - 1) % lz * S + Y * n + X};
        if (ranks > 1) { if (Z == lz - 1) nb[4] = N + Y * n + X; if (Z == 0) nb[5] = N + S + Y * n + X; }
        for (int d = 0; d < 6; d++) { C b = o[nb[d]]; double im = ((double)b.imag() * o[i].real() - (double)b.real() * o[i].imag()) / mod2; g += im * im; }
        double s = 2 * std::sqrt(f->LambdaP()) * R * f->Delta() / std::sqrt(g), rho = (0.43 * s + 0.164 * s * s + 0.036 * s * s * s * s) / (1 + 0.39 * s + 0.2 * s * s + 0.036 * s * s * s * s);
        __sym_eq(x * len, o[i].real() * rho, 1, "core profile (real part)", i); __sym_eq(y * len, o[i].imag() * rho, 1, "core profile (imaginary part)", i);
      }
    }
  } else if (what == 3) { // complex -> angle
    const double shift = __sym_real("shift", -0.5, 0.5); C *m = (C *)f->mStart(), *v = (C *)f->vCpu(); std::vector<C> om(N), ov(N);
    for (size_t i = 0; i < N; i++) { om[i] = m[fl(fd, i, sh)] = C((T)__sym_real_i("mr", i, 0.75, 2), (T)__sym_real_i("mi", i, -2, 2)); ov[i] = v[fl(fd, i, sh)] = C((T)__sym_real_i("vr", i, -2, 2), (T)__sym_real_i("vi", i, -2, 2)); }
    cmplxToTheta(f, shift, true);
    __sym_check(f->Field() == FIELD_AXION_MOD, "field type"); const size_t s2 = f->DataAlign() / sizeof(T); __sym_check(f->Precision() == (int)sizeof(T) && f->DataSize() == sizeof(T), "element size");
    T *a = (T *)f->mStart(), *b = (T *)f->vCpu();
    for (size_t i = 0; i < N; i++) {
      C q = om[i] - C((T)shift, 0); double th = std::arg(q), m2 = (double)q.real() * q.real() + (double)q.imag() * q.imag(); size_t k = fl(f->Folded(), i, s2);
      __sym_eq(a[k], R * th, 1, "conformal angle", i); __sym_eq(b[k] * m2, Rp * th * m2 + R * ((double)ov[i].imag() * q.real() - (double)ov[i].real() * q.imag()), 1, "its time derivative", i);
    }
  } else if (what == 4) { // angle (in the real parts) -> complex
    C *m = (C *)f->mStart(), *v = (C *)f->vCpu(); std::vector<T> th(N), vt(N);
    for (size_t i = 0; i < N; i++) { m[i] = C(th[i] = (T)__sym_real_i("th", i, -3, 3), (T)__sym_real_i("j", i, -1, 1)); v[i] = C(vt[i] = (T)__sym_real_i("vt", i, -2, 2), (T)__sym_real_i("jv", i, -1, 1)); }
    theta2Cmplx(f);
    for (size_t i = 0; i < N; i++) { double cs = std::cos(th[i]), sn = std::sin(th[i]); __sym_eq(m[i].real(), R * cs, 1, "real part", i); __sym_eq(m[i].imag(), R * sn, 1, "imaginary part", i); __sym_eq(v[i].real(), Rp * cs - R * vt[i] * sn, 1, "velocity, real part", i); __sym_eq(v[i].imag(), Rp * sn + R * vt[i] * cs, 1, "velocity, imaginary part", i); }
  } else if (what == 5) { // axion -> paxion
    T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); std::vector<T> om(N), ov(N);
    for (size_t i = 0; i < N; i++) { size_t k = fl(fd, i, sh); om[i] = m[k] = (T)__sym_real_i("m", i, -2, 2); ov[i] = v[k] = (T)__sym_real_i("v", i, -2, 2); }
    const double M = f->AxionMass() * R, dM2 = c->DAxionMass2Dct(z) * R * R + 2 * f->AxionMassSq() * R * Rp; // (m R)^2 and its derivative
    thetaToPaxion(f);
    __sym_check(f->Field() == FIELD_PAXION, "field type");
    { T *p = (T *)f->mStart(), *q = (T *)f->vStart(); for (size_t i = 0; i < N; i++) { double A = om[i] * std::sqrt(M / 2); __sym_eq(p[i], A, 1, "real part of the envelope", i); __sym_eq(q[i], ov[i] / std::sqrt(2 * M) + A * (dM2 / (4 * M * M * M)), 1, "imaginary part of the envelope", i); } }
  } else { // repair of 2 pi jumps
    T *m = (T *)f->mStart(), *v = (T *)f->vCpu(); std::vector<double> th(N), vt(N); std::vector<int> k(N); const int pat = __sym_param("pat", 0); const long ns = __sym_param("nsym", 1000);
    unsigned rs = 99 + 31 * pat;
    for (size_t i = 0; i < N; i++) {
      size_t x = i % n, y = i / n % n, zz = i / S; rs = rs * 1664525u + 1013904223u;
      k[i] = pat == 0 ? 0 : pat == 1 ? (x >= n / 2) : pat == 2 ? (int)(y >= n / 2) - (int)(x == 1) : pat == 3 ? (int)(zz >= 1) : pat == 4 ? (int)((x + y + zz) % 3) - 1 : (int)(rs >> 28) % 3 - 1;
      double base = 0.3 * ((int)((x * 3 + y * 5 + zz) % 5) - 2);
      th[i] = (long)(i % n == 0 ? 0 : i) < ns ? (T)__sym_real_i("th", i, -1.5, 1.5) : (T)base; vt[i] = (T)__sym_real_i("v", i, -2, 2);
    }
    size_t tot = 0;
    for (size_t i = 0; i < N; i++) { size_t j = fl(fd, i, sh); m[j] = (T)(R * (th[i] - 2 * M_PI * k[i])); v[j] = (T)(vt[i] - Rp * 2 * M_PI * k[i]); }
    // as one of several processes: the last angle of the slab below arrives, with its own multiple of 2 pi
    const int K = __sym_param("knb", 1); double tn = 0; T in = 0, sent0 = m[S * (lz - 1)];
    if (ranks > 1) { tn = __sym_real_i("below", 0, -1.5, 1.5); in = (T)(R * (tn + 2 * M_PI * K)); mdl_rank = (rank + ranks - 1) % ranks; MPI_Send(&in, sizeof(T), MPI_CHAR, rank, -1, MPI_COMM_WORLD); mdl_rank = rank; }
    tot = mendTheta(f); // |differences| of the true angle are at most 3 < pi
    if (ranks > 1) {
      // the slab above gets this slab's last angle: repaired, except that the last process has to answer first
      T out = 0; mdl_rank = (rank + 1) % ranks; MPI_Recv(&out, sizeof(T), MPI_CHAR, rank, -1, MPI_COMM_WORLD, MPI_STATUS_IGNORE); mdl_rank = rank;
      __sym_eq(out, rank == ranks - 1 ? sent0 : m[fl(f->Folded(), S * (lz - 1), f->DataAlign() / sizeof(T))], 1, "angle handed to the slab above", 0);
      __sym_eq(m[fl(f->Folded(), 0, f->DataAlign() / sizeof(T))], R * (th[0] + 2 * M_PI * K), 1, "continues the slab below", 0);
      if (pat == 0 && K == 0) __sym_check(tot == (size_t)others[0], "nothing to mend");
    } else if (pat == 0) __sym_check(tot == 0, "nothing to mend");
    // the result is the true angle up to one common multiple of 2 pi
    const size_t j0 = fl(f->Folded(), 0, sh); const double off = (m[j0] - R * th[0]) / (2 * M_PI * R); bool hit = false;
    for (int q = pat || ranks > 1 ? -4 : 0; q <= (pat || ranks > 1 ? 4 : 0); q++) hit = hit | (std::abs(off - q) < 1e-4);
    __sym_check(hit, "angle kept modulo 2 pi");
    for (size_t i = 0; i < N; i++) { size_t j = fl(f->Folded(), i, sh); __sym_eq((double)m[j] - m[j0], R * (th[i] - th[0]), 1, "continuous angle", i); __sym_eq(R * (v[j] - vt[i]), Rp * (m[j] - R * th[i]), 1, "velocity shifted with the angle", i); }
  }
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
}
