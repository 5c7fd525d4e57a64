// Reduction of a field or an energy map, projection along z, smoothing of initial conditions.
#include "common.h"
#include "fft/fftCode.h"
#include "reducer/reducer.h"
#include "projector/projector.h"
#include "gen/genConf.h"
#include "mpimodel.h"
#include <functional>
namespace AxionFFT { extern char outfftName[]; }
void smoothXeon(Scalar *field, const size_t iter, const double alpha);
extern int (*mdl_fft_hook)(int kind, int sign, void *in, void *out);
// One process of several: the transforms are opaque; what they are given is checked, what they give is fresh.
static struct { size_t n, lz, tz, ny, X, pad; bool cplx; std::vector<double> pos[2], mode, back[2]; int calls, fftdone; std::function<double(int, int, int)> F; } RK;
template <class T> static int rkhook(int kind, int sign, void *in, void *out) {
  auto &k = RK; const T *a = (const T *)in; T *o = (T *)out; const size_t N = k.n * k.n * k.lz; const int call = k.calls++, fld = (call + k.fftdone) / 2; auto sg = [](long q, long L) { return q > L / 2 ? q - L : q; };
  __sym_check((call + k.fftdone) % 2 == 0 ? sign < 0 : sign > 0, "forward and backward transforms alternate"); __sym_check(k.cplx == (kind == 0), "kind of transform"); if (fld > 1) return 1;
  if ((call + k.fftdone) % 2 == 0) {
    for (size_t i = 0; i < N * (k.cplx ? 2 : 1); i++) __sym_eq((double)a[k.cplx ? i : i / k.n * (k.n + 2) + i % k.n], k.pos[fld][i], 1, "values handed to the transform", i);
    k.mode.clear(); for (size_t i = 0; i < 2 * k.ny * k.tz * k.X; i++) { k.mode.push_back(__sym_real_i(fld ? "mode'" : "mode", i, -3, 3)); o[i] = (T)k.mode[i]; }
  } else {
    for (size_t y = 0; y < k.ny; y++) for (size_t z = 0; z < k.tz; z++) for (size_t x = 0; x < k.X; x++) { size_t i = x + k.X * (z + k.tz * y); const double f = k.F(sg(x, k.n), sg(y + k.ny * mdl_rank, k.n), sg(z, k.tz)) / (double)(k.n * k.n * k.tz);
      for (int c = 0; c < 2; c++) __sym_eq((double)a[2 * i + c], k.mode[2 * i + c] * f, 1, "filtered mode", i); }
    k.back[fld].clear(); for (size_t i = 0; i < N * (k.cplx ? 2 : 1); i++) { k.back[fld].push_back(__sym_real_i(fld ? "back'" : "back", i, -3, 3)); o[k.cplx ? i : i / k.n * (k.n + 2) + i % k.n] = (T)k.back[fld][i]; }
  }
  return 1;
}
template <class T> static void rankrun() {
  typedef std::complex<T> C; auto &k = RK; const int en = __sym_param("en", 0), ft = __sym_param("ft", 0), inpl = __sym_param("inpl", 1), fft = __sym_param("fft", 0); const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), S = n * n, N = S * lz, w = !en && ft == 0 ? 2 : 1, rn = __sym_param("rn", 2), rz = __sym_param("rz", 1);
  mdl_size = __sym_param("ranks", 2); mdl_rank = __sym_param("rank", 0); zGrid = mdl_size; sizeN = n; sizeZ = lz; Cosmos *c = mkCosmos(); c->SetPhysSize(3.0); strcpy(AxionFFT::outfftName, "/dev/null"); mdl_mpi_record = 1;
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, ft ? FIELD_AXION : FIELD_SAXION, false, ng); *f->zV() = 2; f->updateR();
  AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx"); if (ft == 0) { AxionFFT::initPlan(f, FFT_SPSX, FFT_FWDBCK, "SpSx"); AxionFFT::initPlan(f, FFT_RDSX_V, FFT_FWDBCK, "RdSxV"); }
  f->setFolded(false); T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *m2 = (T *)f->m2Cpu(); k.n = n; k.lz = lz; k.tz = lz * mdl_size; k.ny = n / mdl_size; k.cplx = w == 2; k.X = k.cplx ? n : n / 2 + 1; k.calls = 0; k.fftdone = en && fft;
  const double g = 0.3; k.F = [g](int x, int y, int z) { return std::exp(-g * (x * x + 1.5 * y * y + 2 * z * z)) * (1 + 0.1 * x + 0.2 * y + 0.05 * z); };
  for (size_t i = 0; i < N * w; i++) { k.pos[0].push_back(__sym_real_i("m", i, -3, 3)); if (en) { if (!fft) m2[i] = (T)k.pos[0][i]; } else { k.pos[1].push_back(__sym_real_i("v", i, -3, 3)); m[i] = (T)k.pos[0][i]; v[i] = (T)k.pos[1][i]; } }
  if (en) f->setM2(fft ? M2_ENERGY_FFT : M2_ENERGY); if (en && fft) for (size_t i = 0; i < 2 * k.ny * k.tz * k.X; i++) { k.mode.push_back(__sym_real_i("mode", i, -3, 3)); m2[i] = (T)k.mode[i]; }
  mdl_fft_hook = rkhook<T>;
  Scalar *o = reduceField(f, rn, rz, en ? FIELD_M2 : FIELD_MV, [&](int x, int y, int z, C q) -> C { return q * (T)k.F(x, y, z); }, inpl);
  __sym_check(o != nullptr, "reduction done"); if (!o) return; __sym_check(k.calls == (en ? 2 - fft : 4), "number of transforms");
  for (int fld = 0; fld < (en ? 1 : 2); fld++) { const T *r = (const T *)(en ? f->m2Cpu() : fld ? o->vCpu() : o->mStart()); const auto &B = k.back[fld];
    for (size_t z = 0; z < rz; z++) for (size_t y = 0; y < rn; y++) for (size_t x = 0; x < rn; x++) for (size_t q = 0; q < w; q++) {
      double s = 0; const size_t L[3] = {n, n, lz}, D[3] = {rn, rn, rz}, P[3] = {x, y, z};
      for (int e = 0; e < 8; e++) { size_t at[3]; double u = 1; for (int d = 0; d < 3; d++) { size_t p = P[d] * L[d], b = p / D[d]; double t = (double)(p % D[d]) / D[d]; at[d] = b + (e >> d & 1); u *= e >> d & 1 ? t : 1 - t; } if (u != 0) s += u * B[(at[0] + n * (at[1] + n * at[2])) * w + q]; }
      __sym_eq((double)r[(x + rn * (y + rn * z)) * w + q], s, 3, fld ? "reduced velocity" : "reduced field", x + rn * (y + rn * z)); } }
  __sym_reach("end");
}
template <class T> static void run() {
  if (__sym_param("what", 0) == 4) { rankrun<T>(); return; }
  typedef std::complex<T> C;
  const int what = __sym_param("what", 0), ft = __sym_param("ft", 0), flt = __sym_param("flt", 1), ranks = __sym_param("ranks", 1), fft = __sym_param("fft", 0);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 4), ng = __sym_param("ng", 1), S = n * n, N = S * lz, w = ft == 0 ? 2 : 1, rn = __sym_param("rn", 2), rz = __sym_param("rz", 2);
  static const FieldType FT[] = {FIELD_SAXION, FIELD_AXION, FIELD_PAXION};
  Cosmos *c = mkCosmos(); c->SetPhysSize(3.0); strcpy(AxionFFT::outfftName, "/dev/null");
  if (what <= 1) { // 0: m and v, 1: the energy in m2
    const int inpl = __sym_param("inpl", 1); Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FT[ft], false, ng); *f->zV() = 2; f->updateR(); const bool sup = __sym_param("sup", 0);
    AxionFFT::initPlan(f, FFT_PSPEC_AX, FFT_FWDBCK, "pSpecAx"); if (ft == 0) { AxionFFT::initPlan(f, FFT_SPSX, FFT_FWDBCK, "SpSx"); AxionFFT::initPlan(f, FFT_RDSX_V, FFT_FWDBCK, "RdSxV"); }
    f->setFolded(what == 0 && __sym_param("fold", 0)); const bool fd = f->Folded(); const size_t sh = f->DataAlign() / (w * sizeof(T)), W = what ? 1 : w;
    T *m = (T *)f->mStart(), *v = (T *)f->vCpu(), *m2 = (T *)f->m2Cpu(); std::vector<T> a(N * W), b(N * W);
    for (size_t i = 0; i < N; i++) for (size_t k = 0; k < W; k++) {
      size_t j = flat(n, sh, fd, i % n, i / n % n, i / S) * W + k; a[i * W + k] = (T)__sym_real_i("m", i * W + k, -3, 3); b[i * W + k] = (T)__sym_real_i("v", i * W + k, -3, 3);
      if (what) m2[j] = a[i]; else { m[j] = a[i * W + k]; v[j] = b[i * W + k]; }
    }
    const double g = flt ? 0.3 : 0.0; auto F = [g, flt](int x, int y, int z) { return (flt == 2 && x == 0 && y == 0 && z == 0) ? 0.0 : std::exp(-g * (x * x + 1.5 * y * y + 2 * z * z)); };
    if (what) { f->setM2(fft ? M2_ENERGY_FFT : M2_ENERGY); if (fft) { for (size_t s = n * lz - 1; s > 0; s--) memmove(m2 + s * (n + 2), m2 + s * n, n * sizeof(T)); AxionFFT::fetchPlan("pSpecAx").run(FFT_FWD); } }
    Scalar *o = reduceField(f, rn, rz, what ? FIELD_M2 : FIELD_MV, [&](int x, int y, int z, C q) -> C { return q * (T)F(x, y, z); }, inpl);
    __sym_check(o != nullptr, "reduction done"); if (!o) return; if (inpl || what) __sym_check(o == f, "in place");
    if (what) __sym_check(f->Reduced() && f->rLength() == rn && f->rDepth() == rz && f->m2Status() == M2_ENERGY, "map marked as reduced"); else __sym_check(o->Length() == rn && o->Depth() == rz && o->Size() == rn * rn * rz && !o->Folded(), "geometry of the reduced field");
    // kernel of the filter in position space
    std::vector<double> K(N); auto sg = [](long k, long L) { return k > L / 2 ? k - L : k; };
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { double s = 0; for (size_t kz = 0; kz < lz; kz++) for (size_t ky = 0; ky < n; ky++) for (size_t kx = 0; kx < n; kx++) s += F(sg(kx, n), sg(ky, n), sg(kz, lz)) * std::cos(2 * M_PI * ((double)(kx * x) / n + (double)(ky * y) / n + (double)(kz * z) / lz)); K[x + n * (y + n * z)] = s / N; }
    auto ax = [](size_t i, size_t o, size_t L, size_t l[2], double q[2]) { size_t p = o * L; l[0] = p / i; double r = (double)(p % i) / i; l[1] = r == 0 ? l[0] : l[0] + 1; q[0] = 1 - r; q[1] = r; };
    const T *om = what ? (T *)f->m2Cpu() : (T *)o->mStart(), *ov = what ? 0 : (T *)o->vCpu();
    for (size_t z = 0; z < rz; z++) for (size_t y = 0; y < rn; y++) for (size_t x = 0; x < rn; x++) {
      size_t X[2], Y[2], Z[2]; double qx[2], qy[2], qz[2]; ax(rn, x, n, X, qx); ax(rn, y, n, Y, qy); ax(rz, z, lz, Z, qz); std::vector<double> wt(N, 0.0);
      for (int q = 0; q < 8; q++) { double u = qx[q & 1] * qy[q >> 1 & 1] * qz[q >> 2]; if (u == 0) continue; size_t px = X[q & 1], py = Y[q >> 1 & 1], pz = Z[q >> 2]; for (size_t i = 0; i < N; i++) wt[i] += u * K[(px + n - i % n) % n + n * ((py + n - i / n % n) % n + n * ((pz + lz - i / S) % lz))]; }
      const size_t id = x + rn * (y + rn * z);
      for (size_t k = 0; k < W; k++) { T A = 0, B = 0; for (size_t i = 0; i < N; i++) { if (std::abs(wt[i]) < 1e-13) continue; A += (T)wt[i] * a[i * W + k]; B += (T)wt[i] * b[i * W + k]; }
        __sym_eq((double)om[id * W + k], (double)A, 3, what ? "reduced energy" : "reduced field", id); if (!what) __sym_eq((double)ov[id * W + k], (double)B, 3, "reduced velocity", id); }
    }
    if (!what && !inpl) for (size_t i = 0; i < N * W; i++) { __sym_eq((double)m[i], (double)a[i], 1, "original field kept", i); __sym_eq((double)v[i], (double)b[i], 1, "original velocity kept", i); }
    (void)sup;
  }
  if (what == 2) { // projection: mean over z of a function of the energy
    mdl_size = ranks; mdl_reduce = 1; std::vector<std::vector<T>> a(ranks); T *out = 0; const int st = __sym_param("st", 0); static const StatusM2 ST[] = {M2_ENERGY, M2_ANTIMASK, M2_MASK, M2_ENERGY_SMOOTH};
    for (int r = ranks - 1; r >= 0; r--) {
      mdl_rank = r; Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FT[ft], false, ng); *f->zV() = 2; f->setM2(ST[st]); T *m2 = (T *)f->m2Cpu(), *m = (T *)f->mStart(), *v = (T *)f->vStart();
      for (size_t i = 0; i < N; i++) { m2[i] = (T)__sym_real_i(r ? "e'" : "e", i, -3, 3); a[r].push_back(m2[i]); } for (size_t i = 0; i < N * w; i++) { m[i] = 5; v[i] = 6; }
      if (flt == 0) projectField(f, [](double x) { return x; }); else projectField(f, [](double x) { return x * x + 1; });
      for (size_t i = 0; i < N; i++) __sym_eq((double)m2[i], (double)a[r][i], 1, "energy map kept", i); for (size_t i = 0; i < N * w; i++) { __sym_eq((double)m[i], 5, 1, "field untouched", i); __sym_eq((double)v[i], 6, 1, "velocity untouched", i); }
      out = (T *)f->mFrontGhost();
    }
    for (size_t p = 0; p < S; p++) { T s = 0; for (int r = 0; r < ranks; r++) for (size_t z = 0; z < lz; z++) { T x = a[r][p + S * z]; s += flt == 0 ? x : x * x + 1; } __sym_eq((double)out[p], (double)(s / (T)(lz * ranks)), 3, "projection", p); }
  }
  if (what == 3) { // smoothing steps
    const int it = __sym_param("it", 1); Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_SAXION, false, ng); *f->zV() = 2; T *m = (T *)f->mStart(); std::vector<T> a(2 * N), b(2 * N); const double al = it > 1 ? 0.25 : __sym_real("alpha", 0.1, 0.9);
    for (size_t i = 0; i < 2 * N; i++) m[i] = a[i] = (T)__sym_real_i("m", i, -3, 3);
    smoothXeon(f, it, al);
    for (int q = 0; q < it; q++) { for (size_t i = 0; i < N; i++) { size_t x = i % n, y = i / n % n, z = i / S; auto at = [&](size_t X, size_t Y, size_t Z, int k) { return a[2 * (X % n + n * (Y % n) + S * (Z % lz)) + k]; };
        for (int k = 0; k < 2; k++) b[2 * i + k] = (T)al * a[2 * i + k] + ((T)1 - (T)al) * (at(x + 1, y, z, k) + at(x + n - 1, y, z, k) + at(x, y + 1, z, k) + at(x, y + n - 1, z, k) + at(x, y, z + 1, k) + at(x, y, z + lz - 1, k)) / (T)6; } a = b; }
    for (size_t i = 0; i < 2 * N; i++) __sym_eq((double)m[i], (double)a[i], 3, "smoothed field", i / 2);
  }
  __sym_reach("end");
}
extern "C" void harness() { mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
