// FFTW (MPI interface, one rank) as an exact discrete Fourier transform: in or out of place, real transforms padded,
// optional transposition of the two slow directions, no normalisation.
#include <fftw3-mpi.h>
#include <complex>
#include <vector>
#include <cstdio>
#include <cstdlib>
int mdl_ffts = 0;
int (*mdl_fft_hook)(int kind, int sign, void *in, void *out) = nullptr; // a harness may stand in for the transform
namespace {
struct Plan { int kind, sign; bool tout, tin; size_t n0, n1, n2; void *in, *out; };
// exp(2 pi i k/n), exact for the quarter turns
std::complex<double> tw(size_t k, size_t n) {
  k %= n; if (4 * k % n == 0) { static const double c[4] = {1, 0, -1, 0}, s[4] = {0, 1, 0, -1}; size_t q = 4 * k / n; return {c[q], s[q]}; }
  double a = 2 * M_PI * (double)k / (double)n; return {std::cos(a), std::sin(a)};
}
template <class T> struct Cx { T r, i; };
template <class T> void axis(std::vector<Cx<T>> &a, size_t cnt, size_t n, size_t stride, size_t outer, size_t ostr, int sign) {
  std::vector<Cx<T>> b(n);
  for (size_t o = 0; o < outer; o++) for (size_t c = 0; c < cnt; c++) {
    size_t base = o * ostr + c;
    for (size_t k = 0; k < n; k++) { T r = 0, i = 0; for (size_t x = 0; x < n; x++) { auto w = tw(k * x, n); T wr = (T)w.real(), wi = (T)(sign * w.imag()); Cx<T> &q = a[base + x * stride]; r += wr * q.r - wi * q.i; i += wr * q.i + wi * q.r; } b[k] = {r, i}; }
    for (size_t k = 0; k < n; k++) a[base + k * stride] = b[k];
  }
}
template <class T> void exec(const Plan &p) {
  mdl_ffts++; if (mdl_fft_hook && mdl_fft_hook(p.kind, p.sign, p.in, p.out)) return;
  const size_t A = p.n0, B = p.n1, X = p.n2, H = X / 2 + 1; const bool tr = p.tout || p.tin;
  const size_t nc = p.kind == 0 ? X : H; // complex row length
  std::vector<Cx<T>> a(A * B * X);
  auto cidx = [&](size_t z, size_t y, size_t x, bool t) { return (t ? y * A + z : z * B + y) * nc + x; };
  const T *in = (const T *)p.in; T *out = (T *)p.out;
  // load (row-major z,y,x work array)
  for (size_t z = 0; z < A; z++) for (size_t y = 0; y < B; y++) for (size_t x = 0; x < X; x++) {
    Cx<T> &q = a[(z * B + y) * X + x];
    if (p.kind == 0) { size_t k = cidx(z, y, x, p.tin); q = {in[2 * k], in[2 * k + 1]}; }
    else if (p.kind == 1) q = {in[(z * B + y) * 2 * H + x], (T)0};
    else if (x < H) { size_t k = cidx(z, y, x, p.tin); q = {in[2 * k], in[2 * k + 1]}; }
    else { size_t k = cidx((A - z) % A, (B - y) % B, X - x, p.tin); q = {in[2 * k], -in[2 * k + 1]}; }
  }
  (void)tr;
  axis(a, 1, X, 1, A * B, X, p.sign);
  axis(a, X, B, X, A, B * X, p.sign);
  axis(a, B * X, A, B * X, 1, 0, p.sign);
  for (size_t z = 0; z < A; z++) for (size_t y = 0; y < B; y++) for (size_t x = 0; x < X; x++) {
    Cx<T> &q = a[(z * B + y) * X + x];
    if (p.kind == 2) out[(z * B + y) * 2 * H + x] = q.r;
    else if (x < nc) { size_t k = cidx(z, y, x, p.tout); out[2 * k] = q.r; out[2 * k + 1] = q.i; }
  }
}
Plan *mk(int kind, int sign, ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, void *i, void *o, unsigned f) { return new Plan{kind, sign, (f & FFTW_MPI_TRANSPOSED_OUT) != 0, (f & FFTW_MPI_TRANSPOSED_IN) != 0, (size_t)a, (size_t)b, (size_t)c, i, o}; }
}
#define API(P, T) \
extern "C" { \
P##plan P##mpi_plan_dft_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, P##complex *i, P##complex *o, MPI_Comm, int s, unsigned f) { return (P##plan)mk(0, s, a, b, c, i, o, f); } \
P##plan P##mpi_plan_dft_r2c_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, T *i, P##complex *o, MPI_Comm, unsigned f) { return (P##plan)mk(1, -1, a, b, c, i, o, f); } \
P##plan P##mpi_plan_dft_c2r_3d(ptrdiff_t a, ptrdiff_t b, ptrdiff_t c, P##complex *i, T *o, MPI_Comm, unsigned f) { return (P##plan)mk(2, 1, a, b, c, i, o, f); } \
void P##execute(const P##plan p) { exec<T>(*(Plan *)p); } \
void P##destroy_plan(P##plan p) { delete (Plan *)p; } \
void P##flops(const P##plan, double *a, double *m, double *f) { *a = *m = *f = 0; } \
int P##init_threads(void) { return 1; } void P##plan_with_nthreads(int) {} void P##mpi_init(void) {} void P##mpi_cleanup(void) {} void P##cleanup(void) {} void P##cleanup_threads(void) {} \
int P##import_wisdom_from_filename(const char *) { return 0; } int P##export_wisdom_to_filename(const char *) { return 1; } void P##mpi_gather_wisdom(MPI_Comm) {} void P##mpi_broadcast_wisdom(MPI_Comm) {} \
}
API(fftw_, double)
API(fftwf_, float)
