// Histogram: every datum lands in exactly one bin, the right one; find<> returns the extremes.
#include "common.h"
#include "comms/comms.h"
#include "utils/utils.h"
#include "utils/binner.h"
extern "C" { extern const double *mdl_others, *mdl_othermax, *mdl_othermin; extern int mdl_size, mdl_rank; }
static double omax, omin, ocnt[16];
template <size_t NB, class T> static void run() {
  const size_t n = __sym_param("data", 4), pad = __sym_param("pad", 0), dat = __sym_param("dat", 0); const int what = __sym_param("what", 0);
  const long free = __sym_param("free", 3);
  std::vector<T> x(n);
  // the first `free` entries are symbolic, the rest pin the interval down when asked to
  for (size_t i = 0; i < n; i++) x[i] = (long)i < free ? (T)__sym_real_i("x", i, 0, 1) : (T)((i * 7 % 11) / 11.0);
  if (__sym_param("pin", 0)) { x[0] = 0; x[n - 1] = 1; if (pad) { x[dat - 1] = 1; x[n - 1] = 1e6; x[dat] = -1e6; } }
  auto filt = what == 1 ? std::function<double(T)>([](T v) { return 2 * (double)v - 1; }) : std::function<double(T)>([](T v) { return (double)v; });
  std::vector<double> y; for (size_t i = 0; i < n; i++) if (!pad || i % pad < dat) y.push_back(filt(x[i]));
  double mx = y[0], mn = y[0]; for (double v : y) { mx = v > mx ? v : mx; mn = v < mn ? v : mn; }
  // the other processes of a run: their extremes, and their share of every bin
  const int ranks = __sym_param("ranks", 1); mdl_size = ranks; mdl_rank = __sym_param("rank", 0);
  if (ranks > 1) { const int wide = __sym_param("wide", 0); omax = wide ? 2. : __sym_real_i("omax", 0, -1, 2); omin = wide ? -1. : __sym_real_i("omin", 0, -2, 1); __sym_assume(omin <= omax); mdl_othermax = &omax; mdl_othermin = &omin; mdl_others = ocnt;
    for (size_t j = 0; j < NB; j++) ocnt[j] = __sym_real_i("others", j, 0, 9);
    mx = omax > mx ? omax : mx; mn = omin < mn ? omin : mn; }
  if (what == 2) {
    double a = find<FIND_MAX, T>(x.data(), n, filt), b = find<FIND_MIN, T>(x.data(), n, filt);
    __sym_eq(a, mx, 1, "largest value", 0); __sym_eq(b, mn, 1, "smallest value", 0); __sym_reach("end"); return; }
  __sym_assume(mx - mn > 0.25);
  // stay away from the bin edges, where the rounding of the quotient decides
  const double st = (mx - mn) / (NB - 1);
  Binner<NB, T> b(x.data(), n, filt);
  if (pad) b.setpad(pad, dat);
  b.run();
  __sym_eq(b.max(), mx, 1, "upper end", 0); __sym_eq(b.min(), mn, 1, "lower end", 0);
  double sum = 0; std::vector<double> cnt(NB, 0);
  for (double v : y) { double q = (v - mn) / st + 0.5; for (size_t j = 0; j < NB; j++) cnt[j] += (q >= (double)j && q < (double)(j + 1)) ? 1.0 : 0.0; }
  for (size_t j = 0; j < NB; j++) { double g = b.data()[j] * (st * y.size() * ranks); __sym_eq(g, cnt[j] + (ranks > 1 ? ocnt[j] * (st * y.size() * ranks) : 0.), 1, "entries in bin", j); sum += g; }
  if (ranks == 1) __sym_eq(sum, (double)y.size(), 1, "every value binned once", 0);
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  switch (__sym_param("nb", 3)) { case 3: if (__sym_param("dbl", 1)) run<3, double>(); else run<3, float>(); break; default: if (__sym_param("dbl", 1)) run<5, double>(); else run<5, float>(); }
}
