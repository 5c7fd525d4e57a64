// SIMD sine / cosine and lane helpers: the real bodies in utils/triSimd.h, renamed so that the engine executes
// them instead of replacing them by the exact function, as it does in every other harness.
#include <cmath>
#include <cstdio>
#include <cstdint>
#define sin_pd vsin_pd
#define cos_pd vcos_pd
#define sin_ps vsin_ps
#define cos_ps vcos_ps
#include "utils/triSimd.h"
#undef sin_pd
#undef cos_pd
#undef sin_ps
#undef cos_ps
#include "common.h"
static const double PL = 1.2246467991473532e-16; // pi - M_PI
static const double P1 = 823549. / 262144, P2 = (double)(long)((M_PI - P1) * 274877906944.) / 274877906944., P3 = M_PI - P1 - P2; // n * Pk is exact
static double psin(double y) { // sin over [-pi/2, pi/2]
  double y2 = y * y, r = 0;
  double c[13]; c[0] = 1; double fact = 1; for (int k = 1; k < 13; k++) { fact *= (2. * k) * (2. * k + 1); c[k] = (k & 1 ? -1. : 1.) / fact; }
  for (int k = 12; k >= 0; k--) r = r * y2 + c[k];
  return r * y; }
template <class T, int L> struct vec { T v[L]; };
extern "C" void harness() {
  const int fn = __sym_param("fn", 0), dbl = __sym_param("dbl", 1), st = __sym_param("stride", 1); const long q0 = __sym_param("q", 0);
  const double w = __sym_param("w", 499990) * 1e-6; // y in [-w pi, w pi]
  const int L = dbl ? 4 : 8; alignas(32) double xd[4], rd[4]; alignas(32) float xf[8], rf[8]; double y[8], e[8];
  if (fn < 2) {
    for (int k = 0; k < L; k++) {
      long q = q0 + k * st; y[k] = __sym_real_i("y", k, -w * M_PI, w * M_PI);
      double n = (double)q + (fn ? 0.5 : 0.0), x = y[k] + n * P1; x += n * P2; x += n * P3; x += n * PL; // cos is reduced about odd multiples of pi/2
      double s = psin(y[k]); bool odd = q & 1; e[k] = fn ? (odd ? s : -s) : (odd ? -s : s);
      if (dbl) xd[k] = x; else xf[k] = (float)x; }
    if (dbl) { __m256d r = fn ? _mm256_vcos_pd(_mm256_load_pd(xd)) : _mm256_vsin_pd(_mm256_load_pd(xd)); _mm256_store_pd(rd, r); for (int k = 0; k < L; k++) __sym_eq(rd[k], e[k], 1, fn ? "cos_pd" : "sin_pd", k); }
    else { __m256 r = fn ? _mm256_vcos_ps(_mm256_load_ps(xf)) : _mm256_vsin_ps(_mm256_load_ps(xf)); _mm256_store_ps(rf, r); for (int k = 0; k < L; k++) __sym_eq(rf[k], e[k], 20, fn ? "cos_ps" : "sin_ps", k); }
  }
  __sym_reach("end"); }
