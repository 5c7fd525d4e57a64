// String plaquettes and domain walls: flags, counts, chirality and the list of string positions.
#include "common.h"
#include "../models/mpimodel.h"
#include <algorithm>
#include "strings/strings.h"
extern "C" { extern const long *mdl_otherl; }
static const long others[1] = {17};
template <class T> static void run() {
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), N = n * n * lz; const int pos = __sym_param("pos", 0), mask = __sym_param("mask", 0), bg = __sym_param("bg", 0);
  // one of several processes: the slice above belongs to the neighbour, the others found 17 of everything
  const int ranks = __sym_param("ranks", 1); mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; const long oth = ranks > 1 ? others[0] : 0;
  if (ranks > 1) { mdl_mpi_record = 1; mdl_otherl = others; }
  const size_t NG = N + (ranks > 1 ? n * n : 0);
  Cosmos *c = mkCosmos();
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_SAXION, false, ng);
  const size_t sh = f->DataAlign() / (2 * sizeof(T)); const int fold = __sym_param("fold", 1);
  f->setFolded(fold);
  std::complex<T> *m = (std::complex<T> *)f->mStart();
  std::vector<double> X(NG), Y(NG);
  const long s1 = __sym_param("site", 0), s2 = __sym_param("site2", -1), s3 = __sym_param("site3", -1);
  unsigned rs = 12345 + 977 * bg;
  for (size_t i = 0; i < NG; i++) {
    rs = rs * 1664525u + 1013904223u; int a = (int)(rs >> 24) - 128; rs = rs * 1664525u + 1013904223u; int b = (int)(rs >> 24) - 128;
    size_t x = i % n, y = i / n % n, z = i / n / n;
    if (bg == 9) { a = 64 + (int)(x * 3 + y * 5 + z * 7) ; b = 3 + (int)((x + 2 * y + 3 * z) % 4); } // no defects
    double re = (2 * a + 1) / 128., im = (2 * b + 1) / 128.;
    if ((long)i == s1 || (long)i == s2 || (long)i == s3) { re = (T)__sym_real_i("re", i, -2, 2); im = (T)__sym_real_i("im", i, -2, 2); }
    X[i] = re; Y[i] = im; m[flat(n, sh, fold, x, y, z)] = std::complex<T>((T)re, (T)im);
  }
  auto at = [&](size_t x, size_t y, size_t z) { if (ranks == 1) z %= lz; return (z * n + y % n) * n + x % n; };
  // The oriented crossing of the negative real axis on the edge a->b: +1 when the phase runs anticlockwise
  // through it. General position only: no site on the real axis, no edge through the origin.
  auto cross = [&](size_t a, size_t b) {
    __sym_assume(Y[a] != 0); __sym_assume(Y[b] != 0);
    if ((Y[a] > 0) == (Y[b] > 0)) return 0;
    double re = X[a] * (Y[a] > 0 ? -Y[b] : Y[b]) + X[b] * (Y[a] > 0 ? Y[a] : -Y[a]); // same sign as the real part at the crossing
    __sym_assume(re != 0);
    return re > 0 ? 0 : Y[a] > 0 ? 1 : -1;
  };
  std::vector<int> E[3]; // x-, y-, z-edges
  for (int d = 0; d < 3; d++) { E[d].resize(NG); for (size_t i = 0; i < (d == 2 ? N : NG); i++) { size_t x = i % n, y = i / n % n, z = i / n / n; E[d][i] = cross(i, at(x + (d == 0), y + (d == 1), z + (d == 2))); } }
  StringData r = pos ? strings2(f) : strings(f);
  long ns = 0, nc = 0, nw = 0; std::vector<unsigned> list; const char *s = (const char *)f->sData(); const int rank = mdl_rank;
  static const int pf[3] = {STRING_XY_POSITIVE, STRING_YZ_POSITIVE, STRING_ZX_POSITIVE}, nf[3] = {STRING_XY_NEGATIVE, STRING_YZ_NEGATIVE, STRING_ZX_NEGATIVE};
  for (size_t i = 0; i < N; i++) {
    size_t x = i % n, y = i / n % n, z = i / n / n; int want = 0;
    for (int p = 0; p < 3; p++) {
      int u = p, v = (p + 1) % 3; // plaquette spanned by directions u, v
      int w = E[u][i] + E[v][at(x + (u == 0), y + (u == 1), z + (u == 2))] - E[u][at(x + (v == 0), y + (v == 1), z + (v == 2))] - E[v][i];
      if (w) { want |= w < 0 ? pf[p] : nf[p]; ns++; nc -= w; list.push_back(((2 * x + (u == 0 || v == 0)) * 512 + 2 * y + (u == 1 || v == 1)) * 512 + 2 * (z + rank * lz) + (u == 2 || v == 2)); }
      if (E[u][i]) { want |= STRING_WALL; }
    }
    nw += (want & STRING_WALL) != 0;
    __sym_check((s[i] & STRING_DEFECT) == want, "flags of the site");
  }
  __sym_check((long)r.strDen == ns + oth && (long)r.strDen_local == ns, "number of string plaquettes");
  __sym_check((long)r.strChr == nc + oth && (long)r.strChr_local == nc, "net chirality");
  __sym_check((long)r.wallDn == nw + oth && (long)r.wallDn_local == nw, "number of wall sites");
  if (pos) {
    const unsigned short *p = (const unsigned short *)f->m2Cpu(); std::vector<unsigned> got;
    for (long i = 0; i < ns; i++) got.push_back((p[3 * i] * 512u + p[3 * i + 1]) * 512u + p[3 * i + 2]);
    std::sort(got.begin(), got.end()); std::sort(list.begin(), list.end());
    __sym_check(got == list, "list of string positions");
    __sym_check(f->m2Status() == M2_STRINGCOO, "m2 holds the positions");
  }
  if (mask) {
    char *sw = (char *)f->sData(); for (size_t i = 0; i < N; i++) if (i % 3 == 1) sw[i] |= STRING_MASK;
    stMaskToCM2(f); std::complex<T> *q = (std::complex<T> *)f->m2Cpu();
    for (size_t i = 0; i < N; i++) __sym_check(q[i] == std::complex<T>(i % 3 == 1, i % 3 == 1), "mask copied to m2");
  }
  __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads); __sym_races(1);
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
}
