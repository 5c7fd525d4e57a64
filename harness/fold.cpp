// Folding: natural (x fastest) order <-> vector order; round trips; 2-D slice extraction.
#include "common.h"
#include "scalar/folder.h"
template <class F> static void run(int cplx) {
  const size_t n = __sym_param("n", 8), lz = __sym_param("lz", 3), ng = __sym_param("ng", 1); const int what = __sym_param("what", 0);
  mdl_threads = __sym_param("th", 2);
  FieldType t = cplx ? FIELD_SAXION : (__sym_param("type", 0) == 1 ? FIELD_PAXION : FIELD_AXION);
  Scalar *f = mkScalar(mkCosmos(), n, lz, sizeof(F) == 8, t, false, ng);
  const size_t nc = cplx ? 2 : 1, n2 = n * n, N = n2 * lz, sh = f->Shift();
  F *m = (F *)f->mStart(), *v = (F *)f->vStart(), *m2 = (F *)f->m2Start();
  std::vector<F> M(N * nc), V(N * nc), W(N * nc);
  for (size_t i = 0; i < N * nc; i++) { M[i] = __sym_real_i("m", i, -4, 4); V[i] = __sym_real_i("v", i, -4, 4); W[i] = __sym_real_i("w", i, -4, 4); }
  for (size_t i = 0; i < N * nc; i++) { m[i] = M[i]; v[i] = V[i]; m2[i] = W[i]; }
  Folder fold(f);
  auto cmp = [&](bool folded, const char *lm, const char *lv) {
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (size_t c = 0; c < nc; c++) {
      size_t a = flat(n, sh, folded, x, y, z) * nc + c, b = flat(n, sh, false, x, y, z) * nc + c;
      __sym_eq(m[a], M[b], 1, lm, (long)b); __sym_eq(v[a], V[b], 1, lv, (long)b);
    } };
  auto cmp2 = [&](bool folded, const char *l) {
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (size_t c = 0; c < nc; c++)
      __sym_eq(m2[flat(n, sh, folded, x, y, z) * nc + c], W[flat(n, sh, false, x, y, z) * nc + c], 1, l, (long)flat(n, sh, false, x, y, z)); };
  if (what == 0) {          // fold, idempotence, unfold
    fold(FOLD_ALL); __sym_check(f->Folded(), "folded flag set"); cmp(true, "fold m", "fold v");
    fold(FOLD_ALL); cmp(true, "fold twice m", "fold twice v");
    fold(UNFOLD_ALL); __sym_check(!f->Folded(), "folded flag cleared"); cmp(false, "unfold m", "unfold v");
    fold(UNFOLD_ALL); cmp(false, "unfold twice m", "unfold twice v");
    cmp2(false, "m2 untouched by fold");
  } else if (what == 1) {   // auxiliary field
    fold(FOLD_M2); __sym_check(f->M2Folded() && !f->Folded(), "only the m2 flag set"); cmp2(true, "fold m2");
    fold(UNFOLD_M2); __sym_check(!f->M2Folded(), "m2 flag cleared"); cmp2(false, "unfold m2"); cmp(false, "m untouched by fold m2", "v untouched by fold m2");
  } else if (what == 2 || what == 3) {   // slice extraction, folded and not
    if (what == 3) fold(FOLD_ALL);
    for (size_t s = 0; s < lz; s++) {
      fold(UNFOLD_SLICE, s);
      F *a = (F *)f->mFrontGhost(), *b = (F *)f->mBackGhost();
      for (size_t i = 0; i < n2 * nc; i++) { __sym_eq(a[i], M[s * n2 * nc + i], 1, "z slice m", i); __sym_eq(b[i], V[s * n2 * nc + i], 1, "z slice v", i); }
    }
    cmp(what == 3, "m untouched by slicing", "v untouched by slicing");
  } else if (what == 4 || what == 5) {
    if (what == 5) fold(FOLD_ALL);
    for (size_t s = 0; s < n; s++) {
      fold(UNFOLD_SLICEYZ, s);
      F *a = (F *)f->mFrontGhost(), *b = (F *)f->mBackGhost();
      for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t c = 0; c < nc; c++) {
        size_t o = ((z * n + y) * n + s) * nc + c, i = (z * n + y) * nc + c;
        __sym_eq(a[i], M[o], 1, "x slice m", i); __sym_eq(b[i], V[o], 1, "x slice v", i);
      }
    }
    cmp(what == 5, "m untouched by x slicing", "v untouched by x slicing");
  } else if (what == 6 || what == 7) {
    if (what == 7) fold(FOLD_M2);
    for (size_t s = 0; s < lz; s++) { fold(UNFOLD_SLICEM2, s); F *a = (F *)f->m2FrontGhost(); for (size_t i = 0; i < n2 * nc; i++) __sym_eq(a[i], W[s * n2 * nc + i], 1, "z slice m2", i); }
    cmp2(what == 7, "m2 untouched by slicing");
  }
  __sym_reach("end");
}
extern "C" void harness() {
  int c = __sym_param("cplx", 1);
  if (__sym_param("dbl", 0)) run<double>(c); else run<float>(c);
}
