// Halo exchange between ranks (ring along z): every ghost slice ends up with the neighbour's boundary slices.
#include "common.h"
#include "../models/mpimodel.h"
#define NR 3
#define D(k) void *gr_make##k(size_t, size_t, int, int, int, int); void *gr_ptr##k(int); void gr_send##k(int, int, int, int); void gr_exch##k(int); void gr_gen##k(int, size_t, void *, void *, void *, void *); size_t gr_size##k(int);
D(0) D(1) D(2)
static void *(*mk[NR])(size_t, size_t, int, int, int, int) = {gr_make0, gr_make1, gr_make2};
static void *(*ptr[NR])(int) = {gr_ptr0, gr_ptr1, gr_ptr2};
static void (*snd[NR])(int, int, int, int) = {gr_send0, gr_send1, gr_send2};
static void (*gen[NR])(int, size_t, void *, void *, void *, void *) = {gr_gen0, gr_gen1, gr_gen2};
template <class T> static void run() {
  const int R = __sym_param("ranks", 2), what = __sym_param("what", 0), how = __sym_param("how", 0), tsel = __sym_param("type", 0), type = tsel == 2 ? FIELD_PAXION : tsel ? FIELD_AXION : FIELD_SAXION, ord = __sym_param("ord", 0), ngr = __sym_param("ngr", -1);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), nc = type == FIELD_SAXION ? 2 : 1, S = n * n * nc, g = ngr > 0 ? ngr : ng;
  mdl_size = R;
  for (int r = 0; r < R; r++) { mdl_rank = r; mk[r](n, lz, sizeof(T) == 8, type, ng, 0); }
  if (what == 9) {   // message splitting for an arbitrary number of bytes (nothing is copied)
    mdl_mpi_record = 1; size_t cnt = __sym_int("bytes", 1, 21474835840L - 1); char *a = (char *)0x100000000000L, *b = (char *)0x200000000000L, *c = (char *)0x300000000000L, *d = (char *)0x400000000000L;
    mdl_rank = 0; gen[0](COMM_SDRV, cnt, a, b, c, d);
    char *base[4] = {a, b, c, d}; size_t at[4] = {0, 0, 0, 0};
    for (int i = 0; i < mdl_nrec; i++) { MdlRec &q = mdl_rec[i]; int k = (int)((size_t)q.buf >> 44) - 1; __sym_check(k >= 0 && k < 4 && q.buf == base[k] + at[k], "pieces are consecutive"); __sym_check(q.n > 0, "piece size positive"); at[k] += q.n; __sym_check(q.send == (k == 0 || k == 2), "direction"); }
    for (int k = 0; k < 4; k++) __sym_check(at[k] == cnt, "pieces add up to the message");
    __sym_reach("end"); return;
  }
  const FieldIndex fld = what == 0 ? FIELD_M : what == 1 ? FIELD_V : FIELD_M2;
  std::vector<std::vector<T>> A(R);
  for (int r = 0; r < R; r++) { A[r].resize(S * lz); T *p = (T *)ptr[r](3 + what); char nm[8] = "f0"; nm[1] = '0' + r; for (size_t i = 0; i < S * lz; i++) p[i] = A[r][i] = __sym_real_i(nm, i, -4, 4); }
  // phases in an arbitrary rank order: every rank posts, then every rank waits
  int o[NR]; for (int r = 0; r < R; r++) o[r] = (ord & 1) ? R - 1 - r : (r + ord / 2) % R;
  const int split = __sym_param("split", 0);
  if (how == 2) { mdl_rank = 0; gr_exch0(fld); }
  else if (split) { for (int r = 0; r < R; r++) { mdl_rank = o[r]; snd[o[r]](fld, COMM_SEND, how, ngr); } for (int r = 0; r < R; r++) { mdl_rank = o[R - 1 - r]; snd[o[R - 1 - r]](fld, COMM_RECV, how, ngr); } }
  else for (int r = 0; r < R; r++) { mdl_rank = o[r]; snd[o[r]](fld, COMM_SDRV, how, ngr); }
  if (how != 2) for (int r = 0; r < R; r++) { int k = o[R - 1 - r]; mdl_rank = k; snd[k](fld, COMM_WAIT, how, ngr); }
  for (int r = 0; r < R; r++) {
    int f = (r + 1) % R, b = (r + R - 1) % R; const T *p = (const T *)ptr[r](3 + what);
    for (size_t i = 0; i < S * lz; i++) __sym_eq(p[i], A[r][i], 1, "own slices untouched", i);
    for (size_t s = 0; s < g; s++) for (size_t i = 0; i < S; i++) {
      // the g ghost slices right below the first and right above the last own slice
      __sym_eq(p[(long)(s * S + i) - (long)(g * S)], A[b][(lz - g + s) * S + i], 1, "slices below come from the previous rank", s * S + i);
      __sym_eq(p[(lz + s) * S + i], A[f][s * S + i], 1, "slices above come from the next rank", s * S + i); }
  }
  __sym_check(mdl_pending() == 0, "no message left over");
  __sym_reach("end");
}
extern "C" void harness() { if (__sym_param("dbl", 0)) run<double>(); else run<float>(); }
