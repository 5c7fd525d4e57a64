// MPI model: collectives of a single-rank world copy; point-to-point messages go through FIFO queues
// keyed by (source, destination, tag), delivered in order, as the MPI standard guarantees.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "base.h"
#include "mpimodel.h"
extern "C" {
void __sym_check(int c, const char *label);
void __sym_note(const char *);
#define T(n) long ompi_mpi_##n[64];
T(comm_world) T(comm_self) T(comm_null) T(byte) T(char) T(signed_char) T(unsigned_char) T(short) T(int) T(long) T(unsigned) T(unsigned_long) T(unsigned_short) T(long_long_int) T(unsigned_long_long) T(float) T(double) T(cxx_bool) T(cxx_cplex) T(cxx_dblcplex) T(c_bool) T(c_float_complex) T(c_double_complex) T(datatype_null) T(info_null) T(group_null) T(request_null)
T(op_sum) T(op_max) T(op_min) T(op_land) T(op_lor) T(op_prod) T(op_band) T(op_bor)
T(uint64_t) T(int64_t) T(uint32_t) T(int32_t) T(int8_t) T(uint8_t) T(int16_t) T(uint16_t)
static size_t tsize(const void *t) {
  if (t == ompi_mpi_float || t == ompi_mpi_int || t == ompi_mpi_unsigned || t == ompi_mpi_uint32_t || t == ompi_mpi_int32_t) return 4;
  if (t == ompi_mpi_byte || t == ompi_mpi_char || t == ompi_mpi_unsigned_char || t == ompi_mpi_signed_char || t == ompi_mpi_cxx_bool || t == ompi_mpi_c_bool || t == ompi_mpi_int8_t || t == ompi_mpi_uint8_t) return 1;
  if (t == ompi_mpi_short || t == ompi_mpi_unsigned_short || t == ompi_mpi_int16_t || t == ompi_mpi_uint16_t) return 2;
  if (t == ompi_mpi_cxx_dblcplex || t == ompi_mpi_c_double_complex) return 16;
  return 8;
}
#define INPLACE ((void *)1)
static int coll(const void *s, void *r, int n, const void *t) { if (s != INPLACE && r && s != r && n > 0) memcpy(r, s, tsize(t) * (size_t)n); return 0; }
// What the other ranks contribute to a collective over all of them, by the type of the elements.
const double *mdl_others = nullptr, *mdl_othermax = nullptr, *mdl_othermin = nullptr;
const long *mdl_otherl = nullptr;
int MPI_Allreduce(const void *s, void *r, int n, void *t, void *op, void *) {
  int e = coll(s, r, n, t);
  const bool f = t == ompi_mpi_float, d = t == ompi_mpi_double, l = t == ompi_mpi_long || t == ompi_mpi_unsigned_long || t == ompi_mpi_uint64_t || t == ompi_mpi_int64_t;
  for (int i = 0; i < n; i++) {
    if (op == ompi_mpi_op_sum) {
      if (f && mdl_others) ((float *)r)[i] += (float)mdl_others[i];
      if (d && mdl_others) ((double *)r)[i] += mdl_others[i];
      if (l && mdl_otherl) ((long *)r)[i] += mdl_otherl[i];
    }
    if (op == ompi_mpi_op_max) {
      if (d && mdl_othermax && mdl_othermax[i] > ((double *)r)[i]) ((double *)r)[i] = mdl_othermax[i];
      if (l && mdl_otherl && mdl_otherl[i] > ((long *)r)[i]) ((long *)r)[i] = mdl_otherl[i];
    }
    if (op == ompi_mpi_op_min && d && mdl_othermin && mdl_othermin[i] < ((double *)r)[i]) ((double *)r)[i] = mdl_othermin[i];
  }
  return e;
}
// With mdl_reduce set the ranks of one collective run one after another, the root last: the others leave their part behind.
int mdl_reduce = 0; static void *rstash[64]; static int nst = 0;
int MPI_Reduce(const void *s, void *r, int n, void *t, void *, int root, void *) {
  if (!mdl_reduce || mdl_size == 1) return coll(s, r, n, t);
  if (mdl_rank != root) { rstash[nst] = malloc(tsize(t) * (size_t)n); memcpy(rstash[nst++], s, tsize(t) * (size_t)n); return 0; }
  if (nst != mdl_size - 1) __sym_check(0, "every rank takes part in the reduction");
  coll(s, r, n, t);
  for (int k = 0; k < nst; k++) { if (tsize(t) == 4) for (int i = 0; i < n; i++) ((float *)r)[i] += ((float *)rstash[k])[i]; else for (int i = 0; i < n; i++) ((double *)r)[i] += ((double *)rstash[k])[i]; free(rstash[k]); }
  nst = 0; return 0;
}
int MPI_Gather(const void *s, int n, void *t, void *r, int, void *, int, void *) { return coll(s, r, n, t); }
// Integers the other ranks contribute to a gathering of one each (own place filled from this rank), and the roots of the broadcasts so far.
const int *mdl_gathered = nullptr; int mdl_roots[256], mdl_nroots = 0;
int MPI_Allgather(const void *s, int n, void *t, void *r, int, void *, void *) {
  if (mdl_gathered && n == 1 && tsize(t) == 4) { for (int i = 0; i < mdl_size; i++) ((int *)r)[i] = i == mdl_rank ? *(const int *)s : mdl_gathered[i]; return 0; }
  return coll(s, r, n, t);
}
int MPI_Bcast(void *, int, void *, int root, void *) { if (mdl_nroots < 256) mdl_roots[mdl_nroots++] = root; return 0; }
int MPI_Barrier(void *) { return 0; }
int MPI_Comm_rank(void *, int *r) { *r = mdl_rank; return 0; }
int MPI_Comm_size(void *, int *r) { *r = mdl_size; return 0; }
int MPI_Type_size(void *t, int *s) { *s = (int)tsize(t); return 0; }
int MPI_Finalized(int *f) { *f = 0; return 0; }
int MPI_Finalize() { return 0; }
double MPI_Wtime() { return 0; }
int MPI_Abort(void *, int c) { exit(c); }

void (*mdl_fill)(void *, size_t, int, int) = nullptr; int mdl_mpi_record = 0, mdl_nrec = 0; MdlRec mdl_rec[256];
struct Msg { char *data; size_t n; int src, dst, tag; bool used; };
struct Req { void *buf; size_t n; int peer, tag; bool send, active; };
#define NM 4096
static Msg *msgs[NM]; static int nmsg = 0;
int mdl_pending() { int k = 0; for (int i = 0; i < nmsg; i++) k += !msgs[i]->used; return k; }
static void put(const void *b, size_t n, int dst, int tag) {
  if (nmsg >= NM) { __sym_note("message table full"); exit(97); }
  Msg *m = (Msg *)malloc(sizeof(Msg)); m->data = (char *)malloc(n ? n : 1); m->n = n; m->src = mdl_rank; m->dst = dst; m->tag = tag; m->used = false;
  if (n) memcpy(m->data, b, n); msgs[nmsg++] = m;
}
static Msg *find(int src, int tag) { for (int i = 0; i < nmsg; i++) { Msg *m = msgs[i]; if (!m->used && m->dst == mdl_rank && (src < 0 || m->src == src) && (tag < 0 || m->tag < 0 || m->tag == tag)) return m; } return 0; }
// status layout of Open MPI: MPI_SOURCE, MPI_TAG, MPI_ERROR, _cancelled, _ucount
struct St { int src, tag, err, canc; size_t ucount; };
static int get(void *b, size_t n, int src, int tag, St *st) {
  Msg *m = find(src, tag); __sym_check(m != 0, "receive has a matching message");
  if (!m) return 1;
  __sym_check(m->n <= n, "message fits the receive buffer");
  size_t k = m->n < n ? m->n : n; if (k) memcpy(b, m->data, k);
  m->used = true; if (st && (long)st > 1) { st->src = m->src; st->tag = m->tag; st->err = 0; st->canc = 0; st->ucount = k; }
  free(m->data); m->data = 0; return 0;
}
int MPI_Send_init(const void *b, int n, void *t, int dst, int tag, void *, Req **rq) { __sym_check(n >= 0, "message count not negative"); Req *r = (Req *)malloc(sizeof(Req)); r->buf = (void *)b; r->n = tsize(t) * (size_t)(n < 0 ? 0 : n); r->peer = dst; r->tag = tag; r->send = true; r->active = false; *rq = r; return 0; }
int MPI_Recv_init(void *b, int n, void *t, int src, int tag, void *, Req **rq) { __sym_check(n >= 0, "message count not negative"); Req *r = (Req *)malloc(sizeof(Req)); r->buf = b; r->n = tsize(t) * (size_t)(n < 0 ? 0 : n); r->peer = src; r->tag = tag; r->send = false; r->active = false; *rq = r; return 0; }
int MPI_Start(Req **rq) { Req *r = *rq; r->active = true; if (mdl_mpi_record) { if (mdl_nrec < 256) { MdlRec *q = &mdl_rec[mdl_nrec]; q->buf = r->buf; q->n = r->n; q->peer = r->peer; q->tag = r->tag; q->send = r->send; } mdl_nrec++; return 0; } if (r->send) put(r->buf, r->n, r->peer, r->tag); return 0; }
int MPI_Wait(Req **rq, void *st) { Req *r = *rq; if (mdl_mpi_record) { if (mdl_fill && r->active && !r->send) mdl_fill(r->buf, r->n, r->peer, r->tag); r->active = false; return 0; } if (r->active && !r->send) get(r->buf, r->n, r->peer, r->tag, (St *)st); r->active = false; return 0; }
int MPI_Waitall(int n, Req **rq, void *) { for (int i = 0; i < n; i++) MPI_Wait(rq + i, 0); return 0; }
int MPI_Test(Req **rq, int *flag, void *st) { Req *r = *rq; if (r->active && !r->send) { if (!find(r->peer, r->tag)) { *flag = 0; return 0; } get(r->buf, r->n, r->peer, r->tag, (St *)st); } r->active = false; *flag = 1; return 0; }
int MPI_Request_free(Req **rq) { free(*rq); *rq = 0; return 0; }
int MPI_Send(const void *b, int n, void *t, int dst, int tag, void *) { put(b, tsize(t) * (size_t)n, dst, tag); return 0; }
int MPI_Isend(const void *b, int n, void *t, int dst, int tag, void *, Req **rq) { put(b, tsize(t) * (size_t)n, dst, tag); Req *r = (Req *)malloc(sizeof(Req)); r->send = true; r->active = false; *rq = r; return 0; }
int MPI_Irecv(void *b, int n, void *t, int src, int tag, void *c, Req **rq) { MPI_Recv_init(b, n, t, src, tag, c, rq); (*rq)->active = true; return 0; }
int MPI_Recv(void *b, int n, void *t, int src, int tag, void *, void *st) { return get(b, tsize(t) * (size_t)n, src, tag, (St *)st); }
int MPI_Iprobe(int src, int tag, void *, int *flag, St *st) { Msg *m = find(src, tag); *flag = m != 0; if (m && st && (long)st > 1) { st->src = m->src; st->tag = m->tag; st->ucount = m->n; } return 0; }
int MPI_Probe(int src, int tag, void *c, St *st) { int f; MPI_Iprobe(src, tag, c, &f, st); __sym_check(f, "probe has a matching message"); return 0; }
int MPI_Get_count(const St *st, void *t, int *n) { *n = (int)(st->ucount / tsize(t)); return 0; }
}
