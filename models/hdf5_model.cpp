// In-memory HDF5: files, groups, one-dimensional datasets with hyperslab selections, attributes, the numeric
// conversions of the library.  Calls that the library would refuse fail (negative result).  With mdl_h5_shared
// set, collective creation by a later rank opens what the first rank created.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <hdf5.h>
#include "base.h"
#include "h5model.h"
extern "C" {
void __sym_check(int c, const char *label);
void __sym_note(const char *);
enum { KFILE = 1, KGROUP, KDSET, KSPACE, KPLIST, KTYPE, KATTR };
struct Attr { char name[48]; int cls; size_t size; hsize_t n; char *data; Attr *next; };
struct Node { char file[96], path[96]; int kind, cls; size_t size; hsize_t n, maxn, row; char *data; int *wr; Attr *attrs; Node *next; };
struct Obj { int kind; bool open; Node *node; Attr *attr; hsize_t n, maxn, row, start, count, chunk; bool sel, none; int cls; size_t size; };
#define NO 4096
static Obj *objs[NO]; static int nobj = 1; static Node *nodes = 0;
int mdl_h5_shared = 0;
// 0: integer, 1: float, 2: string
hid_t H5T_NATIVE_DOUBLE_g = -101, H5T_NATIVE_FLOAT_g = -102, H5T_NATIVE_INT_g = -103, H5T_NATIVE_UINT_g = -104, H5T_NATIVE_HSIZE_g = -105, H5T_C_S1_g = -106, H5T_NATIVE_SCHAR_g = -107, H5T_NATIVE_UCHAR_g = -108, H5T_NATIVE_LLONG_g = -109, H5T_NATIVE_ULLONG_g = -110, H5T_NATIVE_LONG_g = -111, H5T_NATIVE_ULONG_g = -112, H5T_NATIVE_USHORT_g = -113, H5T_NATIVE_SHORT_g = -114, H5T_NATIVE_HSSIZE_g = -115;
hid_t H5P_CLS_FILE_ACCESS_ID_g = -201, H5P_CLS_DATASET_XFER_ID_g = -202, H5P_CLS_DATASET_CREATE_ID_g = -203, H5P_CLS_FILE_CREATE_ID_g = -204;
herr_t H5open() { return 0; } herr_t H5check_version(unsigned, unsigned, unsigned) { return 0; } herr_t H5garbage_collect() { return 0; }
static hid_t put(int kind, Node *n) { if (nobj >= NO) { __sym_note("HDF5 object table full"); exit(97); } Obj *o = (Obj *)calloc(1, sizeof(Obj)); o->kind = kind; o->open = true; o->node = n; objs[nobj] = o; return nobj++; }
static Obj *get(hid_t id, int kind) { if (id <= 0 || id >= nobj || !objs[id]->open || (kind && objs[id]->kind != kind)) return 0; return objs[id]; }
static herr_t shut(hid_t id, int kind) { Obj *o = get(id, kind); if (!o) return -1; o->open = false; return 0; }
int mdl_h5_open() { int k = 0; for (int i = 1; i < nobj; i++) k += objs[i]->open && objs[i]->kind != KPLIST && objs[i]->kind != KSPACE && objs[i]->kind != KTYPE; return k; }
static bool type(hid_t t, int *cls, size_t *size) {
  *cls = 0;
  switch (t) {
    case -101: *cls = 1; *size = 8; return true; case -102: *cls = 1; *size = 4; return true;
    case -103: case -104: *size = 4; return true; case -105: case -109: case -110: case -111: case -112: case -115: *size = 8; return true;
    case -106: *cls = 2; *size = 1; return true; case -107: case -108: *size = 1; return true; case -113: case -114: *size = 2; return true;
  }
  Obj *o = get(t, KTYPE); if (!o) return false; *cls = o->cls; *size = o->size; return true;
}
static bool conv(char *d, int dc, size_t ds, const char *s, int sc, size_t ss) {
  if (dc == sc && ds == ss) { memcpy(d, s, ds); return true; }
  if (dc != sc) return false;
  if (dc == 1) { if (ds == 8) { float f; memcpy(&f, s, 4); double x = f; memcpy(d, &x, 8); } else { double x; memcpy(&x, s, 8); float f = (float)x; memcpy(d, &f, 4); } return true; }
  if (dc == 2) { for (size_t i = 0; i < ds; i++) d[i] = i < ss ? s[i] : 0; return true; }
  for (size_t i = 0; i < ds; i++) d[i] = i < ss ? s[i] : 0; return true; // unsigned little endian
}
// absolute path of NAME relative to LOC
static bool loc(hid_t id, const char *name, char *file, char *path) {
  Obj *o = get(id, 0); if (!o || !o->node) return false; Node *n = o->node; strcpy(file, n->file); char b[200];
  if (name[0] == '/') strcpy(b, name); else if (!strcmp(name, ".")) strcpy(b, n->path); else { strcpy(b, n->path); if (b[strlen(b) - 1] != '/') strcat(b, "/"); strcat(b, name); }
  size_t L = strlen(b); while (L > 1 && b[L - 1] == '/') b[--L] = 0; if (L >= 96) return false; strcpy(path, b); return true;
}
static Node *find(const char *file, const char *path) { for (Node *n = nodes; n; n = n->next) if (!strcmp(n->file, file) && !strcmp(n->path, path)) return n; return 0; }
static Node *mk(const char *file, const char *path, int kind) { Node *n = (Node *)calloc(1, sizeof(Node)); strcpy(n->file, file); strcpy(n->path, path); n->kind = kind; n->next = nodes; nodes = n; return n; }
static bool parent(const char *file, const char *path) { char b[200]; strcpy(b, path); char *q = strrchr(b, '/'); if (!q) return false; if (q == b) return true; *q = 0; return find(file, b) != 0; }
hid_t H5Fcreate(const char *name, unsigned, hid_t, hid_t) {
  if (strlen(name) >= 96) return -1; Node *r = find(name, "/"); if (r && mdl_h5_shared && mdl_rank > 0) return put(KFILE, r);
  Node **p = &nodes; while (*p) if (!strcmp((*p)->file, name)) *p = (*p)->next; else p = &(*p)->next; // truncate
  return put(KFILE, mk(name, "/", KGROUP));
}
hid_t H5Fopen(const char *name, unsigned, hid_t) { Node *r = strlen(name) < 96 ? find(name, "/") : 0; return r ? put(KFILE, r) : -1; }
herr_t H5Fclose(hid_t i) { return shut(i, KFILE); }
herr_t H5Fflush(hid_t, H5F_scope_t) { return 0; }
hid_t H5Pcreate(hid_t) { return put(KPLIST, 0); }
herr_t H5Pclose(hid_t i) { return shut(i, KPLIST); }
herr_t H5Pset_chunk(hid_t i, int nd, const hsize_t *d) { Obj *o = get(i, KPLIST); if (!o || nd < 1 || !d[0]) return -1; hsize_t c = 1; for (int k = 0; k < nd; k++) c *= d[k]; o->chunk = c; return 0; }
herr_t H5Pset_fill_time(hid_t i, H5D_fill_time_t) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Pset_alloc_time(hid_t i, H5D_alloc_time_t) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Pset_fill_value(hid_t i, hid_t, const void *) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Pset_deflate(hid_t i, unsigned) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Pset_fapl_mpio(hid_t i, MPI_Comm, MPI_Info) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Pset_dxpl_mpio(hid_t i, H5FD_mpio_xfer_t) { return get(i, KPLIST) ? 0 : -1; }
herr_t H5Eget_auto2(hid_t, H5E_auto2_t *f, void **d) { *f = 0; *d = 0; return 0; }
herr_t H5Eset_auto2(hid_t, H5E_auto2_t, void *) { return 0; }
hid_t H5Tcopy(hid_t t) { int c; size_t s; if (!type(t, &c, &s)) return -1; hid_t i = put(KTYPE, 0); objs[i]->cls = c; objs[i]->size = s; return i; }
herr_t H5Tset_size(hid_t i, size_t s) { Obj *o = get(i, KTYPE); if (!o || !s) return -1; o->size = s; return 0; }
herr_t H5Tset_strpad(hid_t i, H5T_str_t) { return get(i, KTYPE) ? 0 : -1; }
herr_t H5Tclose(hid_t i) { return shut(i, KTYPE); }
hid_t H5Screate(H5S_class_t) { hid_t i = put(KSPACE, 0); objs[i]->n = objs[i]->maxn = 1; return i; }
hid_t H5Screate_simple(int nd, const hsize_t *d, const hsize_t *m) { if (nd < 1) return -1; hsize_t n = 1; for (int k = 0; k < nd; k++) n *= d[k]; hid_t i = put(KSPACE, 0); objs[i]->n = n; objs[i]->row = n / (d[0] ? d[0] : 1); objs[i]->maxn = m ? m[0] : n; return i; }
herr_t H5Sclose(hid_t i) { return shut(i, KSPACE); }
herr_t H5Sselect_hyperslab(hid_t i, H5S_seloper_t, const hsize_t *st, const hsize_t *str, const hsize_t *c, const hsize_t *blk) { Obj *o = get(i, KSPACE); if (!o || blk) return -1; const bool two = o->row > 1; // two dimensions: whole rows only
  if (str && (str[0] != 1 || (two && str[1] != 1))) return -1; if (two && (st[1] != 0 || c[1] != o->row)) return -1;
  o->sel = true; o->none = false; o->start = st[0] * (two ? o->row : 1); o->count = c[0] * (two ? o->row : 1); return 0; }
herr_t H5Sselect_none(hid_t i) { Obj *o = get(i, KSPACE); if (!o) return -1; o->none = true; o->sel = false; return 0; }
hid_t H5Gcreate2(hid_t l, const char *name, hid_t, hid_t, hid_t) { char f[96], p[200]; if (!loc(l, name, f, p) || !parent(f, p)) return -1; Node *n = find(f, p); if (n) return mdl_h5_shared && mdl_rank > 0 && n->kind == KGROUP ? put(KGROUP, n) : -1; return put(KGROUP, mk(f, p, KGROUP)); }
hid_t H5Gopen2(hid_t l, const char *name, hid_t) { char f[96], p[200]; if (!loc(l, name, f, p)) return -1; Node *n = find(f, p); return n && n->kind == KGROUP ? put(KGROUP, n) : -1; }
herr_t H5Gclose(hid_t i) { return shut(i, KGROUP); }
herr_t H5Gget_objinfo(hid_t l, const char *name, hbool_t, H5G_stat_t *) { char f[96], p[200]; return loc(l, name, f, p) && find(f, p) ? 0 : -1; }
htri_t H5Lexists(hid_t l, const char *name, hid_t) { char f[96], p[200]; if (!loc(l, name, f, p)) return -1; if (!parent(f, p)) return -1; return find(f, p) != 0; }
hid_t H5Dcreate2(hid_t l, const char *name, hid_t t, hid_t sp, hid_t, hid_t pl, hid_t) {
  char f[96], p[200]; Obj *s = get(sp, KSPACE); int c; size_t z; if (!s || !type(t, &c, &z) || !loc(l, name, f, p) || !parent(f, p)) return -1;
  Node *n = find(f, p); if (n) return mdl_h5_shared && mdl_rank > 0 && n->kind == KDSET ? put(KDSET, n) : -1;
  Obj *q = get(pl, KPLIST); if (q && q->chunk > s->n && s->maxn == s->n) return -1; if (s->maxn != s->n && !(q && q->chunk)) return -1;
  n = mk(f, p, KDSET); n->cls = c; n->size = z; n->n = s->n; n->row = s->row; n->maxn = s->maxn; n->data = (char *)malloc(z * s->n + 1); n->wr = (int *)calloc(s->n + 1, sizeof(int)); return put(KDSET, n);
}
hid_t H5Dopen2(hid_t l, const char *name, hid_t) { char f[96], p[200]; if (!loc(l, name, f, p)) return -1; Node *n = find(f, p); return n && n->kind == KDSET ? put(KDSET, n) : -1; }
herr_t H5Dclose(hid_t i) { return shut(i, KDSET); }
hid_t H5Dget_space(hid_t i) { Obj *o = get(i, KDSET); if (!o) return -1; hid_t s = put(KSPACE, 0); objs[s]->n = o->node->n; objs[s]->row = o->node->row; objs[s]->maxn = o->node->maxn; return s; }
static herr_t xfer(hid_t d, hid_t mt, hid_t ms, hid_t fs, char *buf, bool wr) {
  Obj *o = get(d, KDSET); int c; size_t z; if (!o || !type(mt, &c, &z)) return -1; Node *n = o->node; if ((c == 2) != (n->cls == 2)) return -1;
  hsize_t fst = 0, fc = n->n, mst = 0, mc = fc; Obj *f = fs == H5S_ALL ? 0 : get(fs, KSPACE), *m = ms == H5S_ALL ? 0 : get(ms, KSPACE); if ((fs != H5S_ALL && !f) || (ms != H5S_ALL && !m)) return -1;
  if (f) { if (f->none) fc = 0; else if (f->sel) { fst = f->start; fc = f->count; } }
  mc = fc; if (!m && f) { mst = fst; } if (m) { if (m->none) mc = 0; else if (m->sel) { mst = m->start; mc = m->count; if (mst + mc > m->n) return -1; } else mc = m->n; }
  if (fc != mc || fst + fc > n->n) return -1;
  if (c == n->cls && z == n->size) { if (wr) memcpy(n->data + fst * z, buf + mst * z, fc * z); else memcpy(buf + mst * z, n->data + fst * z, fc * z); if (wr) for (hsize_t i = 0; i < fc; i++) n->wr[fst + i]++; return 0; }
  for (hsize_t i = 0; i < fc; i++) { char *fp = n->data + (fst + i) * n->size, *mp = buf + (mst + i) * z; if (wr) { if (!conv(fp, n->cls, n->size, mp, c, z)) return -1; n->wr[fst + i]++; } else if (!conv(mp, c, z, fp, n->cls, n->size)) return -1; }
  return 0;
}
herr_t H5Dwrite(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t, const void *b) { return xfer(d, mt, ms, fs, (char *)b, true); }
herr_t H5Dread(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t, void *b) { return xfer(d, mt, ms, fs, (char *)b, false); }
static Attr *fattr(Node *n, const char *a) { for (Attr *q = n->attrs; q; q = q->next) if (!strcmp(q->name, a)) return q; return 0; }
static hid_t pattr(Attr *a) { hid_t i = put(KATTR, 0); objs[i]->attr = a; return i; }
hid_t H5Acreate2(hid_t l, const char *name, hid_t t, hid_t sp, hid_t, hid_t) {
  Obj *o = get(l, 0); int c; size_t z; if (!o || !o->node || !get(sp, KSPACE) || !type(t, &c, &z) || strlen(name) >= 48) return -1; Attr *a = fattr(o->node, name); if (a) return mdl_h5_shared && mdl_rank > 0 ? pattr(a) : -1;
  a = (Attr *)calloc(1, sizeof(Attr)); strcpy(a->name, name); a->cls = c; a->size = z; a->n = get(sp, KSPACE)->n; a->data = (char *)calloc(z * a->n, 1); a->next = o->node->attrs; o->node->attrs = a; return pattr(a);
}
herr_t H5Awrite(hid_t i, hid_t t, const void *b) { Obj *o = get(i, KATTR); int c; size_t z; if (!o || !type(t, &c, &z)) return -1; for (hsize_t k = 0; k < o->attr->n; k++) if (!conv(o->attr->data + k * o->attr->size, o->attr->cls, o->attr->size, (const char *)b + k * z, c, z)) return -1; return 0; }
hid_t H5Aopen_by_name(hid_t l, const char *obj, const char *name, hid_t, hid_t) { char f[96], p[200]; if (!loc(l, obj, f, p)) return -1; Node *n = find(f, p); Attr *a = n ? fattr(n, name) : 0; return a ? pattr(a) : -1; }
herr_t H5Aread(hid_t i, hid_t t, void *b) { Obj *o = get(i, KATTR); int c; size_t z; if (!o || !type(t, &c, &z)) return -1; for (hsize_t k = 0; k < o->attr->n; k++) if (!conv((char *)b + k * z, c, z, o->attr->data + k * o->attr->size, o->attr->cls, o->attr->size)) return -1; return 0; }
herr_t H5Aclose(hid_t i) { return shut(i, KATTR); }
htri_t H5Aexists(hid_t l, const char *name) { Obj *o = get(l, 0); if (!o || !o->node) return -1; return fattr(o->node, name) != 0; }
htri_t H5Aexists_by_name(hid_t l, const char *obj, const char *name, hid_t) { char f[96], p[200]; if (!loc(l, obj, f, p)) return -1; Node *n = find(f, p); return n ? fattr(n, name) != 0 : -1; }
// views for the harness
void *mdl_h5_data(const char *file, const char *path, unsigned long *n, unsigned long *esize, int **written) { Node *q = find(file, path); if (!q || q->kind != KDSET) return 0; *n = q->n; *esize = q->size; *written = q->wr; return q->data; }
void *mdl_h5_attr(const char *file, const char *path, const char *name, unsigned long *esize) { Node *q = find(file, path); Attr *a = q ? fattr(q, name) : 0; if (!a) return 0; *esize = a->size; return a->data; }
}
