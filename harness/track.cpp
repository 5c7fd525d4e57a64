// Axiton tracker: which sites it follows, what it records of them and where it says they are.
#include <map>
#include <sstream>
#include <hdf5.h>
#include "common.h"
#include "axiton/tracker.h"
typedef double D; typedef std::string S;
extern "C" { herr_t H5open(void) { return 0; } hid_t H5T_NATIVE_DOUBLE_g = 1, H5T_NATIVE_INT_g = 2, H5T_C_S1_g = 3; extern const int *mdl_gathered; extern int mdl_roots[256], mdl_nroots; extern const double *mdl_others; }
extern char outName[128];
static int opened; static std::vector<S> grp; static std::map<S, std::vector<D>> arr; static std::map<S, int> wr, att;
void createMeas(Scalar *, int) { opened++; __sym_check(!strcmp(outName, "notixa"), "file of the tracker has its own name"); }
void destroyMeas() { opened += 100; }
void writeArray(double *a, size_t n, const char *g, const char *name, int r) { S k = S(g) + "/" + name; __sym_check(!arr.count(k) && opened == 1, "each history written once, file open"); std::vector<D> &v = arr[k]; wr[k] = r; if (r == mdl_rank) v.assign(a, a + n); if (!strcmp(name, "field")) grp.push_back(g); }
void writeAttributeg(void *p, const char *g, const char *name, hid_t t) { __sym_check(t == H5T_NATIVE_INT_g, "positions are integers"); int v; memcpy(&v, p, 4); att[S(g) + "/" + name] = v; }
void writeEDens(Scalar *, MapType) {}
static size_t N, n, sh; static Scalar *f; static D TH, VE, R, MA;
struct Site { size_t x, y, z; int first; std::vector<D> m, v; };
template <class T> static void put(const size_t (*pos)[3], int K, int pat, int vpat, D amp, std::vector<D> &mv, std::vector<D> &vv, int step) {
  T *m = (T *)f->mStart(), *v = (T *)f->vStart(); mv.assign(N, 0); vv.assign(N, 0);
  for (size_t i = 0; i < N; i++) { mv[i] = 0.001 * (D)(i % 97) + 0.01 * step; vv[i] = 0.002 * (D)(i % 89) - 0.03; }
  for (int k = 0; k < K; k++) { // a site's size relative to the threshold is an unknown, on the side the case says; the sign alternates
    size_t i = (pos[k][2] * n + pos[k][1]) * n + pos[k][0]; const bool b = pat >> k & 1, c = vpat >> k & 1;
    D a = __sym_real_i(b ? "above" : "below", 8 * step + k, b ? 1.05 : 0.3, b ? 3 : 0.95), w = __sym_real_i(c ? "vabove" : "vbelow", 8 * step + k, c ? 1.05 : 0.3, c ? 3 : 0.95);
    mv[i] = (k & 1 ? -1 : 1) * a * TH * R; vv[i] = (k & 1 ? 1 : -1) * w * VE * MA * R * R;
  }
  for (size_t i = 0; i < N; i++) { size_t x = i % n, y = i / n % n, z = i / (n * n), j = flat(n, sh, f->Folded(), x, y, z); m[j] = (T)mv[i]; v[j] = (T)vv[i]; }
}
template <class T> static void run() {
  n = __sym_param("n", 8); const size_t lz = __sym_param("lz", 4), ng = __sym_param("ng", 1); const int ranks = __sym_param("ranks", 1), folds = __sym_param("folds", 0), pat = __sym_param("pat", 5), pat2 = __sym_param("pat2", 7), vpat = __sym_param("vpat", 0), usev = __sym_param("usev", 0), nmax = __sym_param("nmax", -2), dflt = __sym_param("dflt", 0), late = __sym_param("late", 1);
  mdl_size = ranks; mdl_rank = __sym_param("rank", 0); zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; mdl_others = nullptr; strcpy(outName, "axion");
  Cosmos *c = mkCosmos(); AxitonInfo &A = c->ICData().axtinfo; A.nMax = nmax; TH = dflt ? M_PI : (D)__sym_real("th", 0.5, 2); VE = usev ? (D)__sym_real("ve", 0.5, 2) : 1; A.th_threshold = dflt ? -1. : TH; A.ve_threshold = usev ? VE : -1.; A.con_threshold = -1.; A.ct_threshold = dflt ? -1. : 2.;
  c->ICData().zi = 2; f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_AXION, false, ng); R = __sym_real("R", 1, 2); *f->RV() = R; N = n * n * lz; sh = f->DataAlign() / f->DataSize(); MA = f->AxionMass();
  const D ma0 = MA * 2; c->SetIndi3(late ? 4 : 0.1); MA = f->AxionMass(); (void)ma0;   // mass times R times time clearly beyond, or clearly before, the start of tracking
  const size_t pos[4][3] = {{1, 2, 1}, {n - 1, n / 2, lz - 1}, {0, n - 1, 0}, {n / 2, 0, 2 % lz}}; const int K = 4; std::vector<D> mv, vv; std::vector<Site> ref; std::vector<D> T_;
  initTracker(f); int reads = 0, found = 0; const int lim = (nmax == -2 ? 100 : nmax) / ranks; bool any[4] = {0, 0, 0, 0};
  for (int step = 0; step < 3; step++) {
    f->setFolded(folds >> step & 1); *f->zV() = 2 + 0.25 * step; const int p = step == 0 ? pat : step == 1 ? pat2 : 15 & ~pat; put<T>(pos, K, p, vpat, 1, mv, vv, step);
    if (nmax != -1 && late) { std::vector<int> nw; for (int k = 0; k < K; k++) if (!any[k] && ((p >> k & 1) || (usev && (vpat >> k & 1)))) nw.push_back(k);
      if (step < 2 && (int)ref.size() < lim) for (int k : nw) {   // past the limit, any of the candidates may be left out
        any[k] = true; Site s; s.x = pos[k][0]; s.y = pos[k][1]; s.z = pos[k][2]; s.first = reads; ref.push_back(s); } }
    if (step < 2) searchAxitons();
    // the field moves on before it is read
    *f->zV() = 2.125 + 0.25 * step; T_.push_back(2.125 + 0.25 * step); f->setFolded(folds >> (3 + step) & 1); put<T>(pos, K, 15 & ~p, 15, 1, mv, vv, 3 + step); readAxitons(); reads++;
    for (Site &s : ref) { size_t i = (s.z * n + s.y) * n + s.x; s.m.push_back(mv[i]); s.v.push_back(vv[i]); }
  }
  int gath[8]; for (int i = 0; i < 8; i++) gath[i] = __sym_param(("g" + std::to_string(i)).c_str(), 0); mdl_gathered = gath; mdl_nroots = 0;
  printAxitons(); mdl_gathered = nullptr;
  if (nmax == -1) { __sym_check(opened == 0, "nothing is tracked unasked"); __sym_reach("end"); return; }
  __sym_check(opened == 101 && !strcmp(outName, "axion"), "tracker file written and the name of the output kept"); 
  if (arr["//ct"].size() == T_.size()) for (size_t i = 0; i < T_.size(); i++) __sym_eq(arr["//ct"][i], T_[i], 1, "times recorded", i); else __sym_check(wr["//ct"] != mdl_rank, "one time per reading");
  // who writes which
  std::vector<int> owner; for (int r = 0; r < ranks; r++) for (int k = 0; k < (r == mdl_rank ? std::min((int)ref.size(), lim) : gath[r]); k++) owner.push_back(r);
  __sym_check(grp.size() == owner.size() && mdl_nroots == (int)owner.size(), "every axiton of every process written"); std::vector<bool> seen(ref.size());
  for (size_t i = 0; i < owner.size() && i < grp.size(); i++) {
    const S &g = grp[i]; __sym_check(wr[g + "/field"] == owner[i] && wr[g + "/veloc"] == owner[i] && mdl_roots[i] == owner[i], "written by its owner"); if (owner[i] != mdl_rank) continue;
    int hit = -1; for (size_t k = 0; k < ref.size(); k++) if ((int)ref[k].x == att[g + "/x"] && (int)ref[k].y == att[g + "/y"] && (int)(ref[k].z + lz * mdl_rank) == att[g + "/z"]) hit = k;
    __sym_check(hit >= 0, "position of a tracked site"); if (hit < 0) continue; __sym_check(!seen[hit], "each site tracked once"); seen[hit] = true; Site &s = ref[hit];
    __sym_check(att[g + "/i0"] == s.first && arr[g + "/field"].size() == s.m.size() && arr[g + "/veloc"].size() == s.v.size(), "first reading and number of readings");
    for (size_t q = 0; q < s.m.size() && q < arr[g + "/field"].size(); q++) { __sym_eq(arr[g + "/field"][q], s.m[q], 4, "history of the field at the site", q); __sym_eq(arr[g + "/veloc"][q], s.v[q], 8, "history of the velocity at the site", q); }
  }
  __sym_reach("end");
}
extern "C" void harness() { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
