// The N-body snapshot of a wave field: one particle per site, or displaced from it.
#include "common.h"
#include "mpimodel.h"
#include "h5model.h"
#include "gadget/gadget_output.h"
#include <functional>
extern char outDir[], gadName[];
extern "C" { extern const double *mdl_others; double mdl_draw(double, double); }
static std::vector<double> draws; static bool wild;
extern "C" { double *mdl_kkk = nullptr; double mdl_draw(double lo, double hi) { const size_t i = draws.size(); double d = i < 6 && wild ? __sym_real_i("draw", i, lo, hi) : lo + (hi - lo) * ((i * 37 + 11) % 64) / 64.; draws.push_back(d); return d; } }
// The real one (judged elsewhere) also scales the second half of m2, which here holds sums in double precision that nobody reads again.
void scaleField(Scalar *f, FieldIndex i, double x) { __sym_check(i == FIELD_M2, "the density is normalised"); float *m = (float *)f->m2Cpu(); for (size_t k = 0; k < f->eSize(); k++) m[k] *= (float)x; }
extern "C" void harness(void) {
  typedef float T; const int ranks = __sym_param("ranks", 1), rank = __sym_param("rank", 0), vel = __sym_param("vel", 1), disp = __sym_param("disp", 0); wild = __sym_param("wild", 0);
  const size_t n = 8, lz = n / ranks, ng = __sym_param("ng", 2), S = n * n, N = S * lz; const long site = __sym_param("site", 5), bg = __sym_param("bg", 0);
  mdl_size = ranks; mdl_rank = rank; zGrid = ranks; sizeN = n; sizeZ = n; strcpy(outDir, "g"); strcpy(gadName, "snap");
  Cosmos *c = mkCosmos(); const double box = 3.0, zz = 1.5, pc = __sym_real("L1_pc", 0.01, 1); c->SetPhysSize(box); c->SetQcdExp(2); c->SetIndi3(0.4); c->ICData().L1_pc = pc;
  Scalar *f = mkScalar(c, n, lz, false, FIELD_PAXION, false, ng); *f->zV() = zz; f->updateR(); f->setFolded(false);
  // the whole lattice, slices -ng to n + ng
  auto G = [&](long x, long y, long z) { return (size_t)(((z + n) % n) * S + ((y + n) % n) * n + (x + n) % n); };
  std::vector<double> re(n * S), im(n * S); unsigned rs = 31 + 977 * bg; auto rnd = [&]() { rs = rs * 1664525u + 1013904223u; return (int)(rs >> 24) - 128; };
  for (size_t i = 0; i < n * S; i++) { double a = (2 * rnd() + 1) / 128., b = (2 * rnd() + 1) / 128.; if ((long)i == site + rank * (long)N) { a = __sym_real("re", 0.2, 2); b = __sym_real("im", -2, 2); } re[i] = (T)a; im[i] = (T)b; }
  T *m = (T *)f->mStart(), *v = (T *)f->vStart();
  for (long z = -(long)ng; z < (long)(lz + ng); z++) for (long k = 0; k < (long)S; k++) { const size_t g = G(k % n, k / n, z + rank * lz); m[z * (long)S + k] = (T)re[g]; v[z * (long)S + k] = (T)im[g]; }
  double sum = 0, oth = 0; for (size_t i = 0; i < n * S; i++) { const double e = re[i] * re[i] + im[i] * im[i]; sum += e; if (i / N != (size_t)rank) oth += e; }
  oth /= N; mdl_others = &oth; mdl_mpi_record = ranks > 1; const double mean = sum / (n * S);
  auto den = [&](long x, long y, long z) { const size_t g = G(x, y, z); return (re[g] * re[g] + im[g] * im[g]) / mean; };
  auto step = [&](size_t a, size_t b) { return std::atan2(im[a] * re[b] - re[a] * im[b], re[a] * re[b] + im[a] * im[b]); };
  auto grad = [&](int d, long x, long y, long z) { const size_t o = G(x, y, z); const long e[3] = {d == 0, d == 1, d == 2}; return 0.5 * (step(G(x + e[0], y + e[1], z + e[2]), o) - step(G(x - e[0], y - e[1], z - e[2]), o)); };
  const double B = box * pc / 0.7, H0 = 0.1 / 3.08567758e16, GN = 6.67430e-11 * 1.98847e30 / 3.08567758e16 / 3.08567758e16 / 3.08567758e16, unit = 0.3 * 3 * H0 * H0 / (8 * M_PI * GN) / (n * S), av = B * B * B * unit;
  static std::function<void(void *, size_t)> give; // the masses of the first slice of the process above
  give = [&](void *b, size_t by) { __sym_check(by == S * sizeof(T), "one slice from the process above"); for (size_t k = 0; k < S; k++) ((T *)b)[k] = (T)(av * den(k % n, k / n, (rank + 1) * lz)); };
  if (ranks > 1) mdl_fill = [](void *b, size_t by, int, int) { give(b, by); };
  createGadget_Void(f, nullptr, __sym_param("realn", 1) ? n : 0, n * S, vel, false, disp);
  unsigned long cnt, es; int *wr; const char *fn = "g/snap.hdf5";
  double *bs = (double *)mdl_h5_attr(fn, "/Header", "BoxSize", &es), *am = (double *)mdl_h5_attr(fn, "/Header", "AverageMass", &es); __sym_check(bs && am, "header"); if (!bs || !am) return;
  __sym_eq(*bs, B, 1, "box", -1);
  __sym_eq(*am, av, unit, "mean mass", -1);
  size_t *np = (size_t *)mdl_h5_attr(fn, "/Header", "NumPart_Total", &es); __sym_check(np && np[0] == 0 && np[1] == n * S, "number of particles");
  size_t *nt = (size_t *)mdl_h5_attr(fn, "/Header", "NumPart_ThisFile", &es), *nf = (size_t *)mdl_h5_attr(fn, "/Header", "NumFilesPerSnapshot", &es); __sym_check(nt && nt[0] == 0 && nt[1] == n * S && nf && *nf == 1, "one file holds all particles");
  for (const char *q : {"MassTable", "NumPart_Total_HighWord"}) { double *t = (double *)mdl_h5_attr(fn, "/Header", q, &es); __sym_check(t && t[0] == 0 && t[1] == 0, "no common mass, no high words"); }
  for (const char *q : {"Redshift", "Time"}) { double *t = (double *)mdl_h5_attr(fn, "/Header", q, &es); __sym_check(t && *t == 0, "comoving box at time zero"); }
  size_t *hp = (size_t *)mdl_h5_attr(fn, "/Header", "HubbleParam", &es); double *lp = (double *)mdl_h5_attr(fn, "/Header", "L1_pc", &es); __sym_check(hp && *hp == 0 && lp, "length unit"); if (lp) __sym_eq(*lp, pc, 1, "length unit", -1);
  float *P = (float *)mdl_h5_data(fn, "/PartType1/Coordinates", &cnt, &es, &wr); __sym_check(P && cnt == 3 * n * S && es == 4, "positions"); int *wP = wr;
  float *V = (float *)mdl_h5_data(fn, "/PartType1/Velocities", &cnt, &es, &wr); __sym_check(V && cnt == 3 * n * S && es == 4, "velocities"); int *wV = wr;
  float *M = (float *)mdl_h5_data(fn, "/PartType1/Masses", &cnt, &es, &wr); __sym_check(M && cnt == n * S && es == 4, "masses"); int *wM = wr;
  hsize_t *I = (hsize_t *)mdl_h5_data(fn, "/PartType1/ParticleIDs", &cnt, &es, &wr); __sym_check(I && cnt == n * S, "identities"); if (!P || !V || !M || !I) return;
  for (size_t i = 0; i < n * S; i++) { const bool mine = i / N == (size_t)rank; __sym_check(wr[i] == mine && wM[i] == mine && wP[3 * i] == mine && wP[3 * i + 1] == mine && wP[3 * i + 2] == mine && wV[3 * i + 2] == mine && wV[3 * i] == mine && wV[3 * i + 1] == mine, "every particle written once, by its process"); if (!mine) continue;
    const long x = i % n, y = i / n % n, z = i / S; double d[3] = {0, 0, 0}; if (disp) for (int k = 0; k < 3; k++) d[k] = (float)draws[3 * (i - rank * N) + k];
    __sym_check(I[i] == i, "identity"); const double at[3] = {(double)x, (double)y, (double)z}; for (int k = 0; k < 3; k++) __sym_eq(P[3 * i + k], (at[k] + d[k]) * B / n, 1, "position", 3 * i + k);
    double w[8], mass = 0, gr[3] = {0, 0, 0}; for (int e = 0; e < 8; e++) { w[e] = 1; for (int k = 0; k < 3; k++) w[e] *= e >> k & 1 ? d[k] : 1 - d[k]; if (!disp && e) continue;
      mass += w[e] * den(x + (e & 1), y + (e >> 1 & 1), z + (e >> 2)); if (vel) for (int k = 0; k < 3; k++) gr[k] += w[e] * grad(k, x + (e & 1), y + (e >> 1 & 1), z + (e >> 2)); }
    __sym_eq(M[i], mass * av, unit, "mass", i);
    const double u = 299792.458 / (zz * f->AxionMass()); for (int k = 0; k < 3; k++) __sym_eq(V[3 * i + k], vel ? gr[k] * u : 0, u, "velocity", 3 * i + k); }
  __sym_reach("end");
}
