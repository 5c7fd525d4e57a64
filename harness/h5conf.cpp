// Checkpoint round trip: what writeConf stores, readConf restores.
#include "common.h"
#include "h5model.h"
#include "io/readWrite.h"
#include "scalar/folder.h"
Cosmos createCosmos();
extern bool uFR, uMI;
template <class T> static void run() {
  static const FieldType FT[] = {FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION};
  static const VqcdType PQ[] = {V_PQ1, V_PQ2, V_PQ3}, QC[] = {V_QCD1, V_QCDV, V_QCD0, V_QCDL, V_QCDC, V_QCD2}, DA[] = {V_NONE, V_DAMP_RHO, V_DAMP_ALL}, EV[] = {V_NONE, V_EVOL_RHO, V_EVOL_THETA};
  const int ft = __sym_param("ft", 0), pr = __sym_param("pr", -1), ranks = __sym_param("ranks", 1), restart = __sym_param("restart", 0), lz2 = __sym_param("lz2", 0), par = __sym_param("par", 0), cov = __sym_param("cov", 0);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), S = n * n, N = S * lz, w = ft == 0 ? 2 : 1; const double fr = __sym_param("frw", 1);
  strcpy(outDir, "d"); strcpy(outName, "axion"); mdl_size = ranks; zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; mdl_h5_shared = 1; nSteps = 7; dump = 3;
  const VqcdType pot = PQ[__sym_param("pq", 0)] | QC[__sym_param("qcd", 0)] | DA[__sym_param("damp", 0)] | EV[__sym_param("evol", 0)];
  zInit = __sym_real("zInit", 0.1, 1); zFinl = __sym_real("zFinl", 3, 9); mode0 = __sym_real("mode0", -3, 3); kCrit = __sym_real("kCrit", 0.1, 3); alpha = __sym_real("alpha", 0.1, 0.2); kMax = 5; iter = 11;
  static const ConfType CT[] = {CONF_KMAX, CONF_SMOOTH, CONF_VILGOR, CONF_LOLA, CONF_COLE, CONF_TKACHEV, CONF_SPAX}; static const ConfsubType SM[] = {CONF_RAND, CONF_STRINGXY, CONF_STRINGYZ, CONF_MINICLUSTER, CONF_MINICLUSTER0, CONF_AXNOISE, CONF_SAXNOISE, CONF_AX1MODE, CONF_PARRES, CONF_STRWAVE};
  const int ct = __sym_param("ct", 0), sm = __sym_param("sm", 0); cType = CT[ct]; smvarType = SM[sm];
  Cosmos *c = mkCosmos(); c->SetQcdPot(pot); c->SetFrw(fr); c->SetMink(fr == 0);
  auto P = [&](const char *nm, double lo, double hi) { return par ? __sym_real(nm, lo, hi) : 0.5 * lo + 0.5 * hi; };
  const double L = P("L", 1, 9), la = P("lambda", 0.5, 4), g = P("gamma", 0.01, 3), i3 = P("indi3", 0.2, 2), q = P("nQcd", 2, 7), qr = P("nQcdr", 1, 3), zt = P("zth", 100, 200), zr = P("zre", 300, 500), l2 = lz2 ? P("lz2e", 0.5, 2) : 0.0, zz = P("z", 1.5, 2.5);
  c->SetPhysSize(L); c->SetLambda(la); c->SetGamma(g); c->SetIndi3(i3); c->SetQcdExp(q); c->SetQcdExpr(qr); c->SetZThRes(zt); c->SetZRestore(zr); c->SetLamZ2Exp(l2);
  Scalar *f[2]; std::vector<T> a[2], b[2];
  for (int r = 0; r < ranks; r++) {
    mdl_rank = r; f[r] = mkScalar(c, n, lz, sizeof(T) == 8, FT[ft], false, ng, lz2 ? LAMBDA_Z2 : LAMBDA_FIXED); if (FT[ft] == FIELD_AXION_MOD) f[r]->setField(FIELD_AXION_MOD);
    *f[r]->zV() = zz; f[r]->updateR(); f[r]->setFolded(__sym_param("fold", 0)); T *m = (T *)f[r]->mStart(), *v = (T *)f[r]->vStart(); const size_t sh = f[r]->DataAlign() / (w * sizeof(T));
    for (size_t i = 0; i < N; i++) for (size_t k = 0; k < w; k++) { size_t j = flat(n, sh, f[r]->Folded(), i % n, i / n % n, i / S) * w + k; m[j] = (T)__sym_real_i(r ? "m'" : "m", i * w + k, -3, 3); v[j] = (T)__sym_real_i(r ? "v'" : "v", i * w + k, -3, 3); a[r].push_back(m[j]); b[r].push_back(v[j]); }
    writeConf(f[r], 42, restart);
    m = (T *)f[r]->mStart(); v = (T *)f[r]->vStart(); const bool fd = f[r]->Folded();
    for (size_t i = 0; i < N; i++) for (size_t k = 0; k < w; k++) { size_t j = flat(n, sh, fd, i % n, i / n % n, i / S) * w + k; __sym_eq((double)m[j], (double)a[r][i * w + k], 1, "field untouched by writing", i); __sym_eq((double)v[j], (double)b[r][i * w + k], 1, "velocity untouched by writing", i); }
  }
  const char *file = restart ? "d/axion.restart" : "d/axion.00042"; unsigned long tot = 0, es = 0; int *wr = 0;
  for (int d = 0; d < 2; d++) { void *p = mdl_h5_data(file, d ? "/v" : "/m", &tot, &es, &wr); __sym_check(p != 0 && tot == N * w * ranks && es == sizeof(T), "dataset holds the whole lattice"); if (p) for (size_t i = 0; i < tot; i++) __sym_check(wr[i] == 1, "every datum written once"); }
  // a fresh program that knows nothing but the file name
  const double zi0 = zInit, zf0 = zFinl, m00 = mode0, kc0 = kCrit, al0 = alpha; zInit = 77; zFinl = 78; mode0 = 79; kCrit = 80; alpha = 81; kMax = 82; iter = 83; cType = CONF_NONE; smvarType = CONF_AXITON; lType = LAMBDA_FIXED;
  fIndex = 42; if (restart) fIndex = 5; uZin = uZfn = uFR = uMI = false; fTypeP = FT[ft]; uPrec = pr >= 0; sPrec = pr >= 0 ? (pr ? FIELD_DOUBLE : FIELD_SINGLE) : sizeof(T) == 8 ? FIELD_SINGLE : FIELD_DOUBLE;
  const int od = pr >= 0 ? pr : sizeof(T) == 8;
  for (int r = 0; r < ranks; r++) {
    mdl_rank = r; Cosmos *c2 = new Cosmos(createCosmos()); c2->ICData().Nghost = ng; c2->ICData().zi = 55; Scalar *h = nullptr;
    if (cov) { c2->SetLambda(3.25); c2->SetGamma(0.75); c2->SetPhysSize(12.5); c2->SetQcdExp(4.5); }
    readConf(c2, &h, 42, restart); __sym_check(h != nullptr, "checkpoint read"); if (!h) continue;
    __sym_check(h->Field() == FT[ft] && h->Length() == n && h->Depth() == lz && h->TotalDepth() == lz * ranks && h->Precision() == (od ? FIELD_DOUBLE : FIELD_SINGLE) && !h->Folded(), "geometry, kind and precision of the field");
    for (size_t i = 0; i < N * w; i++) { double x, y; if (od) { x = ((double *)h->mStart())[i]; y = ((double *)h->vStart())[i]; } else { x = ((float *)h->mStart())[i]; y = ((float *)h->vStart())[i]; } __sym_eq(x, (double)a[r][i], 1, "field restored", i); __sym_eq(y, (double)b[r][i], 1, "velocity restored", i); }
    __sym_eq(*h->zV(), zz, 1, "time restored", -1); __sym_eq(*h->RV(), *f[r]->RV(), 1, "scale factor restored", -1);
    __sym_eq(c2->PhysSize(), cov ? 12.5 : L, 1, "box size", -1); __sym_eq(c2->Lambda(), cov ? 3.25 : la, 1, "lambda", -1); __sym_eq(c2->Gamma(), cov ? 0.75 : g, 1, "damping", -1); __sym_eq(c2->Indi3(), i3, 1, "indi3", -1); __sym_eq(c2->QcdExp(), cov ? 4.5 : q, 1, "mass exponent", -1); if (!cov) { __sym_eq(c2->QcdExpr(), qr, 1, "restored mass exponent", -1); __sym_eq(c2->LamZ2Exp(), l2, 1, "lambda exponent", -1); __sym_check(h->LambdaT() == (lz2 ? LAMBDA_Z2 : LAMBDA_FIXED), "lambda type"); }
    __sym_eq(c2->ZThRes(), zt, 1, "z threshold", -1); __sym_eq(c2->ZRestore(), zr, 1, "z restore", -1); __sym_eq(c2->Frw(), fr, 1, "expansion exponent", -1); __sym_check(c2->QcdPot() == pot, "potential"); __sym_check(c2->Mink() == (fr == 0), "expansion switch");
    __sym_eq(zInit, zi0, 1, "initial time", -1); __sym_eq(zFinl, zf0, 1, "final time", -1); __sym_eq(mode0, m00, 1, "zero mode", -1); if (restart) __sym_check(fIndex == 42, "index of the restart");
    __sym_check(cType == CONF_NONE || cType == CT[ct], "kind of initial conditions"); __sym_check(smvarType == SM[sm], "configuration type");
    if (ct == 1) { __sym_check(iter == 11, "iterations"); __sym_eq(alpha, al0, 1, "smoothing constant", -1); } else { __sym_check(kMax == 5, "maximum momentum"); if (ct != 6) __sym_eq(kCrit, kc0, 1, "critical kappa", -1); }
    mdl_h5_shared = 1;
  }
  __sym_check(mdl_h5_open() == 0, "every HDF5 handle closed"); __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads);
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
}
