// Measurement files: what the writers store is what the program held, each datum once, at its place.
#include "common.h"
#include "h5model.h"
#include "io/readWrite.h"
#include "scalar/folder.h"
#include "strings/strings.h"
static const char *FILE_ = "d/axion.m.00003";
static double dbl(const char *path, const char *name) { unsigned long es = 0; void *p = mdl_h5_attr(FILE_, path, name, &es); __sym_check(p != 0 && es == 8, "attribute present"); return p && es == 8 ? *(double *)p : 0; }
static long in(const char *path, const char *name) { unsigned long es = 0; void *p = mdl_h5_attr(FILE_, path, name, &es); __sym_check(p != 0 && (es == 8 || es == 4), "attribute present"); return !p ? -1 : es == 8 ? *(long *)p : *(unsigned int *)p; }
static bool str(const char *path, const char *name, const char *want) { unsigned long es = 0; char *p = (char *)mdl_h5_attr(FILE_, path, name, &es); return p && !strcmp(p, want); }
template <class T> static void data(const char *path, const std::vector<T> &want, const char *lab, bool rep = false) {
  unsigned long n = 0, es = 0; int *wr = 0; T *p = (T *)mdl_h5_data(FILE_, path, &n, &es, &wr); __sym_check(p != 0 && n == want.size() && es == sizeof(T), "dataset present with its size and type"); if (!p || n != want.size() || es != sizeof(T)) return;
  for (size_t i = 0; i < n; i++) { __sym_check(wr[i] == 1 || (rep && wr[i] > 1), "every datum written once"); if (wr[i]) { if (std::is_floating_point<T>::value) __sym_eq((double)p[i], (double)want[i], 1, lab, i); else __sym_check(p[i] == want[i], lab); } }
}
template <class T> static void run() {
  const int what = __sym_param("what", 0), ft = __sym_param("ft", 0), ranks = __sym_param("ranks", 1), red = __sym_param("red", 0), fold = __sym_param("fold", 0), sl = __sym_param("sl", 0);
  static const FieldType FT[] = {FIELD_SAXION, FIELD_AXION, FIELD_PAXION, FIELD_AXION_MOD};
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), S = n * n, N = S * lz, w = ft == 0 ? 2 : 1;
  strcpy(outDir, "d"); strcpy(outName, "axion"); mdl_size = ranks; zGrid = ranks; sizeN = n; sizeZ = lz; lowmem = false; mdl_h5_shared = 1; nSteps = 7; dump = 3; const size_t rn = red ? n / 2 : n, rlz = red ? lz / 2 : lz, rS = rn * rn, rN = rS * rlz;
  std::vector<T> A, B, C; std::vector<unsigned char> D, D2; std::vector<double> K, G, V, U; double en[40]; for (int i = 0; i < 40; i++) en[i] = __sym_real_i("e", i, -3, 3);
  const size_t nk = 5; for (size_t i = 0; i < nk; i++) { K.push_back(__sym_real_i("k", i, 0, 3)); G.push_back(__sym_real_i("g", i, 0, 3)); V.push_back(__sym_real_i("p", i, 0, 3)); U.push_back(__sym_real_i("u", i, 0, 3)); }
  StringData sd = {}; sd.strDen = 111; sd.strChr = -5; sd.wallDn = 77; sd.strLen = en[30]; sd.strDeng = en[31]; sd.strVel = en[32]; sd.strVel2 = en[33]; sd.strGam = en[34]; sd.strDen_local = 3; sd.strDen = 3;
  Cosmos *c = mkCosmos(); c->SetFrw(1); c->SetMink(false); const double L = __sym_real("L", 1, 9); c->SetPhysSize(L); c->SetLambda(1.5); c->SetGamma(0.25); c->SetIndi3(0.75); c->SetQcdExp(4); c->SetQcdExpr(2); c->SetZThRes(150); c->SetZRestore(400); c->SetLamZ2Exp(0); c->SetQcdPot(V_PQ2 | V_QCDC); cType = CONF_KMAX; smvarType = CONF_RAND; kMax = 5; kCrit = 1.5; zInit = 0.5; zFinl = 4; mode0 = 0.25;
  const double zz = 2; Scalar *f = 0; double scr[3] = {0, 0, 0};
  for (int r = 0; r < ranks; r++) {
    mdl_rank = r; f = mkScalar(c, n, lz, sizeof(T) == 8, FT[ft], false, ng, LAMBDA_FIXED); if (FT[ft] == FIELD_AXION_MOD) f->setField(FIELD_AXION_MOD); *f->zV() = zz; f->updateR(); f->setFolded(fold); if (red) f->setReduced(true, rn, rlz);
    T *m = (T *)f->mStart(), *v = (T *)f->vStart(), *m2 = (T *)f->m2Cpu(); const size_t sh = f->DataAlign() / (w * sizeof(T)); unsigned char *s = (unsigned char *)f->sData();
    if (what >= 6 && what <= 8) for (size_t i = 0; i < N; i++) for (size_t k = 0; k < w; k++) { size_t j = flat(n, sh, fold, i % n, i / n % n, i / S) * w + k; m[j] = (T)__sym_real_i(r ? "m'" : "m", i * w + k, -3, 3); v[j] = (T)__sym_real_i(r ? "v'" : "v", i * w + k, -3, 3);
      const size_t zg = r * lz + i / S; if ((what == 7 && zg == (size_t)sl) || (what == 8 && i % n == (size_t)sl) || (what == 6 && r == 0 && i == 0)) { A.push_back(m[j]); B.push_back(v[j]); } }
    createMeas(f, 3);
    if (what == 0) { for (size_t i = 0; i < rN; i++) { s[i] = (7 * i + 31 * r + 1) % 251; D.push_back(s[i]); } writeDensity(f, MAP_RHO, en[0], en[1]); for (size_t i = 0; i < rN; i++) { s[i] = (11 * i + 31 * r + 5) % 251; D2.push_back(s[i]); } writeDensity(f, MAP_THETA, en[0], en[1]); }
    if (what == 1) { for (size_t i = 0; i < rN; i++) { s[i] = (7 * i + 31 * r + 1) % 127; D.push_back(s[i]); } writeString(f, sd, sl == 0); }
    if (what == 2) { f->setM2(M2_ENERGY); const size_t h = f->eSize(); for (size_t i = 0; i < rN; i++) { m2[i] = (T)__sym_real_i(r ? "t'" : "t", i, 0, 3); A.push_back(m2[i]); if (!red && w == 2) { m2[h + i] = (T)__sym_real_i(r ? "r'" : "r", i, 0, 3); B.push_back(m2[h + i]); } } writeEDens(f, (!red && w == 2) ? MAP_ALL : MAP_THETA); }
    if (what == 3) { f->setM2(M2_ENERGY); T *m3 = (T *)f->m2Start(); for (size_t i = 0; i < N; i++) { m3[i] = (T)__sym_real_i(r ? "t'" : "t", i, 0, 3); A.push_back(m3[i]); } writeEDens(f, MAP_M2S); }
    if (what == 4) { writeEnergy(f, en, -1.); writeEnergy(f, en, 2.5); }
    if (what == 5) { writeArray(K.data(), nk, "/nSpectrum", "sK", 0); writeArray(r == ranks - 1 ? G.data() : scr, r == ranks - 1 ? nk : nk, "/nSpectrum", "sG", ranks - 1); writeSpectrum(f, K.data(), G.data(), V.data(), nk, true);  }
    if (what == 6) writePoint(f);
    if (what == 7) writeMapHdf5s(f, sl);
    if (what == 8) writeMapHdf5s2(f, sl);
    if (what == 9) { f->setM2(M2_ENERGY); for (size_t i = 0; i < N; i++) { m2[i] = (T)__sym_real_i(r ? "t'" : "t", i, 0, 3); if (r == 0 && i / S == (size_t)sl) A.push_back(m2[i]); } char nm[] = "/map/E"; writeEMapHdf5s(f, sl, nm); }
    if (what == 10) { T *g = (T *)f->mFrontGhost(); for (size_t i = 0; i < S; i++) { g[i] = (T)__sym_real_i(r ? "g'" : "gg", i, 0, 3); if (r == 0) A.push_back(g[i]); } char nm[] = "/map/P"; writePMapHdf5s(f, nm); }
    if (what == 11) { f->setM2(M2_STRINGCOO); unsigned short *x = (unsigned short *)f->m2Cpu(); for (int i = 0; i < 9; i++) x[i] = 5 + 3 * i; writeString(f, sd, false); writeStringCo(f, sd, true); }
    const bool fd = f->Folded(); if (what >= 6 && what <= 8 && what != 6) { m = (T *)f->mStart(); v = (T *)f->vStart(); for (size_t i = 0; i < N; i++) for (size_t k = 0; k < w; k++) { size_t j = flat(n, sh, fd, i % n, i / n % n, i / S) * w + k; __sym_eq((double)m[j], (double)(T)__sym_real_i(r ? "m'" : "m", i * w + k, -3, 3), 1, "field untouched", i); __sym_eq((double)v[j], (double)(T)__sym_real_i(r ? "v'" : "v", i * w + k, -3, 3), 1, "velocity untouched", i); } }
    destroyMeas();
  }
  // header
  static const char *FN[] = {"Saxion", "Axion", "Paxion", "Axion Mod"};
  __sym_check(str("/", "Field type", FN[ft]), "field type"); __sym_check(str("/", "Precision", sizeof(T) == 8 ? "Double" : "Single"), "precision"); __sym_check(in("/", "Size") == (long)n && in("/", "Depth") == (long)(lz * ranks), "lattice size");
  __sym_eq(dbl("/", "Physical size"), L, 1, "box size", -1); __sym_eq(dbl("/", "z"), zz, 1, "time", -1); __sym_eq(dbl("/", "R"), *f->RV(), 1, "scale factor", -1); __sym_eq(dbl("/", "Axion mass"), f->AxionMass(), 1, "axion mass", -1); __sym_check(in("/", "Current step") == 9, "step of the measurement");
  const char *P = "/potential"; __sym_eq(dbl(P, "Lambda"), 1.5, 1, "lambda", -1); __sym_eq(dbl(P, "Gamma"), 0.25, 1, "gamma", -1); __sym_eq(dbl(P, "Indi3"), 0.75, 1, "indi3", -1); __sym_eq(dbl(P, "nQcd"), 4, 1, "nQcd", -1); __sym_eq(dbl(P, "nQcd2"), 2, 1, "nQcd2", -1); __sym_eq(dbl(P, "z Threshold"), 150, 1, "z threshold", -1); __sym_eq(dbl(P, "z Restore"), 400, 1, "z restore", -1); __sym_eq(dbl("/ic", "Axion zero mode"), 0.25, 1, "zero mode", -1);
  if (what == 0) { data("/energy/density/cRho", D, "radial density"); data("/energy/density/cTheta", D2, "density"); __sym_check(in("/energy/density", "Size") == (long)rn && in("/energy/density", "Depth") == (long)(rlz * ranks), "map size"); __sym_eq(dbl("/energy/density", "Maximum energy"), en[0], 1, "maximum density", -1); __sym_eq(dbl("/energy/density", "Minimum energy"), en[1], 1, "minimum density", -1); }
  if (what == 1) { if (sl == 0) data("/string/data", D, "string map"); __sym_check(in("/string", "Size") == (long)rn && in("/string", "Depth") == (long)(rlz * ranks), "map size"); }
  if (what == 1 || what == 11) { const char *q = "/string"; __sym_check(in(q, "String number") == 3 && in(q, "String chirality") == -5 && in(q, "Wall number") == 77, "string counts"); __sym_eq(dbl(q, "String length"), en[30], 1, "string length", -1); __sym_eq(dbl(q, "String number with gamma"), en[31], 1, "string number with gamma", -1); __sym_eq(dbl(q, "String velocity"), en[32], 1, "string velocity", -1); __sym_eq(dbl(q, "String velocity squared"), en[33], 1, "string velocity squared", -1); __sym_eq(dbl(q, "String gamma"), en[34], 1, "string gamma", -1); }
  if (what == 2) { data(red ? "/energy/rdensity/theta" : "/energy/density/theta", A, "axion energy map"); if (!red && w == 2) data("/energy/density/rho", B, "radial energy map"); }
  if (what == 3) data("/energy/density/aux", A, "auxiliary map");
  if (what == 4) {
    static const char *AN[] = {"Gr X", "Gr Y", "Gr Z", "Potential", "Kinetic"}; static const int TI[] = {TH_GRX, TH_GRY, TH_GRZ, TH_POT, TH_KIN}, RI[] = {RH_GRX, RH_GRY, RH_GRZ, RH_POT, RH_KIN}, TM[] = {TH_GRXM, TH_GRYM, TH_GRZM, TH_POTM, TH_KINM}, RM[] = {RH_GRXM, RH_GRYM, RH_GRZM, RH_POTM, RH_KINM}; char b[64];
    for (int i = 0; i < 5; i++) { sprintf(b, "Axion %s", AN[i]); __sym_eq(dbl("/energy", b), en[TI[i]], 1, "axion energy", i); sprintf(b, "Axion %s nMask", AN[i]); __sym_eq(dbl("/energy/Redmask_2.50", b), en[TM[i]], 1, "masked axion energy", i);
      if (ft == 0) { sprintf(b, "Saxion %s", AN[i]); __sym_eq(dbl("/energy", b), en[RI[i]], 1, "saxion energy", i); sprintf(b, "Saxion %s nMask", AN[i]); __sym_eq(dbl("/energy/Redmask_2.50", b), en[RM[i]], 1, "masked saxion energy", i); } }
    if (ft == 0) { __sym_eq(dbl("/energy", "Saxion vev"), en[RH_RHO], 1, "mean rho", -1); __sym_eq(dbl("/energy/Redmask_2.50", "Saxion vev nMask"), en[RH_RHOM], 1, "masked mean rho", -1); __sym_eq(dbl("/energy/Redmask_2.50", "Number of masked points"), en[MM_NUMM], 1, "masked points", -1); }
  }
  if (what == 5) { data("/nSpectrum/sK/data", K, "array"); data("/nSpectrum/sG/data", G, "array of the last rank"); data("/pSpectrum/sK", K, "power K", true); data("/pSpectrum/sG", G, "power G", true); data("/pSpectrum/sV", V, "power V", true); }
  if (what == 6) data("/point/value", A, "first point");
  if (what == 7) { data("/map/m", A, "field slice"); data("/map/v", B, "velocity slice"); }
  if (what == 8) { data("/mapp/m", A, "field yz slice"); data("/mapp/v", B, "velocity yz slice"); }
  if (what == 9) data("/map/E", A, "energy slice");
  if (what == 10) data("/map/P", A, "projection");
  if (what == 11) { std::vector<unsigned short> x; for (int i = 0; i < 9; i++) x.push_back(5 + 3 * i); data("/string/codata", x, "string coordinates"); }
  __sym_check(mdl_h5_open() == 0, "every HDF5 handle closed"); __sym_reach("end");
}
extern "C" void harness() {
  mdl_threads = __sym_param("th", 2); __sym_threads(mdl_threads);
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
}
