// A measurement call: which parts it runs, on which field, and what it leaves in the measurement file and hands back.
#include <map>
#include <set>
#include "common.h"
#include "../models/measbin.h"
#include <sstream>
#include <hdf5.h>
#include "io/readWrite.h"
#define private public
#include "spectrum/spectrum.h"
#undef private
#include "scalar/fourier.h"
#include "reducer/reducer.h"
#include "meas/measa.h"
#include "map/map.h"
extern "C" { herr_t H5open(void) { return 0; } hid_t H5T_NATIVE_DOUBLE_g = 1, H5T_NATIVE_INT_g = 2, H5T_C_S1_g = 3; }
std::vector<BinRec> binRecs; typedef double D; typedef std::string S; typedef std::complex<double> Z;
extern bool cummask;
static Scalar *F; static size_t RN, RZ; static bool moms; static std::vector<S> ev, tok; static S m2; static int nopen, nclose, isopen, nbin; static D shiftWant, R, radius, masked;
static D eres[32]; static std::map<S, int> recOf; static std::map<S, S> maskOf; static std::vector<D> m2v, emv; static D rlist[4]; static size_t strN;
static S fmt(const char *f, D a) { char b[64]; std::snprintf(b, 64, f, a); return b; }
static void in(const char *w) { __sym_check(isopen && !moms, "parts of a measurement run with the file open and the field in position space"); }
static void put(const S &s, bool early = false) { if (!early) in(0); ev.push_back(s); }
static D code(const S &s) { tok.push_back(s); return (D)(tok.size() - 1); }
static S nm(SpectrumMaskType m) { return std::to_string((int)m); }
// a radius in lattice units: which entry of the list is it
static S unused(D r) { __sym_eq(r, masked, 1, "mask radius in lattice units", 0); return ""; }
extern "C" double mdl_binend(int hi) { return __sym_real_i(hi ? "bmax" : "bmin", nbin / 2 + 0 * nbin++, -9, 9); }
// the parts
void createMeas(Scalar *, int i) { nopen++; isopen = 1; ev.push_back("open " + std::to_string(i)); }
void destroyMeas() { nclose++; isopen = 0; }
void writeConf(Scalar *f, int i, bool) { ev.push_back("conf " + std::to_string(i)); __sym_check(!isopen && f == F, "configuration written outside the measurement file"); }
static void symM2(const char *n, size_t k) { m2v.resize(k); for (size_t i = 0; i < k; i++) { m2v[i] = __sym_real_i(n, i, 0.5, 2); if (F->Precision() == FIELD_DOUBLE) ((D *)F->m2Cpu())[i] = m2v[i]; else ((float *)F->m2Cpu())[i] = m2v[i]; } }
void energy(Scalar *f, void *e, EnType t, const double s) {
  __sym_eq(s, shiftWant, 1, "shift of the vacuum passed to the energy", (long)t); for (int i = 0; i < 32; i++) ((D *)e)[i] = eres[i];
  if (t == EN_MAP) { symM2("em", F->Size()); emv = m2v; m2 = "energy"; f->setM2(M2_ENERGY); } put(t == EN_MAP ? "energy map" : t == EN_MASK ? "energy of " + m2 : t == EN_ENE ? "energy" : "energy?");
}
void writeEnergy(Scalar *, void *e, double r) { for (int i = 0; i < 32; i++) __sym_eq(((D *)e)[i], eres[i], 1, "energies written", i); put("energies written" + (r >= 0 ? fmt(" %.2f", r) : S())); }
void writeEDens(Scalar *, MapType) { put("3D " + m2); }
void writeEMapHdf5s(Scalar *, int s, char *) { put("slice " + std::to_string(s) + " " + m2); }
void writeMapHdf5s(Scalar *, int s) { put("xy " + std::to_string(s)); }
void writeMapHdf5s2(Scalar *, int s) { put("yz " + std::to_string(s)); }

static D projIn, projOut; static S projOf; static std::map<S, int> power; static std::vector<D> ftv; static D curR; static int curMask; static std::map<S, D> tokR; static std::vector<D> smooths; static size_t smoothN, RED; static D LEN, MSA; static std::set<S> anyR;
static D m2at(size_t i) { return F->Precision() == FIELD_DOUBLE ? ((D *)F->m2Cpu())[i] : ((float *)F->m2Cpu())[i]; }
void projectField(Scalar *, std::function<double(double)> g) { projIn = __sym_real("px", 0.5, 2); projOut = g(projIn); projOf = m2; in(0); }
void projectField(Scalar *f, std::function<float(float)> g) { projectField(f, std::function<double(double)>([g](double x) { return (double)g((float)x); })); }
void writePMapHdf5s(Scalar *, char *n) { S l = n; __sym_eq(projOut, power.count(l) ? projIn * projIn : projIn, 4, "quantity projected", 0); put("projection " + l + " of " + projOf); }
void writePMapHdf5(Scalar *f) { writePMapHdf5s(f, (char *)"/map/P"); }
StringData strings(Scalar *) { StringData s; memset(&s, 0, sizeof s); s.strDen = strN; s.wallDn = 5; put("strings"); return s; }
StringData strings2(Scalar *) { StringData s; memset(&s, 0, sizeof s); s.strDen = strN; s.wallDn = 5; put("string coordinates"); return s; }
StringData stringlength(Scalar *, StringData s, StringMeasureType t) { __sym_check(s.strDen == strN && t == (StringMeasureType)__sym_param("strmeas", 0), "string length of the strings found"); s.strLen = 11; return s; }
StringEnergyData stringenergy(Scalar *) { StringEnergyData s; memset(&s, 0, sizeof s); s.rmask = -1; in(0); return s; }
void writeStringEnergy(Scalar *, StringEnergyData s) { put("string energy " + fmt("%.2f", s.rmask) + " of " + m2); }
void writeString(Scalar *, StringData s, bool map) { put(map ? "string map" : "string numbers"); if (F->Field() == FIELD_SAXION) __sym_check(s.strDen == strN && s.strLen == 11, "strings written are those found"); }
void writeStringCo(Scalar *, StringData s, bool) { put("string coordinates written"); }
void writeAttribute(void *p, const char *n, hid_t) { S l = n; if (l == "Wall time [s]") __sym_check(*(D *)p == 77.5, "wall time recorded"); else if (l == "Prop step #") __sym_check(*(int *)p == 1234, "step recorded"); put("attribute " + l, true); }
void writeAttributeg(void *p, const char *g, const char *n, hid_t) { S l = n; if (l == "Smoothing Length") __sym_eq(*(D *)p, smooths.back(), LEN, "smoothing length recorded", smooths.size()); put("attribute " + l + " of " + g); }
void writeBinnerMetadata(double mx, double mn, size_t, const char *) {}
void writeArray(double *a, size_t n, const char *g, const char *name, int) {
  S l = name, full = S(g) + "/" + l; if (S(g) == "/bins") { recOf[l] = (int)a[0]; put("bins " + l, l == "fsacceleration"); return; }
  S t = tok[(size_t)a[0]]; for (size_t i = 1; i < n; i++) __sym_check(a[i] == a[0], "spectrum written as computed"); put(full + " = " + t);
  if (anyR.count(l)) return; for (int j = 0; j < 3; j++) { S e = fmt("_%.2f", rlist[j]); if (l.size() > e.size() && l.substr(l.size() - e.size()) == e) __sym_eq(tokR[t], rlist[j] / MSA, 4, "mask radius in lattice units", j); }
}
void SpecBin::fillCosTable() {}
static void fill(std::vector<double> &b, const S &t) { tokR[t] = curR; b.assign(b.size(), code(t)); }
void SpecBin::masker(double r, SpectrumMaskType m, StatusM2 out, bool cum) {
  __sym_check(cum == cummask, "cumulative mask as asked"); curMask = m; curR = r; in(0);
  fill(binP, out == M2_MASK || out == M2_ANTIMASK ? "mask " + nm(m) : out == M2_ENERGY ? "energy masked by " + nm(m) : S("?"));
  if (out == M2_ANTIMASK) { m2 = "antimask " + nm(m); F->setM2(M2_ANTIMASK); } if (out == M2_MASK) { m2 = "mask " + nm(m); F->setM2(M2_MASK); }
}
void SpecBin::nRun(SpectrumMaskType m, nRunType t) {
  in(0); S s = nm(m) + (m == SPMASK_FLAT || curMask == m ? "" : " never set"); m2 = "spectrum";
  if (t & NRUN_K) fill(binK, "K " + s); if (t & NRUN_CK) fill(binK, "K pure " + s); if (t & NRUN_G) fill(binG, "G " + s); if (t & NRUN_CG) fill(binG, "G pure " + s);
  if (t & (NRUN_V | NRUN_CV)) fill(binV, "V " + s); if (t & (NRUN_S | NRUN_CS)) fill(binVnl, "S " + s);
}
void SpecBin::nSRun(SpectrumMaskType m, nRunType t) { in(0); S s = nm(m) + (m == SPMASK_FLAT || curMask == m ? "" : " never set"); m2 = "spectrum"; if (t & NRUN_K) fill(binK, "sK " + s); if (t & NRUN_G) fill(binG, "sG " + s); if (t & NRUN_V) fill(binV, "sV " + s); }
void SpecBin::pRun() { in(0); fill(binP, "power of " + m2); m2 = "modes of " + m2; symM2("ft", (RN + 2) * RN * RZ); ftv = m2v; F->setM2(M2_ENERGY_FFT); }
void SpecBin::nmodRun() { in(0); binNN.assign(nbins, code("number of modes")); }
void SpecBin::avekRun() { in(0); binAK.assign(nbins, code("mean wave number")); }
int SpecBin::unpad(PadIndex a, PadIndex b) { __sym_check(a == PFIELD_M2 && b == PFIELD_M2, "smoothed map unpadded in place"); return 0; }
void SpecBin::smoothFourier(double l, FilterIndex f) {
  in(0); __sym_check(f == FILTER_TOPHAT, "filter named in the file is the one applied"); smooths.push_back(l); for (size_t i = 0; i < ftv.size(); i++) if (fPrec == FIELD_DOUBLE) ((D *)F->m2half())[i] = ftv[i]; else ((float *)F->m2half())[i] = ftv[i];
  symM2("sm", (RN + 2) * RN * RZ); m2 = "energy smoothed"; F->setM2(M2_ENERGY_SMOOTH); F->setM2h(M2_ENERGY_FFT);
}
template <class C> static Scalar *red(Scalar *f, size_t x, size_t z, FieldIndex w, const std::function<C(int, int, int, C)> &g) {
  in(0); __sym_check(x == RED && z == RZ * RED / RN && w == FIELD_M2, "reduced map has the size asked"); const D k = 0.5 * M_PI * M_PI / (RED * RED);
  const int q[4][3] = {{0, 0, 0}, {1, 0, 0}, {0, -2, 1}, {1, 2, -1}}; for (int i = 0; i < 4; i++) { D a = __sym_real_i("ga", i, -2, 2); C o = g(q[i][0], q[i][1], q[i][2], C(a, 1)); D e = std::exp(-k * (q[i][0] * q[i][0] + q[i][1] * q[i][1] + q[i][2] * q[i][2])); __sym_eq((D)o.real(), a * e, 1, "smoothing of the reduced map", i); __sym_eq((D)o.imag(), e, 1, "smoothing of the reduced map", i); }
  if (f->m2Status() == M2_ENERGY_FFT) for (size_t i = 0; i < ftv.size(); i++) __sym_eq(m2at(i), ftv[i], 1, "energy modes the map is reduced from", i);
  m2 = f->m2Status() == M2_ENERGY_FFT || f->m2Status() == M2_ENERGY ? "energy reduced" : m2 + " not reduced"; return f;
}
Scalar *reduceField(Scalar *f, size_t x, size_t z, FieldIndex w, std::function<std::complex<float>(int, int, int, std::complex<float>)> g, bool) { return red<std::complex<float>>(f, x, z, w, g); }
Scalar *reduceField(Scalar *f, size_t x, size_t z, FieldIndex w, std::function<std::complex<double>(int, int, int, std::complex<double>)> g, bool) { return red<std::complex<double>>(f, x, z, w, g); }
FTfield::FTfield(Scalar *s) : field(s), Lz(s->Depth()), n1(s->Length()), n2(s->Surf()), n3(s->Size()), N(s->TotalSize()) {}
void FTfield::operator()(FieldIndex w, FFTdir d) { __sym_check(w == FIELD_MV && d == FFT_BCK && moms, "fields in momentum space are brought back"); moms = false; F->setMMomSpace(false); F->setVMomSpace(false); }
// what was asked for
static std::multiset<S> want; static std::set<S> allowed;
static void W(const S &s) { want.insert(s); }
static const char *LAB[] = {"0", "Vi", "Vi2", "Bal", "Red", "Gau", "Dif", "Axit", "Axit2"}; static const int MSK[] = {1, 2, 4, 64, 8, 16, 32, 512, 1024};
static S xs(const S &a, const S &n) { return a + " = " + n; }
template <class T> static void run() {
  const int type = __sym_param("type", 0), meas = __sym_param("meas", 0), mask0 = __sym_param("mask", 1), nrt = __sym_param("nrt", 7), maty = __sym_param("maty", 0), nr = __sym_param("nr", 0), idx = __sym_param("idx", 5), ng = __sym_param("ng", 1), z2 = __sym_param("z2", 0), strm = __sym_param("strmeas", 0), only = __sym_param("only", 0);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 4); RN = n; RZ = lz; RED = __sym_param("red", 2); LEN = 3; moms = __sym_param("mom", 0); cummask = __sym_param("cum", 0); strN = 7; pType = PROP_BASE; p3DthresholdMB = 1e20; cDev = DEV_CPU;
  mdl_size = 1; zGrid = 1; sizeN = n; sizeZ = lz; lowmem = false;
  Cosmos *c = mkCosmos(); c->SetPhysSize(LEN); c->SetLambda(0.7); c->ICData().zi = 1.5; if (__sym_param("massless", 0)) c->SetIndi3(0);
  F = mkScalar(c, n, lz, sizeof(T) == 8, type == 2 || type == 3 ? FIELD_SAXION : type == 1 ? FIELD_AXION : FIELD_SAXION, false, ng, z2 ? LAMBDA_Z2 : LAMBDA_FIXED); Scalar *f = F;
  if (type >= 2) { f->setField(FIELD_AXION); f->setField(type == 2 ? FIELD_NAXION : FIELD_PAXION); } f->setFolded(false); if (moms) { f->setMMomSpace(true); f->setVMomSpace(true); }
  R = __sym_real("R", 1, 3); *f->RV() = R; const bool sax = type == 0, cx = type == 0 || type == 2;
  MSA = sax && mask0 > 1 && (mask0 & 126) ? std::sqrt(2 * f->LambdaP()) * R * LEN / n : 1; shiftWant = sax ? R * f->Saskia() : 0; if (!(sax && mask0 > 1)) MSA = 1;
  for (int i = 0; i < 32; i++) eres[i] = __sym_real_i("e", i, -2, 2);
  const size_t N = n * n * lz; T *m = (T *)f->mStart(); const size_t w = cx ? 2 : 1, tot = (N + 2 * ng * n * n) * w; std::vector<D> mv(N * w); T *all = (T *)f->mCpu(); for (size_t i = 0; i < tot; i++) all[i] = 9; for (size_t i = 0; i < N * w; i++) { mv[i] = __sym_real_i("m", i, 0.25, 2); m[i] = (T)mv[i]; }
  rlist[0] = 1.5; rlist[1] = 3.25; rlist[2] = 4; MeasInfo I; I.index = idx; I.sliceprint = 3; I.idxprint = 2; I.measdata = (MeasureType)meas; I.mask = (SpectrumMaskType)mask0; I.rmask = nr ? rlist[0] : 2; for (int j = 0; j < nr; j++) I.rmask_tab.push_back(rlist[j]); I.nrt = (nRunType)nrt; I.nbinsspec = -1; I.maty = (SliceType)maty; I.i_rmask = nr; I.redmap = RED; I.strmeas = (StringMeasureType)strm; I.measCPU = true; I.cTimesec = 77.5; I.propstep = 1234; I.cummask = cummask; I.maskenergyonly = only;
  if (!nr) rlist[0] = 2; const int nrad = nr ? nr : 1;
  // the reference: what each request stands for
  const int msk = sax ? mask0 & 127 : type == 1 ? mask0 & 3585 : mask0, mm = meas & ~MEAS_3DMAP;
  if (meas & MEAS_3DMAP) W("conf " + std::to_string(idx));
  if (mm) {
    W("open " + std::to_string(idx)); W("attribute Wall time [s]"); W("attribute Prop step #"); if (moms) W("bins fsacceleration");
    if (maty & MAPT_XYMV) W("xy 3"); if (maty & MAPT_YZMV) W("yz 3"); const int pe = maty & (MAPT_XYPE | MAPT_XYPE2 | MAPT_XYE);
    const bool emap = pe || (mm & MEAS_NEEDENERGYM2), eany = emap || (mm & MEAS_NEEDENERGY); if (emap) W("energy map"); else if (eany) W("energy"); if (eany) W("energies written");
    if (mm & MEAS_ENERGY3DMAP) W("3D energy"); if (mm & MEAS_BINDELTA) W("bins contB"); if (maty & MAPT_XYE) W("slice 3 energy"); if (maty & MAPT_XYPE) W("projection /map/P of energy");
    if (maty & MAPT_XYPE2) { S l = maty & MAPT_XYPE ? "/map/P2" : "/map/P"; power[l] = 2; W("projection " + l + " of energy"); }
    if (mm & (MEAS_PSP_A | MEAS_REDENE3DMAP | MEAS_MULTICON)) {
      W("/pSpectrum/sP = power of energy"); if (type == 1) for (int j = 0; j < nrad; j++) { if (msk & 512) W(xs("/pSpectrum/sPmasked" + fmt("_%.2f", rlist[j]), "energy masked by 512")); if (msk & 1024) W(xs("/pSpectrum/sPmasked2" + fmt("_%.2f", rlist[j]), "energy masked by 1024")); if ((msk & 2048) && !j) W(xs("/pSpectrum/sPmaskedV", "energy masked by 2048")); }
      if (mm & MEAS_MULTICON) for (int k = 0; k <= (int)(4 * std::log2(n)); k++) { char b[32]; std::snprintf(b, 32, "%03d", k); S l = b; W("bins cont" + l + "B"); W("attribute Smoothing Length of /bins/cont" + l + "B"); W("attribute Filter Type of /bins/cont" + l + "B"); W("projection /map/P" + l + " of energy smoothed"); }
      if ((mm & MEAS_REDENE3DMAP) && RED) W("3D energy reduced");
    }
    if (sax) { S s = mm & MEAS_STRINGCOO ? "string coordinates" : "strings"; if (mm & (MEAS_STRING | MEAS_STRINGMAP | MEAS_STRINGCOO | MEAS_MASK)) { W(s); if (mm & MEAS_STRINGMAP) W("string map"); else if (!(mm & (MEAS_MASK | MEAS_STRINGCOO))) W("string numbers"); if (mm & MEAS_STRINGCOO) W("string coordinates written"); } else { allowed.insert(s); allowed.insert("string numbers"); } }
    for (int i = 0; i < 9; i++) if (msk & MSK[i]) for (int j = 0; j < (i > 2 ? nrad : 1); j++) {
      S M = std::to_string(MSK[i]), l = S(LAB[i]) + (i > 2 ? fmt("_%.2f", rlist[j]) : S()); const bool sp = mm & (MEAS_NSP_A | MEAS_NSP_S | MEAS_NNSPEC), mk = mm & MEAS_MASK;
      if (i && (sp || mk)) W("/mSpectrum/W_" + l + " = mask " + M); if (i && mk) W("projection /map/W_" + l + " of antimask " + M);
      if (!sp) continue; if (i == 4) { W("energy of mask 8"); W("energies written" + fmt(" %.2f", rlist[j])); if (strm & STRMEAS_ENERGY) W("string energy " + fmt("%.2f", rlist[j]) + " of mask 8"); if (only) continue; }
      const bool mv = !__sym_param("massless", 0); S E = "/eSpectrum/"; if (nrt & 1) W(E + "sK_" + l + " = K " + M); if (nrt & 2) W(E + "sG_" + l + " = G " + M); if ((nrt & 4) && mv) W(E + "sV_" + l + " = V " + M); if ((nrt & 8) && mv) W(E + "sS_" + l + " = S " + M);
      if (nrt & 16) W(E + "sCK_" + l + " = K pure " + M); if (nrt & 32) W(E + "sCG_" + l + " = G pure " + M); if ((nrt & 64) && mv) W(E + "sCV_" + l + " = V " + M); if ((nrt & 128) && mv) W(E + "sCS_" + l + " = S " + M);
      if (sax && (mm & MEAS_NSP_S)) { if (nrt & 1) W(E + "sKS_" + l + " = sK " + M); if (nrt & 2) W(E + "sGS_" + l + " = sG " + M); if (nrt & 4) W(E + "sVS_" + l + " = sV " + M); }
    }
    if ((mm & (MEAS_NSP_A | MEAS_NSP_S | MEAS_NNSPEC)) && (idx == 0 || (mm & MEAS_NNSPEC))) { W("/nSpectrum/nmodes = number of modes"); W("/nSpectrum/averagek = mean wave number"); }
    if (mm & MEAS_BINTHETA) { if (type < 2) W("bins thetaB"); if (type == 2) W("bins thetaP2"); } if ((mm & MEAS_BINRHO) && sax) W("bins rhoB"); if ((mm & MEAS_BINLOGTHETA2) && type < 2) W("bins logtheta2B");
  }
  if (type == 1) anyR.insert("none");
  MeasData d = Measureme(f, I);
  __sym_check(nopen == (mm != 0) && nclose == nopen, "measurement file opened and closed once"); std::multiset<S> got(ev.begin(), ev.end());
  for (const S &s : want) if (!got.count(s)) { __sym_note(("missing: " + s).c_str()); __sym_check(false, "every part asked for is measured"); }
  for (const S &s : got) { if (!want.count(s) && !allowed.count(s)) { __sym_note(("extra: " + s).c_str()); __sym_check(false, "nothing else is measured"); } if (got.count(s) > want.count(s) && want.count(s) && s.compare(0, 19, "/pSpectrum/sPmasked")) { __sym_note(("repeated: " + s).c_str()); __sym_check(false, "each part is measured once"); } }
  auto arg = [&](size_t i) { return std::atan2(mv[2 * i + 1], mv[2 * i]); }; auto mod = [&](size_t i) { return std::sqrt(mv[2 * i] * mv[2 * i] + mv[2 * i + 1] * mv[2 * i + 1]); };
  auto th = [&](size_t i) { return sax ? arg(i) : type == 2 ? mod(i) : mv[i] / R; };
  for (const char *l : {"thetaB", "thetaP2", "rhoB", "logtheta2B"}) if (recOf.count(l)) {
    const BinRec &b = binRecs[recOf[l]]; __sym_check(b.val.size() == N, "histogram over every site of the process"); const S s = l;
    for (size_t i = 0; i < N && i < b.val.size(); i++) { D e = s == "rhoB" ? mod(i) / R : s == "logtheta2B" ? std::log10(1e-10 + th(i) * th(i)) : th(i); __sym_eq(b.val[i], e, s == "logtheta2B" ? 10 : 2, "quantity in the histogram", i); }
  }
  const bool emapped = got.count("energy map"); D eA = 0, eS = 0; for (int i = 0; i < 5; i++) { eA += eres[i]; eS += eres[i + 5]; }
  __sym_eq(d.eA, emapped ? eA : 0, 1, "axion energy handed back", 0); __sym_eq(d.eS, emapped ? eS : 0, 1, "saxion energy handed back", 0);
  if (recOf.count("contB")) { const BinRec &b = binRecs[recOf["contB"]]; __sym_check(b.val.size() == N, "histogram over every site of the process"); for (size_t i = 0; i < N && i < b.val.size(); i++) __sym_eq(b.val[i], std::log10((T)emv[i] / (float)eA), 10, "density contrast in the histogram", i); }
  for (size_t k = 0; k < smooths.size(); k++) { const D steps = (int)(4 * std::log2(n)); char q[32]; std::snprintf(q, 32, "cont%03dB", (int)k); __sym_eq(smooths[k], 0.25 * std::exp(std::log(4 * n) * k / steps) * LEN / n, 1, "smoothing length", k); if (recOf.count(q)) __sym_check(binRecs[recOf[q]].val.size() == N, "smoothed contrast over every site without padding"); }
  if (recOf.count("thetaB") || recOf.count("thetaP2")) { const BinRec &b = binRecs[recOf[type == 2 ? "thetaP2" : "thetaB"]]; D lo = std::fabs(b.mn); __sym_eq(d.maxTheta, type == 2 ? b.mx : lo > b.mx ? lo : b.mx, 9, "largest angle handed back", 0); }
  else if (type == 3 && got.count("energies written")) __sym_eq(d.maxTheta, eres[3], 1, "largest value handed back", 0);
  else __sym_check(d.maxTheta == -1, "no angle handed back");
  if (got.count("strings") || got.count("string coordinates")) __sym_check(d.str.strDen == strN && d.str.wallDn == 5, "strings handed back"); else __sym_check(d.str.strDen == 0, "no strings handed back");
  __sym_reach("end");
}
extern "C" void harness() { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
