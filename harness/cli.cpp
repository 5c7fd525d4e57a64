// The command line: every numeric option, the derived quantities, and the cosmology built from them.
#include "common.h"
#include <cmath>
extern size_t sizeN, sizeZ, kMax, iter, wTime, fftplanType; extern int zGrid, nSteps, dump, Nng, slicepp, cumumas, endredmap, endredmapwkb, safest0;
extern double nQcd, indi3, msa, lz2e, wDz, sizeL, zInit, zFinl, fA, frw, zthres, zrestore, LL, dwgammo, gammo, dectime, wkb2z, ng0calib, rmask;
extern bool uMsa, uLogi, uPot, lowmem, spectral, fpectral, mink, aMod, coSwitch2theta, measCPU, maskenergyonly, p3dstrings, p3dwalls, restart_flag, p2dmapo, p2dEmapo, p2dPmapo;
extern LambdaType lType; extern VqcdType vqcdType; extern PropType pType; extern IcData icdatst; extern MeasInfo deninfa; extern FieldPrecision sPrec; extern VerbosityLevel verb; extern char outName[], gadName[]; extern GadType gadType; extern DeviceType cDev; extern LogMpi logMpi;
extern FieldType fTypeP; extern MeasureType rho2thetameasType; extern SpectrumMaskType spmask; extern StringMeasureType strmeas; extern nRunType nrt;
extern char outName[], gadName[]; extern GadType gadType; extern DeviceType cDev; extern LogMpi logMpi;
int parseArgs(int, char **); int parseDims(int, char **); Cosmos createCosmos();
static double val[12]; static bool expectStop = false; static bool bad();
extern "C" double mdl_num(const char *s) {
  if (!s) { __sym_check(0, "a missing value is noticed"); return 0; }
  if (s[0] == '@') return val[s[1] - '0'];
  double sg = 1, v = 0; if (*s == '-') { sg = -1; s++; } while (*s >= '0' && *s <= '9') v = 10 * v + (*s++ - '0'); return sg * v;
}
extern "C" void mdl_cliexit(int c) { __sym_check(c != 0 && bad(), "only an invalid command line is refused"); __sym_reach("end"); __sym_assume(0); }
typedef double D;
struct Num { const char *name; D (*got)(); bool (*bad)(D); };
#define N_(o, v, b) {o, []() -> D { return (D)(v); }, [](D x) -> bool { (void)x; return b; }},
static const Num NUM[] = {
  N_("--frw", frw, false) N_("--kcr", icdatst.kcr, x < 0) N_("--alpha", icdatst.alpha, x < 0 || x > 1) N_("--pregam", icdatst.pregammo, x < 0) N_("--prelz2e", icdatst.prelZ2e, false)
  N_("--dwgam", dwgammo, x < 0) N_("--gam", gammo, x < 0) N_("--dectime", dectime, x < 0) N_("--beta", icdatst.beta, false) N_("--gravity", icdatst.grav, false)
  N_("--L1_pc", icdatst.L1_pc, false) N_("--zi", icdatst.zi, x < 0) N_("--kickalpha", icdatst.kickalpha, false) N_("--extrav", icdatst.extrav, false) N_("--zf", zFinl, x < 0)
  N_("--lsize", sizeL, x <= 0) N_("--llcf", LL, x <= 0) N_("--Rc", zthres, x <= 0) N_("--RcOff", zrestore, x <= 0) N_("--msa", msa, x <= 0)
  N_("--lz2e", lz2e, false) N_("--ind3", indi3, x < 0) N_("--wDz", wDz, x <= 0) N_("--mode0", icdatst.mode0, false) N_("--qcd", nQcd, x < 0)
  N_("--fA", fA, x < 0) N_("--prepstL", icdatst.prepstL, x <= 0) N_("--prepcoe", icdatst.prepcoe, x <= 1) N_("--ng0calib", ng0calib, false) N_("--wkb", wkb2z, x < zFinl)
  N_("--logi", icdatst.logi, false) N_("--gamall", gammo, x < 0) };
enum { oFRW, oKCR, oALPHA, oPREGAM, oPRELZ, oDWGAM, oGAM, oDEC, oBETA, oGRAV, oL1, oZI, oKICK, oEXTRAV, oZF, oLSIZE, oLLCF, oRC, oRCOFF, oMSA, oLZ2E, oIND3, oWDZ, oMODE0, oQCD, oFA, oPSTL, oPCOE, oNG0, oWKB, oLOGI, oGAMALL, NN };
struct Cnt { const char *name; long (*got)(); };
#define I_(o, v) {o, []() -> long { return (long)(v); }},
static const Cnt CNT[] = { I_("--steps", nSteps) I_("--dump", dump) I_("--size", sizeN) I_("--depth", sizeZ) I_("--kmax", icdatst.kMax) I_("--sIter", icdatst.siter) I_("--index", fIndex) I_("--sst0", safest0) I_("--meas", deninfa.measdata)
  I_("--meas2theta", rho2thetameasType) I_("--lap", icdatst.Nghost) I_("--nbinsspec", deninfa.nbinsspec) I_("--cummask", deninfa.cummask) I_("--redmp", deninfa.redmap) I_("--redmpwkb", endredmapwkb) I_("--p3D", deninfa.printconf) I_("--sliceprint", deninfa.sliceprint)
  I_("--idxprint", deninfa.idxprint) I_("--spmask", deninfa.mask) I_("--spKGV", deninfa.nrt) I_("--strmeas", deninfa.strmeas) I_("--fftplan", fftplanType) I_("--prevqcdtype", icdatst.prevtype) };
enum { NC = sizeof(CNT) / sizeof(CNT[0]) };
struct Flg { const char *name, *arg; long (*got)(); };
#define F_(o, a, v) {o, a, []() -> long { return (long)(v); }},
static const Flg FLG[] = { F_("--lowmem", 0, lowmem) F_("--notheta", 0, !coSwitch2theta) F_("--norandommom", 0, !icdatst.randommom) F_("--nncore", 0, !icdatst.normcore) F_("--hybrid_gravity", 0, icdatst.grav_hyb) F_("--sat_gravity", 0, icdatst.grav_sat)
  F_("--part_vel", 0, icdatst.part_vel) F_("--sm_vel", 0, icdatst.sm_vel) F_("--part_disp", 0, icdatst.part_disp) F_("--measCPU", 0, deninfa.measCPU) F_("--maskenergyonly", 0, deninfa.maskenergyonly) F_("--cax", 0, aMod) F_("--restart", 0, restart_flag)
  F_("--preprop", 0, icdatst.preprop) F_("--icstudy", 0, icdatst.icstudy) F_("--p3Dstr", 0, p3dstrings) F_("--p3Dwal", 0, p3dwalls) F_("--prec", "double", sPrec == FIELD_DOUBLE) F_("--ftype", "axion", icdatst.fType == FIELD_AXION) F_("--ftype", "Paxion", icdatst.fType == FIELD_PAXION)
  F_("--ctype", "kmax", icdatst.cType == CONF_KMAX) F_("--ctype", "smooth", icdatst.cType == CONF_SMOOTH) F_("--ctype", "vilgor", icdatst.cType == CONF_VILGOR) F_("--ctype", "string", icdatst.cType == CONF_STRING) F_("--ctype", "tkachev", icdatst.cType == CONF_TKACHEV)
  F_("--smvar", "stXY", icdatst.smvarType == CONF_STRINGXY) F_("--smvar", "stYZ", icdatst.smvarType == CONF_STRINGYZ) F_("--smvar", "mc0", icdatst.smvarType == CONF_MINICLUSTER0) F_("--smvar", "axnoise", icdatst.smvarType == CONF_AXNOISE) F_("--smvar", "saxnoise", icdatst.smvarType == CONF_SAXNOISE)
  F_("--prop", "leap", pType & PROP_LEAP) F_("--prop", "rkn4", pType & PROP_RKN4) F_("--prop", "om2", pType & PROP_OMELYAN2) F_("--prop", "om4", pType & PROP_OMELYAN4) F_("--prop", "mleap", pType & PROP_MLEAP)
  F_("--vqcdC", 0, (vqcdType & V_QCD) == V_QCDC) F_("--vqcdV", 0, (vqcdType & V_QCD) == V_QCDV) F_("--vqcdL", 0, (vqcdType & V_QCD) == V_QCDL) F_("--vqcd0", 0, (vqcdType & V_QCD) == V_QCD0) F_("--N2", 0, (vqcdType & V_QCD) == V_QCD2)
  F_("--vPQ2", 0, (vqcdType & V_PQ) == V_PQ2) F_("--vPQ3", 0, (vqcdType & V_PQ) == V_PQ3) F_("--onlyrho", 0, (vqcdType & V_EVOL_RHO) != 0) F_("--onlytheta", 0, (vqcdType & V_EVOL_THETA) != 0) F_("--mink", 0, mink && frw == 0.0) F_("--spec", 0, spectral && (pType & PROP_SPEC)) F_("--fspec", 0, fpectral && (pType & PROP_FSPEC)) };
enum { NF = sizeof(FLG) / sizeof(FLG[0]) };
static std::vector<int> used; // numeric options in order of appearance
static D given(int o, D dflt) { D r = dflt; for (size_t i = 0; i < used.size(); i++) if (used[i] == o) r = val[i]; return r; }
static bool has(int o) { for (int u : used) if (u == o) return true; return false; }
static bool bad() {
  bool b = expectStop; for (size_t i = 0; i < used.size(); i++) b = b | (used[i] == oWKB ? val[i] < given(oZF, 1.0) : NUM[used[i]].bad(val[i]));
  return b; }
static std::vector<const char *> av; static void arg(const char *s) { av.push_back(s); }
static const char *AT[] = {"@0", "@1", "@2", "@3", "@4", "@5", "@6", "@7", "@8", "@9"};
static void num(int o, D lo, D hi) { val[used.size()] = __sym_real_i("arg", used.size(), lo, hi); arg(NUM[o].name); arg(AT[used.size()]); used.push_back(o); }
static void parse() { int r = parseArgs((int)av.size(), (char **)av.data()); (void)r; __sym_check(!bad(), "an invalid command line is refused"); }
#define N1(o, v) {o, []() -> D { return (D)(v); }},
static bool ms0() { return __sym_param("bare", 0); }
extern "C" void harness() {
  const int what = __sym_param("what", 0), o1 = __sym_param("o1", -1), o2 = __sym_param("o2", -1), fi = __sym_param("fidx", -1); static char buf[4][32];
  arg("prog"); if (fi >= 0) { arg("--index"); snprintf(buf[0], 32, "%d", fi); arg(buf[0]); }
  if (what == 0) { // one or two numeric options
    // the cosmology of a run that names nothing: for comparison
    std::vector<D> dflt(NN); icdatst.kcr = 1; icdatst.alpha = 0.143; icdatst.pregammo = 0; icdatst.prelZ2e = 0; icdatst.beta = 1; icdatst.grav = -1; icdatst.L1_pc = 0.036; icdatst.zi = 0.5; icdatst.kickalpha = 0; icdatst.extrav = 0; icdatst.mode0 = 0; icdatst.prepstL = 5; icdatst.prepcoe = 3; icdatst.logi = 0;
    for (int i = 0; i < NN; i++) dflt[i] = NUM[i].got();
    if (o1 >= 0) num(o1, -3, 6); if (o2 >= 0) num(o2, -3, 6);
    parse();
    for (int i = 0; i < NN; i++) {
      D want = given(i, dflt[i]);
      if (i == oMSA && !has(oMSA)) continue;                     // derived, see below
      if (i == oLOGI && !has(oLOGI)) continue; if (i == oZI && has(oLOGI)) continue;
      if (i == oLLCF && has(oMSA)) continue; if (i == oLZ2E && has(oMSA) && !has(oLZ2E)) want = 2;
      if (i == oGAM || i == oGAMALL) want = given(oGAM, given(oGAMALL, dflt[i]));
      if (i == oRC || i == oRCOFF) { D th = given(oRC, dflt[oRC]), rs = given(oRCOFF, dflt[oRCOFF]); if (rs < th) want = 1e20; }
      __sym_eq(NUM[i].got(), want, 1, "value of the option", i);
    }
    __sym_check(zInit == icdatst.zi, "both start times agree");
    const bool z2 = has(oMSA); __sym_check(lType == (z2 ? LAMBDA_Z2 : LAMBDA_FIXED), "kind of string tension"); __sym_check(has(oGAM) == ((vqcdType & V_DAMP_RHO) != 0) || has(oDEC), "damping of the modulus only"); __sym_check(has(oGAMALL) == ((vqcdType & V_DAMP_ALL) == V_DAMP_ALL) || V_DAMP_ALL == 0 || has(oGAM) || has(oDEC), "damping of everything");
    Cosmos c = createCosmos(), e; const bool rd = fi >= 0;
#define CO(m, q, o) __sym_eq(c.m(), (!rd || (q)) ? NUM[o].got() : e.m(), 1, "cosmology: " #m, o)
    CO(PhysSize, has(oLSIZE), oLSIZE); CO(QcdExp, has(oQCD), oQCD); CO(Gamma, has(oGAM) || has(oGAMALL), oGAM); CO(DecTime, has(oDEC), oDEC); CO(ZThRes, has(oRC), oRC); CO(ZRestore, has(oRCOFF), oRCOFF); CO(Indi3, has(oIND3), oIND3);
    if (!rd || has(oLLCF) || z2) { __sym_eq(c.Lambda(), LL, 1, "cosmology: Lambda", 0); __sym_eq(c.LamZ2Exp(), z2 ? lz2e : 0.0, 1, "cosmology: LamZ2Exp", 0); } else { __sym_eq(c.Lambda(), e.Lambda(), 1, "cosmology: Lambda", 0); __sym_eq(c.LamZ2Exp(), e.LamZ2Exp(), 1, "cosmology: LamZ2Exp", 0); }
    if (!rd || has(oFRW)) __sym_eq(c.Frw(), frw, 1, "cosmology: Frw", 0); else __sym_eq(c.Frw(), e.Frw(), 1, "cosmology: Frw", 0);
    __sym_eq(c.ICData().zi, icdatst.zi, 1, "cosmology: initial data", 0);
    if (!rd || has(oGAM) || has(oGAMALL) || has(oDEC)) __sym_check(c.QcdPot() == vqcdType, "cosmology: potential"); else __sym_check(c.QcdPot() == e.QcdPot(), "cosmology: potential kept for the file");
  } else if (what == 1) { // string tension from the core resolution, start from the logarithm
    const int lz = __sym_param("lz", 0), fr = __sym_param("fr", 1), ms = __sym_param("ms", 1), lo = __sym_param("lo", 0), first = __sym_param("first", 0);
    auto fixed = [&]() { arg("--lz2e"); snprintf(buf[1], 32, "%d", lz); arg(buf[1]); arg("--frw"); snprintf(buf[2], 32, "%d", fr); arg(buf[2]); };
    if (first) fixed(); arg("--size"); arg("64");
    num(oLSIZE, 1, 6); if (ms) num(oMSA, 0.25, 2); else num(oLLCF, 100, 9000); if (lo) num(oLOGI, 1, 4); else num(oZI, 0.25, 2); num(oZF, 2, 6); if (!first) fixed();
    parse();
    const D d2 = (sizeL / 64) * (sizeL / 64), zi = icdatst.zi, zr = ms && lz <= 2 ? zFinl : zi; auto ipow = [](D b, int e) { D r = 1; for (int i = 0; i < (e < 0 ? -e : e); i++) r *= b; return e < 0 ? 1 / r : r; };
    __sym_eq(lz2e, lz, 1, "exponent of the string tension", 0); __sym_eq(frw, fr, 1, "expansion exponent", 0);
    __sym_eq(msa * msa, 2 * LL * d2 * ipow(zr, fr * (2 - lz)), 1, "lattice spacing in core units", 0);
    if (ms) __sym_eq(msa, given(oMSA, 0), 1, "core resolution as given", 0); else __sym_eq(LL, given(oLLCF, 0), 1, "string tension as given", 0);
    const D at = 2 * LL * ipow(zi, 2 + fr * (2 - lz));           // (m_s d_H)^2 at the start
    if (lo && ms && lz > 2) __sym_eq(std::exp(icdatst.logi) * std::exp(icdatst.logi), at, 1, "logarithm at the start", 0);
    else if (lo) __sym_eq(std::exp(2 * icdatst.logi), at, 1, "logarithm at the start", 0); else if (ms) __sym_eq(icdatst.logi, 0.5 * std::log(at), 1, "logarithm at the start", 0);
    if (lo) __sym_eq(icdatst.logi, given(oLOGI, 0), 1, "logarithm as given", 0); else __sym_eq(zi, given(oZI, 0), 1, "start as given", 0);
    __sym_check(zInit == zi, "both start times agree");
    Cosmos c = createCosmos(); __sym_eq(c.Lambda(), LL, 1, "cosmology: Lambda", 0); __sym_eq(c.LamZ2Exp(), ms ? lz : 0, 1, "cosmology: LamZ2Exp", 0); __sym_eq(c.PhysSize(), sizeL, 1, "cosmology: PhysSize", 0); __sym_eq(c.ICData().zi, zi, 1, "cosmology: start", 0);
  } else if (what == 2) { // whole numbers and switches
    const int k = __sym_param("k", -1), v = __sym_param("v", 3), g = __sym_param("g", -1);
    std::vector<long> w(NC); std::vector<long> fl(NF);
    if (k >= 0) { arg(CNT[k].name); snprintf(buf[1], 32, "%d", v); arg(buf[1]); }
    if (g >= 0) { arg(FLG[g].name); if (FLG[g].arg) arg(FLG[g].arg); }
    parse();
    static const long DEF[NC] = {5, 100, 128, 128, 2, 40, -1, 20, 0, 0, 1, -1, -1, -1, -1, 0, 0, 0, 0, 0, 0, 0, -99};
    for (int i = 0; i < NC; i++) if (i == k || (DEF[i] != -99)) { long want = i == k ? v : DEF[i]; if (fi >= 0 && i == 6) want = fi; __sym_check(CNT[i].got() == want, CNT[i].name); }
    for (int i = 0; i < NF; i++) { bool on = FLG[i].got() != 0, dflt = std::strcmp(FLG[i].name, "--ctype") == 0 ? FLG[i].arg[0] == 'k' && !(g >= 0 && !std::strcmp(FLG[g].name, "--ctype")) : std::strcmp(FLG[i].name, "--prop") == 0 ? FLG[i].arg[0] == 'r' && !(g >= 0 && !std::strcmp(FLG[g].name, "--prop")) : false; __sym_check(on == (i == g || dflt), FLG[i].name); }
  } else if (what == 4) { // the processes, the device and the log
    const int zg = __sym_param("zg", 0), vb = __sym_param("vb", -9), dv = __sym_param("dv", 0), lg = __sym_param("lg", 0);
    if (lg == 1) arg("--nologmpi"); if (zg) { arg("--zgrid"); snprintf(buf[1], 32, "%d", zg); arg(buf[1]); } arg("--size"); arg("32");
    if (vb > -9) { arg("--verbose"); snprintf(buf[2], 32, "%d", vb); arg(buf[2]); } if (dv) { arg("--device"); arg("cpu"); } if (lg == 2) arg("--nologmpi");
    expectStop = zg < 0; av.reserve(64); parseDims((int)av.size(), (char **)av.data()); __sym_check(!bad(), "an invalid command line is refused");
    __sym_check(zGrid == (zg ? zg : 1), "number of processes"); __sym_check((int)verb == (vb == -9 ? 1 : vb < 0 ? 0 : vb > 3 ? 3 : vb), "verbosity");
    __sym_check(cDev == DEV_CPU, "device"); __sym_check(logMpi == (lg ? ZERO_RANK : ALL_RANKS), "who writes the log");
    expectStop = false; const int before = zGrid; parse(); __sym_check(zGrid == before && sizeN == 32, "the other options are still read");
  } else if (what == 5) { // what to measure, and where to look for axitons
    static const struct { const char *n; long bit, maty; } M[] = {{"--p2Dmap", MEAS_2DMAP, MAPT_XYMV}, {"--p2DmapE", MEAS_2DMAP, MAPT_XYE}, {"--p2DmapP", MEAS_2DMAP, MAPT_XYPE2}, {"--p2DmapPE", MEAS_2DMAP, MAPT_XYPE}, {"--p2DmapPE2", MEAS_2DMAP, MAPT_XYPE2},
      {"--p2DmapYZ", MEAS_2DMAP, MAPT_YZMV}, {"--p2Dslice", MEAS_2DMAP, MAPT_XYMV}, {"--p2DsliceYZ", MEAS_2DMAP, MAPT_YZMV}, {"--measaux", MEAS_AUX, 0}, {"--printmask", MEAS_MASK, 0}, {"--meas", 6, 0}, {"--sliceprint", 0, 0}};
    static const struct { const char *n; D (*got)(); } A[] = {N1("--axitontracker.th_threshold", icdatst.axtinfo.th_threshold) N1("--axitontracker.vh_threshold", icdatst.axtinfo.ve_threshold) N1("--axitontracker.con_threshold", icdatst.axtinfo.con_threshold)
      N1("--axitontracker.ct_threshold", icdatst.axtinfo.ct_threshold) N1("--axitontracker.printradius", icdatst.axtinfo.printradius) N1("--axitontracker.gradients", icdatst.axtinfo.gradients) N1("--axitontracker", icdatst.axtinfo.nMax)};
    long bit = 0, maty = 0; int slice = 0; D want[7] = {-1, -1, -1, -1, 1, 0, -1}; int nr = 0;
    for (int o : {o1, o2}) if (o >= 40) { // a mask radius
        val[nr] = __sym_real_i("arg", nr, 0.5, 4); arg("--rmask"); arg(AT[nr]); nr++;
      } else if (o >= 20) { const int k = o - 20; arg(A[k].n); if (k < 4) { val[k] = __sym_real_i("arg", k, 0, 6); arg(AT[k]); want[k] = val[k]; } else if (k == 5) want[5] = 1; else if (k == 6 && ms0()) want[6] = -2; else { arg("7"); want[k] = 7; }
      } else if (o >= 0) { arg(M[o].n); bit |= M[o].bit; maty |= M[o].maty; if (o == 10) arg("6"); if (o == 6 || o == 7 || o == 11) { arg("9"); slice = 9; } }
    arg("--size"); arg("32"); av.reserve(64); av.data()[av.size()] = nullptr; parse();
    __sym_check(deninfa.measdata == bit, "kinds of measurement"); __sym_check(deninfa.maty == maty, "kinds of map"); __sym_check((int)deninfa.sliceprint == slice, "slice"); __sym_check(sizeN == 32, "the other options are still read");
    for (int k = 0; k < 7; k++) __sym_eq(A[k].got(), want[k], 1, A[k].n, k);
    __sym_check((int)deninfa.rmask_tab.size() == deninfa.i_rmask, "number of mask radii");
    if (nr == 1) { __sym_check(deninfa.i_rmask == 1, "one mask radius"); __sym_eq(deninfa.rmask_tab[0], val[0], 1, "mask radius", 0); __sym_eq(deninfa.rmask, val[0], 1, "mask radius", 1); }
    if (nr == 2) { const D a = std::min(val[0], val[1]), b = std::max(val[0], val[1]); __sym_check(deninfa.i_rmask == (a == b ? 1 : 2), "distinct mask radii"); __sym_eq(deninfa.rmask_tab[0], a, 1, "mask radius in order", 0); __sym_eq(deninfa.rmask_tab[deninfa.i_rmask - 1], b, 1, "mask radius in order", 1); __sym_eq(deninfa.rmask, val[1], 1, "mask radius", 1); }
    if (!nr) __sym_check(deninfa.i_rmask == 0, "no mask radius");
  } else if (what == 6) { // names and the wall time
    arg("--name"); arg("abc_de"); arg("--gname"); arg("fgh"); arg("--gadtype"); arg(o1 ? "halo" : "void"); arg("--vPQ1"); if (o2) { arg("--wTime"); arg(o2 == 1 ? "3" : "-3"); } expectStop = o2 == 2; parse();
    __sym_check(!std::strcmp(outName, "abc_de") && !std::strcmp(gadName, "fgh"), "names"); __sym_check(gadType == (o1 ? HALO : VOID), "kind of particle file"); __sym_check((vqcdType & V_PQ) == V_PQ1, "potential");
    __sym_check(wTime == (o2 ? 3ull * 3600000000ull : ~0ull), "wall time");
  } else { // refused: unknown options, missing values, values outside their range
    expectStop = true; const int b = __sym_param("b", 0), k = __sym_param("k", 0);
    if (b == 0) arg("--nosuchoption"); else if (b == 1) arg(NUM[k].name); else if (b == 2) arg(CNT[k].name); else if (b == 3) { arg(CNT[k].name); arg("-2"); } else { arg(FLG[k].name); arg("nonsense"); }
    av.reserve(64); av.data()[av.size()] = nullptr; parse();
  }
  __sym_reach("end");
}
