// The evolution before the start of a run: what it evolves, with which parameters, until when, and what it leaves behind.
// The propagator here moves the time by an amount of its own, so that every step is judged from a known time.
#include "common.h"
#include "scalar/normCore.h"
#include "strings/strings.h"
#include "meas/measa.h"
#include "propagator/allProp.h"
#include "gen/prepropa.h"
#include "cosmos/cosmos.h"
#include <functional>
extern double wDz; extern bool icstudy; extern int fIndex2; extern PropType pType; extern DeviceType cDev; extern MeasureType defaultmeasType;
static std::function<void()> onNorm, onTune; static std::function<void(int, int)> onInit; static std::function<void(double)> onProp; static std::function<void(int, const MeasInfo *)> onLook;
void normCoreField(Scalar *) { onNorm(); }
void initPropagator(PropType p, Scalar *, VqcdType v, int) { onInit(p, v); }
void tunePropagator(Scalar *) { onTune(); }
void propagate(Scalar *, const double dz) { onProp(dz); }
StringData strings(Scalar *) { onLook(-1, nullptr); StringData s; memset((void *)&s, 0, sizeof s); return s; }
MeasData Measureme(Scalar *, MeasInfo i) { onLook(i.index, &i); MeasData m; return m; }
static void look_at(const MeasInfo &q) { __sym_check(q.measdata == MEAS_ENERGY && q.mask == SPMASK_VIL && q.nrt == NRUN_KG && q.maty == MAPT_XYMV && q.strmeas == STRMEAS_LENGTH && q.redmap == 64 && q.measCPU && !q.maskenergyonly && q.cummask == 1, "the measurement is the requested one");
  __sym_check(q.i_rmask == 2 && q.rmask_tab.size() == 2 && q.rmask_tab[0] == 1.5 && q.rmask_tab[1] == 2.5 && q.rmask == 1.5 && q.nbinsspec == -1 && q.sliceprint == 0 && q.idxprint == 0 && q.propstep == 0 && q.cTimesec == 0 && q.printconf == PRINTCONF_NONE, "the parameters of the measurement are the requested ones"); }
static void request() { defaultmeasType = MEAS_ENERGY; spmask = SPMASK_VIL; rmask = 1.5; rmask_tab = {1.5, 2.5}; nrt = NRUN_KG; maty = MAPT_XYMV; MeasInfo &d = deninfa; d.index = 0; d.measdata = defaultmeasType; d.mask = spmask; d.nrt = nrt; d.maty = maty; d.rmask = rmask; d.rmask_tab = rmask_tab; d.i_rmask = 2;
  d.strmeas = STRMEAS_LENGTH; d.redmap = 64; d.measCPU = true; d.maskenergyonly = false; d.cummask = 1; d.nbinsspec = -1; d.sliceprint = d.idxprint = 0; d.propstep = 0; d.cTimesec = 0; d.printconf = PRINTCONF_NONE; }
template <class T> static void run() {
  const size_t n = __sym_param("n", sizeof(T) == 8 ? 4 : 8), lz = __sym_param("lz", 2), N = n * n * lz; const int lt = __sym_param("lt", 0), pre = __sym_param("pre", 2), gam = __sym_param("gam", 1), core = __sym_param("core", 1);
  Cosmos *c = mkCosmos(); const double zi = 1.5, coe = __sym_param("coe", 3), lam = __sym_real("lambda", 0.5, 2), g0 = __sym_real("gamma", 0, 1), g1 = gam ? __sym_real("pregam", 0.01, 1) : 0, lz2 = lt == 0 ? 0 : lt;
  request(); icstudy = __sym_param("study", 0); fIndex2 = 55; pType = PROP_RKN4; cDev = DEV_CPU; wDz = __sym_param("wdz", 12) / 8.;
  c->SetPhysSize(3.0); c->SetLambda(lam); c->SetGamma(g0); c->SetLamZ2Exp(lz2); c->SetFrw(__sym_param("frw", 1)); c->SetQcdPot(V_QCD1_PQ1); c->SetIndi3(0.3);
  IcData &ic = c->ICData(); ic.zi = zi; ic.preprop = true; ic.prepcoe = coe; ic.prelZ2e = pre; ic.pregammo = g1; ic.prevtype = V_QCD2_PQ1_RHO; ic.normcore = core;
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_SAXION, false, 1, lt ? LAMBDA_Z2 : LAMBDA_FIXED); f->setFolded(false);
  std::complex<T> *m = (std::complex<T> *)f->mStart(), *v = (std::complex<T> *)f->vCpu(); std::vector<std::complex<double>> M(N);
  for (size_t i = 0; i < N; i++) { double a = 0.1 * (int)(i % 7) - 0.3, b = 0.2 - 0.05 * (int)(i % 5); if (i % 5 == 2) { a = __sym_real_i("re", i, -1, 1); b = __sym_real_i("im", i, -1, 1); } m[i] = std::complex<T>((T)a, (T)b); M[i] = {(double)m[i].real(), (double)m[i].imag()}; v[i] = 7; }
  *f->zV() = zi / coe; f->updateR(); const double R0 = *f->RV(), Ri = f->Rfromct(zi);
  auto coupling = [&](const char *lab) { const double R = f->Rfromct(*f->zV()), ex = lam / std::pow(Ri, lz2) * std::pow(Ri / R, (double)pre); __sym_eq(f->LambdaP(), ex, ex, lab, -1); };
  int norm = 0, init = 0, tune = 0, prop = 0, look = 0;
  onNorm = [&]() { __sym_check(!norm++ && !init, "cores adjusted once, first"); coupling("coupling of the cores"); for (size_t i = 0; i < N; i++) { m[i] *= (T)0.5; M[i] *= 0.5; } };
  onInit = [&](int p, int q) { __sym_check(!init++ && p == PROP_RKN4, "propagator chosen once"); __sym_check(q == V_QCD2_PQ1_RHO, "potential of the evolution before the start"); __sym_check(norm == core, "cores adjusted if asked");
    coupling("coupling of the propagator"); __sym_check(f->LambdaT() == LAMBDA_Z2, "kind of coupling"); __sym_eq(c->Gamma(), gam ? g1 : g0, 1, "damping of the propagator", -1);
    for (size_t i = 0; i < N; i++) for (int k = 0; k < 2; k++) { const double e = k ? M[i].imag() : M[i].real(); __sym_eq((double)(k ? m[i].imag() : m[i].real()), R0 * e, 1, "conformal field at the start", i); __sym_eq((double)(k ? v[i].imag() : v[i].real()), e, 1, "velocity at the start", i); } };
  onTune = [&]() { tune++; __sym_check(init == 1, "tuned after the choice"); };
  onLook = [&](int i, const MeasInfo *q) { __sym_check(look == prop, "one measurement before each step"); __sym_check(i == (icstudy ? look : -1), "index of the measurement"); if (q) look_at(*q); look++; };
  onProp = [&](double dz) { prop++; __sym_check(init == 1 && look == prop, "measured, then a step"); const double s = f->dzSize(); __sym_check((*f->zV() < zi), "no step after the start"); const bool last = *f->zV() + s > zi; if (last) __sym_eq(dz, zi - *f->zV(), zi, "last step ends at the start", prop); else __sym_eq(dz, s, 1, "step", prop);
    coupling("coupling of a step"); __sym_eq(c->Gamma(), gam ? g1 : g0, 1, "damping of a step", prop);
    *f->zV() = last ? zi : *f->zV() + 0.4 * (zi - *f->zV()); f->updateR(); };
  prepropa2(f);
  __sym_check(init == 1 && tune == 1 && prop > 0, "evolved"); __sym_eq(*f->zV(), zi, zi, "time at the end", -1);
  __sym_eq(c->Lambda(), lam, 1, "coupling given back", -1); __sym_eq(c->LamZ2Exp(), lz2, 1, "exponent given back", -1); __sym_check(f->LambdaT() == (lt ? LAMBDA_Z2 : LAMBDA_FIXED), "kind of coupling given back"); __sym_eq(c->Gamma(), g0, 1, "damping given back", -1);
  __sym_reach("end");
}
extern "C" void harness(void) { if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
