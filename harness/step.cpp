// Whole time steps of the integrator (initPropagator + propagate) against an independent stage loop.
//   kind 0 saxion, 1 axion, 2 axion (wrapped differences), 3 saxion low memory, 4 paxion, 5 naxion
//   nl 0: linear potential, every site symbolic   nl 1: generic concrete field, one symbolic model parameter
#include "saxref.h"
#include "propagator/allProp.h"
#include "scalar/folder.h"
extern PropType pType;
void initPropagator(PropType, Scalar *, VqcdType, int);
void propagate(Scalar *, const double);
static const double C[4][4] = {{1}, {4. / 3, -1. / 12}, {1.5, -.15, 1. / 90}, {1.6, -.2, 8. / 315, -1. / 560}};
// RKN4 (McLachlan) kicks and drifts
static const double KC[4] = {0.1344961992774310892, -0.2248198030794208058, 0.7563200005156682911, 0.3340036032863214255};
static const double KD[4] = {0.5153528374311229364, -0.085782019412973646, 0.4415830236164665242, 0.1288461583653841854};
// the integrators: number of kicks, kicks, drifts (one more drift where the step starts with one)
struct Integ { PropType id; int n, first; double c[4], d[5]; };
static const double CH = 0.1931833275037836, XI = 0.1786178958448091, LB = -0.2123418310626054, CH4 = -0.06626458266981849;   // Omelyan, Mryglod, Folk
static Integ integ(int k) {
  switch (k) {
    case 1: return {PROP_LEAP, 2, 1, {.5, .5}, {.25, .5, .25}};
    case 2: return {PROP_MLEAP, 4, 1, {.25, .25, .25, .25}, {.125, .25, .25, .25, .125}};
    case 3: return {PROP_OMELYAN2, 2, 1, {.5, .5}, {CH, 1 - 2 * CH, CH}};
    case 4: return {PROP_OMELYAN4, 4, 1, {.5 * (1 - 2 * LB), LB, LB, .5 * (1 - 2 * LB)}, {XI, CH4, 1 - 2 * (XI + CH4), CH4, XI}};
    default: return {PROP_RKN4, 4, 0, {KC[0], KC[1], KC[2], KC[3]}, {KD[0], KD[1], KD[2], KD[3]}};
  }
}
template <class T> static void run() {
  const int kind = __sym_param("kind", 0), nl = __sym_param("nl", 0), sy = __sym_param("sy", 0), steps = __sym_param("steps", 1), chk = __sym_param("chk", 1);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1); const bool dbl = sizeof(T) == 8;
  static const int POT[] = {V_QCD0_PQ1, V_QCDL_PQ1, V_QCD1_PQ1, V_QCD2_PQ1_DALL, V_QCD2_PQ1};
  const int pot = POT[__sym_param("pot", 0)];
  const bool sax = kind == 0 || kind == 3, nax = kind == 5, pax = kind == 4; const size_t nc = sax || nax ? 2 : 1, sh = 32 / (nc * sizeof(T)), n2 = n * n, N = n2 * lz;
  Cosmos *co = mkCosmos(); const double frw = __sym_param("frw", 1) ? 1.5 : 1; co->SetFrw(frw); co->ICData().zi = 1.5; co->SetPhysSize(2.0);
  co->SetQcdExp(2.0); co->SetQcdPot((VqcdType)pot); co->SetLambda(nl ? 0.75 : 0.0); co->SetIndi3((pot & V_QCD) != V_QCD0 ? 0.5 : 0.0); co->SetGamma(pot & V_DAMP ? 0.25 : 0);
  if (sy == 1) co->SetLambda(__sym_real("lambda", 0, 2)); if (sy == 2) co->SetIndi3(__sym_real("indi3", 0, 2)); if (sy == 3) co->SetGamma(__sym_real("gamma", 0, 1));
  if (pax || nax) co->SetIndi3(0.5); co->ICData().beta = 0; co->ICData().grav = 0;
  Scalar *f = mkScalar(co, n, lz, dbl, sax || nax ? FIELD_SAXION : pax ? FIELD_PAXION : kind == 2 ? FIELD_AXION_MOD : FIELD_AXION, kind == 3, ng);
  if (nax) { f->setField(FIELD_AXION); f->setField(FIELD_NAXION); }
  std::vector<T> m((N + 2 * ng * n2) * nc), v((N + 2 * ng * n2) * nc), m2; T *fm = (T *)f->mStart(), *fv = (T *)(pax ? f->vStart() : f->vCpu());
  const size_t G = ng * n2 * nc;
  for (size_t i = 0; i < N * nc; i++) { T a, b;
    if (nl) { a = (T)((double)((i * 37 + 11) % 64) / 32 - 0.9375); b = (T)((double)((i * 29 + 5) % 64) / 64 - 0.5); } else { a = __sym_real_i("m", i, -1, 1); b = __sym_real_i("v", i, -1, 1); }
    fm[i] = m[G + i] = a; fv[i] = v[G + i] = b; }
  const Integ I = integ(__sym_param("integ", 0)); pType = PROP_BASE | I.id; double z = *f->zV(); const double dz = 0.0625;
  initPropagator(pType, f, (VqcdType)pot, ng);
  for (int s = 0; s < steps; s++) propagate(f, dz);
  // ---- reference ----
  const double dx = 2.0 / n, ood2 = 1 / (dx * dx);
  auto halo = [&](std::vector<T> &u) { for (size_t i = 0; i < G; i++) { u[i] = u[N * nc + i]; u[G + N * nc + i] = u[G + i]; } };
  auto lap = [&](const std::vector<T> &u, long x, long y, long zz, size_t k) { T s = 0; auto A = [&](long a, long b, long c) { a = (a + 4 * (long)n) % (long)n; b = (b + 4 * (long)n) % (long)n; return u[(((c + (long)ng) * n + b) * n + a) * nc + k]; };
    for (long q = 1; q <= (long)ng; q++) s += (T)(C[ng - 1][q - 1] * ood2) * (A(x + q, y, zz) + A(x - q, y, zz) + A(x, y + q, zz) + A(x, y - q, zz) + A(x, y, zz + q) + A(x, y, zz - q) - 6 * A(x, y, zz)); return s; };
  const bool pi2 = false; (void)pi2;
  for (int st = 0; st < steps; st++) for (int s = -I.first; s < I.n; s++) {
    if (s < 0) { for (size_t i = 0; i < N * nc; i++) m[G + i] += v[G + i] * (T)(dz * I.d[0]); z += dz * I.d[0]; continue; }
    const double R = std::pow(z, frw), Rp = frw / z, Rpp = frw * (frw - 1) / (z * z), mA2 = co->AxionMass2(z), c = I.c[s], d = I.d[s + I.first];
    halo(m);
    if (sax) { m2 = m; SaxP p; p.R = R; p.Rp = Rp; p.Rpp = Rpp; p.lambda = co->Lambda(); p.mA2 = mA2; p.gamma = co->Gamma(); p.deti = co->DecTime(); p.ood2 = ood2; p.dz = dz; p.c = c; p.d = d; p.PC = C[ng - 1]; p.Ng = ng;
      SaxRef<T> ref{n, lz, p, m.data(), v.data() + G};
      for (size_t a = 0; a < lz; a++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t o = ((a * n + y) * n + x) * 2; T nv[2], nm[2]; ref.step(pot, x, y, a, nv, nm); for (int k = 0; k < 2; k++) { m2[G + o + k] = nm[k]; v[G + o + k] = nv[k]; } }
      m = m2; z += dz * d; }
    else if (kind == 1 || kind == 2) { m2 = m;
      for (size_t a = 0; a < lz; a++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t o = G + (a * n + y) * n + x;
        T acc = lap(m, x, y, a, 0) + (T)Rpp * m[o]; if ((pot & V_QCD) == V_QCDL) acc -= (T)(mA2 * R * R) * m[o]; v[o] += (T)(dz * c) * acc; m2[o] += (T)(dz * d) * v[o]; }
      m = m2; z += dz * d; }
    else if (pax) {   // leapfrogged real and imaginary parts: kick of one by the Laplacian of the other
      for (int h = 0; h < 2; h++) { std::vector<T> &src = h ? v : m, &dst = h ? m : v; halo(src); const double mA = std::sqrt(co->AxionMass2(z)), w = h ? d : c;
        // integral of 1/(2 m R) over the step as a power law of time with exponent n
        const double ex = co->DlogMARDlogct(z), I = std::fabs(ex - 1) < 1e-12 ? z * std::log(1 + dz * w / z) : z / (1 - ex) * (std::pow(1 + dz * w / z, 1 - ex) - 1);
        const T K = (T)((h ? -1 : 1) * I / (2 * mA * R));
        for (size_t a = 0; a < lz; a++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t o = G + (a * n + y) * n + x; dst[o] += K * lap(src, x, y, a, 0); } }
      z += dz * d; }
    else if (nax) { m2 = m; const double K = dz * d / (2 * std::sqrt(mA2) * R);   // i dphi/dt = -(1/2mR) Laplacian, explicit step
      for (size_t a = 0; a < lz; a++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { size_t o = G + ((a * n + y) * n + x) * 2; m2[o] = m[o] - (T)K * lap(m, x, y, a, 1); m2[o + 1] = m[o + 1] + (T)K * lap(m, x, y, a, 0); }
      m = m2; z += dz * d; }
  }
   __sym_eq(*f->zV(), 1.5 + dz * steps, 30, "time advanced by the step", 0); __sym_eq(*f->RV(), std::pow(1.5 + dz * steps, frw), 30, "scale factor follows the time", 0);
  __sym_check(f->Folded(), "field left in vector order");
  fm = (T *)f->mStart(); fv = (T *)(pax ? f->vStart() : f->vCpu());
  for (size_t a = 0; a < lz; a++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) for (size_t k = 0; k < nc; k++) {
    if ((x + y + a + k) % chk) continue; size_t o = flat(n, sh, true, x, y, a) * nc + k, i = G + ((a * n + y) * n + x) * nc + k;
    __sym_eq(fm[o], m[i], 100, "field after the step", i - G); __sym_eq(fv[o], v[i], 100, "velocity after the step", i - G); }
  __sym_reach("end");
}
extern "C" void harness() { mdl_threads = __sym_param("th", 1); __sym_threads(mdl_threads); if (__sym_param("dbl", 1)) run<double>(); else run<float>(); }
