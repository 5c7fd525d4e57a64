// Cosmological background: derivatives, continuity, mass integrals and the time step, for all times and parameters.
#include "common.h"
#include <functional>
static double deriv(std::function<double(double)> f, double x, double h) { return (45 * (f(x + h) - f(x - h)) - 9 * (f(x + 2 * h) - f(x - 2 * h)) + (f(x + 3 * h) - f(x - 3 * h))) / (60 * h); } // exact up to degree 6
extern "C" void harness() {
  const int what = __sym_param("what", 0), frw = __sym_param("frw", 1), nq = __sym_param("nq", 4), nr = __sym_param("nr", nq), grav = __sym_param("grav", 0), reg = __sym_param("reg", 0), nn = __sym_param("nn", 2);
  Cosmos *c = mkCosmos();
  const int pin = __sym_param("pin", 0); // nonlinear time-step cases: only the time is symbolic
  const double indi = pin == 2 ? 0 : pin ? 1.25 : __sym_real("indi", 0.5, 3), g = !grav ? 0 : pin ? 0.25 : __sym_real("grav", 0.01, 0.5), Rc = pin ? 2 : __sym_real("Rc", 1.5, 3), lam = __sym_real("lambda", 1, 100);
  // reg 0: power law; 1: saturated; 2: restored (beyond zRestore >= zThRes); 3: plateau between the two
  const double Rr = reg >= 2 ? Rc + __sym_real("gap", 0, 2) : 0.5;
  c->SetIndi3(indi); c->SetQcdExp(nq); c->SetQcdExpr(nr); c->SetFrw(frw); c->SetZThRes(Rc); c->SetZRestore(reg >= 2 ? Rr : (double)__sym_param("zr", 0)); c->ICData().grav = g;
  c->SetLambda(lam);
  if (what == 0) {
    const double ct = __sym_real("ct", 0.5, 6), h = __sym_real("h", 0.01, 0.05);
    auto R = [&](double t) { return c->R(t); }; auto A = [&](double t) { return c->AxionMass2(t); };
    double lo = R(ct - 3 * h), hi = R(ct + 3 * h);
    if (frw == 1) __sym_eq(R(ct), ct * (1 + 0.25 * g * ct), 1, "scale factor", 0); else if (frw == 0) __sym_eq(R(ct), 1, 1, "scale factor", 0); else __sym_eq(R(ct), ct * ct, 1, "scale factor", 0);
    __sym_eq(c->Rp(ct) * R(ct), deriv(R, ct, h), 1, "Rp is R'/R", 0);
    auto Rd = [&](double t) { return c->Rp(t) * c->R(t); };
    __sym_eq(c->Rpp(ct) * R(ct), deriv(Rd, ct, h), 1, "Rpp is R''/R", 0);
    if (reg == 0) __sym_assume(hi < Rc); else if (reg == 1) __sym_assume(lo > Rc); else if (reg == 2) __sym_assume(lo > Rr); else { __sym_assume(lo > Rc); __sym_assume(hi < Rr); }
    double a = A(ct), r = R(ct); auto pw = [](double x, int n) { double p = 1; for (int i = 0; i < n; i++) p *= x; return p; };
    // The mass law; the restored branch is written so that no division is needed.
    if (reg == 0) __sym_eq(a, indi * indi * pw(r, nq), 1, "axion mass", 0); else if (reg != 2) __sym_eq(a, indi * indi * pw(Rc, nq), 1, "axion mass", 0); else __sym_eq(a * pw(Rr, nr), indi * indi * pw(Rc, nq) * pw(r, nr), 1, "axion mass", 0);
    __sym_eq(c->DAxionMass2Dct(ct), deriv(A, ct, h), 1, "DAxionMass2Dct is the time derivative of the mass squared", 0);
    __sym_eq(2 * a * c->DlogMARDlogct(ct), ct * (c->DAxionMass2Dct(ct) + 2 * a * c->Rp(ct)), 1, "DlogMARDlogct is d log(m R)/d log ct", 0);
    for (int e = 0; e < 3; e++) { c->SetLamZ2Exp(e); __sym_eq(c->LambdaP(ct) * pw(r, e), lam, 1, "physical lambda", e); for (int p = 0; p < 3; p++) { c->SetQcdPot((VqcdType)(V_QCD1 | (p == 0 ? V_PQ1 : p == 1 ? V_PQ2 : V_PQ3))); __sym_eq(c->SaxionMass2(ct) * pw(r, e), (p == 1 ? 8 : 2) * lam, 1, "saxion mass", e * 3 + p); } }
  } else if (what == 1) { // continuity across the thresholds
    const double t = frw ? Rc : 1, d = __sym_real("d", 0, 0.01);
    double a = c->AxionMass2(t - d), b = c->AxionMass2(t + d), m = indi * indi; for (int i = 0; i < nq; i++) m *= Rc;
    __sym_check(a <= m && b >= m && b - m <= 50 * m * d && m - a <= 50 * m * d, "axion mass is continuous and does not decrease at saturation");
    if (reg >= 2) { double p = c->AxionMass2(Rr - d), q = c->AxionMass2(Rr + d); __sym_assume(d < Rr - Rc); __sym_check(p <= m && p >= m - 1e-9 && q >= m - 1e-9 && q - m <= 50 * m * d, "axion mass is continuous where it is restored"); }
  } else { // functions of Scalar
    const int kind = __sym_param("kind", 0); const FieldType ft[] = {FIELD_SAXION, FIELD_AXION, FIELD_AXION_MOD, FIELD_PAXION};
    const size_t n = 8; const int pq = __sym_param("pq", 1); c->SetQcdPot((VqcdType)(V_QCD1 | (pq == 2 ? V_PQ2 : V_PQ1))); c->SetLamZ2Exp(__sym_param("lz", 0));
    Scalar *f = mkScalar(c, n, 1, 1, kind == 3 ? FIELD_AXION : ft[kind]); if (kind == 3) f->setField(FIELD_PAXION);
    const double ct = __sym_real("ct", 0.5, 6), wd = pin ? 0.75 : __sym_real("wDz", 0.1, 1), L = pin ? 8 : __sym_real("L", 1, 20); c->SetPhysSize(L); wDz = wd;
    if (what == 2) {
      *f->zV() = ct; f->updateR(); double r = c->R(ct);
      __sym_eq(*f->RV(), r, 1, "stored scale factor", 0); __sym_eq(f->AxionMassSq(), c->AxionMass2(ct), 1, "axion mass of the field", 0); __sym_eq(f->AxionMass() * f->AxionMass(), c->AxionMass2(ct), 1, "axion mass of the field", 1);
      __sym_eq(f->Rpp(), c->Rpp(ct), 1, "R''/R of the field", 0); __sym_eq(f->HubbleConformal(), c->Rp(ct), 1, "R'/R of the field", 0); __sym_eq(f->HubbleMassSq(), c->Rpp(ct), 1, "Hubble mass", 0); __sym_eq(f->LambdaP(), c->LambdaP(ct), 1, "lambda of the field", 0); __sym_eq(f->SaxionMassSq(), c->SaxionMass2(ct), 1, "saxion mass of the field", 0);
      double ms = f->Msa(); __sym_eq(ms * ms * n * n, 2 * c->LambdaP(ct) * r * r * L * L, 1, "msa", 0);
    } else if (what == 3) { // time step
      double r = c->R(ct), a = c->AxionMass2(ct) * r * r, o2 = 12. * n * n / (L * L), dz = f->dzSize(ct), lp = c->LambdaP(ct);
      __sym_check(dz > 0, "time step is positive");
      if (kind < 3) __sym_check(dz * dz * (a + o2) <= wd * wd * (1 + 1e-9), "time step resolves the axion mass and the lattice");
      if (kind == 0) __sym_check(dz * dz * (2 * lp * r * r * (pq == 2 ? 4 : 1) + o2) <= wd * wd * (1 + 1e-9), "time step resolves the saxion mass");
      double rn = c->R(ct + dz); if (frw && r < Rc && kind < 3) { __sym_check(rn <= Rc || rn - Rc <= 0.01, "a step across saturation stops just beyond it"); }
    } else { // time integrals of m^2 R^nn
      const double z0 = __sym_real("z0", 0.5, 6), z1 = __sym_real("z1", 0.5, 6), h = __sym_real("h", 0.01, 0.05);
      auto I = [&](double z) { return f->IAxionMassSqn(z0, z, nn); }; auto II = [&](double z) { return f->IIAxionMassSqn(z0, z, nn); };
      auto T = [&](double t) { return frw ? c->R(t) : t; };
      if (__sym_param("z0hi", 0)) __sym_assume(T(z0) > Rc); else __sym_assume(T(z0) < Rc);
      if (__sym_param("z1hi", 0)) __sym_assume(T(z1 - 3 * h) > Rc); else __sym_assume(T(z1 + 3 * h) < Rc);
      if (__sym_param("back", 0)) __sym_assume(z1 + 3 * h < z0); else __sym_assume(z1 - 3 * h > z0);
      double m = c->AxionMass2(z1); for (int i = 0; i < nn * frw; i++) m *= z1;
      __sym_eq(deriv(I, z1, h), m, 1, "IAxionMassSqn is the time integral of m^2 R^n", 0);
      __sym_eq(I(z0), 0, 1, "IAxionMassSqn starts at zero", 0);
      __sym_eq(deriv(II, z1, h), I(z1), 1, "IIAxionMassSqn is its time integral", 0);
      __sym_eq(II(z0), 0, 1, "IIAxionMassSqn starts at zero", 0);
    }
  }
  __sym_reach("end");
}
