// Length, velocity and energy of strings: the flags are given, the field is symbolic.
#include "common.h"
#include "../models/mpimodel.h"
#include <algorithm>
#include <array>
#include <functional>
#include "strings/strings.h"
extern "C" { extern const long *mdl_otherl; extern const double *mdl_others; }
static const int XY = STRING_XY_POSITIVE, YZ = STRING_YZ_NEGATIVE, ZX = STRING_ZX_POSITIVE;
template <class T> struct Lat {
  size_t n, lz, n2; Scalar *f; std::vector<std::complex<T>> m, v; std::vector<int> s; // one slice more than the process has
  size_t at(size_t x, size_t y, size_t z) const { return (z * n + y % n) * n + x % n; }
};
// What the process above sends: its first slices of whatever array this process sends the first slices of.
static std::function<void(void *, size_t, int)> deliver;
static void fill(void *buf, size_t n, int peer, int) { deliver(buf, n, peer); }
template <class T> static void run() {
  const int what = __sym_param("what", 0), ranks = __sym_param("ranks", 1), rank = __sym_param("rank", 0), fold = __sym_param("fold", 0), var = __sym_param("var", 0);
  const size_t n = __sym_param("n", 4), lz = __sym_param("lz", 2), ng = __sym_param("ng", 1), n2 = n * n, NG = n2 * (lz + 1);
  mdl_size = ranks; mdl_rank = rank; zGrid = ranks; sizeN = n; sizeZ = lz * ranks;
  Cosmos *c = mkCosmos(); c->ICData().zi = 1.5; c->SetPhysSize(3.0); c->SetLambda(0.7); c->SetIndi3(0.3); c->SetQcdExp(0.0); c->SetFrw(__sym_param("frw", 1));
  Scalar *f = mkScalar(c, n, lz, sizeof(T) == 8, FIELD_SAXION, false, ng);
  const size_t sh = f->DataAlign() / (2 * sizeof(T)); f->setFolded(fold);
  Lat<T> L; L.n = n; L.lz = lz; L.n2 = n2; L.f = f; L.m.resize(NG); L.v.resize(NG); L.s.resize(NG);
  unsigned rs = 4711 + 977 * __sym_param("bg", 0);
  auto rnd = [&]() { rs = rs * 1664525u + 1013904223u; return (int)(rs >> 24) - 128; };
  long sym[4] = {__sym_param("site", 0), __sym_param("site2", -1), __sym_param("site3", -1), __sym_param("site4", -1)};
  std::vector<std::complex<double>> base(NG);
  for (size_t i = 0; i < NG; i++) {
    double a = (2 * rnd() + 1) / 128., b = (2 * rnd() + 1) / 128., p = (2 * rnd() + 1) / 128., q = (2 * rnd() + 1) / 128.;
    bool y = false; for (long k : sym) if (k == (long)i) y = true;
    if (what == 2) { a += a > 0 ? 0.5 : -0.5; } // stay away from the centre of the circle
    base[i] = {a, b};
    if (ranks == 1 && i >= n2 * lz) { base[i] = base[i - n2 * lz]; L.m[i] = L.m[i - n2 * lz]; L.v[i] = L.v[i - n2 * lz]; continue; }
    if (y) { // the sides of zero are kept
      a = a > 0 ? __sym_real_i("re", i, what == 2 ? 0.6 : 0.1, 2) : __sym_real_i("re", i, -2, what == 2 ? -0.6 : -0.1);
      b = b > 0 ? __sym_real_i("im", i, 0.1, 2) : __sym_real_i("im", i, -2, -0.1);
      p = __sym_real_i("vr", i, -2, 2); q = __sym_real_i("vi", i, -2, 2);
    }
    L.m[i] = std::complex<T>((T)a, (T)b); L.v[i] = std::complex<T>((T)p, (T)q);
  }
  // flags: any set of plaquettes, or the ones set by var (bit 0-5 the faces of the cube at the origin)
  for (size_t i = 0; i < NG; i++) {
    if (ranks == 1 && i >= n2 * lz) { L.s[i] = L.s[i - n2 * lz]; continue; }
    int r = rnd() & 31; L.s[i] = var ? 0 : (r == 0 ? XY : r == 1 ? YZ : r == 2 ? ZX : r == 3 ? XY | ZX : r == 4 ? XY | YZ | ZX : r == 5 ? YZ | ZX : 0) | (rnd() & 1 ? STRING_WALL : 0);
    if (what == 0 && !var) { // where the background winds
      static const int fl[3] = {XY, YZ, ZX}; L.s[i] &= STRING_WALL;
      for (int p = 0; p < 3; p++) { auto C = [&](int du, int dt) { size_t k[3] = {i % n, i / n % n, i / n2}; k[p] += du; k[(p + 1) % 3] += dt; if (ranks == 1) k[2] %= lz; return k[2] > lz ? std::complex<double>(1, 1) : base[L.at(k[0], k[1], k[2])]; };
        double w = std::arg(C(1, 0) / C(0, 0)) + std::arg(C(1, 1) / C(1, 0)) + std::arg(C(0, 1) / C(1, 1)) + std::arg(C(0, 0) / C(0, 1)); if (fabs(w) > 1) L.s[i] |= fl[p]; }
    }
    if (what == 2) L.s[i] = (L.s[i] & ~0x80) | (rnd() % 3 == 0 ? STRING_MASK : 0);
  }
  const size_t oz = __sym_param("oz", 0), ox = __sym_param("ox", 0), oy = __sym_param("oy", 0);
  if (var) { auto F = [&](size_t x, size_t y, size_t z, int b) { if (ranks == 1) z %= lz; L.s[L.at(x, y, z)] |= b; if (ranks == 1 && z == 0) L.s[L.at(x, y, lz)] |= b; };
    if (var & 1) F(ox, oy, oz, XY); if (var & 2) F(ox, oy, oz, YZ); if (var & 4) F(ox, oy, oz, ZX); if (var & 8) F(ox + 1, oy, oz, YZ); if (var & 16) F(ox, oy + 1, oz, ZX); if (var & 32) F(ox, oy, oz + 1, XY); }
  std::complex<T> *m = (std::complex<T> *)f->mStart(), *v = (std::complex<T> *)f->vCpu(); char *s = (char *)f->sData();
  for (size_t i = 0; i < n2 * lz; i++) { size_t k = flat(n, sh, fold, i % n, i / n % n, i / n2); m[k] = L.m[i]; v[k] = L.v[i]; s[i] = L.s[i]; }
  double oth[1]; long othl[1] = {29};
  if (ranks > 1) {
    mdl_mpi_record = 1; oth[0] = what == 2 ? 3.5 : 2.25; mdl_others = oth; mdl_otherl = othl;
    deliver = [&](void *buf, size_t nb, int peer) {
      if (peer != (rank + 1) % ranks) return;
      const void *src = nullptr; for (int k = 0; k < mdl_nrec; k++) if (mdl_rec[k].send && mdl_rec[k].peer == (rank + ranks - 1) % ranks && mdl_rec[k].n == nb) src = mdl_rec[k].buf;
      const size_t sl = std::min(nb / (n2 * sizeof(L.m[0])), (size_t)1) * n2;
      if (src == f->mStart()) std::copy_n(L.m.begin() + n2 * lz, sl, (std::complex<T> *)buf);
      else if (src == f->vCpu()) std::copy_n(L.v.begin() + n2 * lz, sl, (std::complex<T> *)buf);
      else if (src == f->sData()) for (size_t i = 0; i < std::min(nb, n2); i++) ((char *)buf)[i] = L.s[n2 * lz + i];
    };
    mdl_fill = fill;
  }
  StringData in; memset(&in, 0, sizeof in); in.strDen = 41; in.strChr = -3; in.wallDn = 17; in.strDen_local = 12; in.strChr_local = 5; in.wallDn_local = 4;
  const double R = *f->RV(), Hc = c->Rp(*f->zV()), o = ranks > 1 ? oth[0] : 0; const double sc = 8;
  __sym_check(R == (__sym_param("frw", 1) == 1 ? 1.5 : __sym_param("frw", 1) == 2 ? 2.25 : 1), "scale factor");
  auto kept = [&](const StringData &r) { __sym_check(r.strDen == in.strDen && r.strChr == in.strChr && r.wallDn == in.wallDn && r.strDen_local == in.strDen_local && r.strChr_local == in.strChr_local && r.wallDn_local == in.wallDn_local, "counts passed on"); };
  auto same = [&]() { for (size_t i = 0; i < n2 * lz; i++) { size_t k = flat(n, sh, f->Folded(), i % n, i / n % n, i / n2); __sym_check(((s[i] ^ L.s[i]) & 0xff) == 0, "flags untouched");
      __sym_eq(m[k].real(), L.m[i].real(), sc, "field untouched", i); __sym_eq(v[k].imag(), L.v[i].imag(), sc, "velocity untouched", i); } };
  if (what == 0) {
    StringData r = stringlength(f, in, STRMEAS_LENGTH); kept(r);
    double want = 0; static const int fl[3] = {STRING_XY, STRING_YZ, STRING_ZX};
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
      std::vector<std::array<double, 3>> P;
      for (int q = 0; q < 6; q++) { // plaquettes through the site, then those opposite
        const int p = q % 3, w = (p + 2) % 3, u = p, t = (p + 1) % 3; size_t o3[3] = {x, y, z}; if (q >= 3) o3[w]++;
        if (!(L.s[L.at(o3[0], o3[1], o3[2])] & fl[p])) continue;
        auto C = [&](int du, int dt) { size_t k[3] = {o3[0], o3[1], o3[2]}; k[u] += du; k[t] += dt; return (std::complex<double>)L.m[L.at(k[0], k[1], k[2])]; };
        double d[2]; setCross(C(0, 0), C(1, 0), C(0, 1), C(1, 1), d);
        std::array<double, 3> a = {(double)o3[0], (double)o3[1], (double)o3[2]}; a[u] += d[0]; a[t] += d[1]; P.push_back(a);
      }
      if (P.size() % 2) continue;
      double tot = 0; int cnt = 0; // every way of joining the ends in pairs
      std::vector<int> left; for (size_t i = 0; i < P.size(); i++) left.push_back(i);
      std::function<void(std::vector<int>, double)> go = [&](std::vector<int> l, double acc) {
        if (l.empty()) { tot += acc; cnt++; return; }
        for (size_t j = 1; j < l.size(); j++) {
          double q = 0; for (int d = 0; d < 3; d++) { double e = P[l[j]][d] - P[l[0]][d]; q += e * e; }
          std::vector<int> k; for (size_t i = 1; i < l.size(); i++) if (i != j) k.push_back(l[i]);
          go(k, acc + sqrt(q));
        } };
      if (!left.empty()) { go(left, 0); want += tot / cnt; }
    }
    __sym_eq(r.strLen_local, want, sc, "length of the strings", 0); __sym_eq(r.strLen, want + o, sc, "length over all processes", 0);
    __sym_check(r.strDeng == 0 && r.strVel == 0 && r.strVel2 == 0 && r.strGam == 0, "only the length was asked for");
    same();
  }
  if (what == 1) {
    StringData r = stringlength(f, in, STRMEAS_GAMMA); kept(r);
    const double ms = c->SaxionMass2(*f->zV()), cc = 0.41238; double g0 = 0, g1 = 0, v1 = 0, v2 = 0;
    auto gv = [&](size_t i) { // Eq. (A.10) of 1509.00026, the field divided by R
      std::complex<double> M = L.m[i], V = L.v[i]; double a = M.real() / R, b = M.imag() / R, p = (V.real() - Hc * M.real()) / (R * R), q = (V.imag() - Hc * M.imag()) / (R * R);
      double d2 = p * p + q * q, f2 = a * a + b * b, k = 2 * (a * p + b * q);
      return d2 * (1 + f2 / (8 * cc * cc)) / (ms * cc * cc) + k * k / (16 * ms * cc * cc * cc * cc); };
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { const int fl = L.s[L.at(x, y, z)];
      auto add = [&](size_t b, size_t d, size_t e) { double q = (gv(L.at(x, y, z)) + gv(b) + gv(d) + gv(e)) / 4, g = sqrt(1 + q); g0 += g; g1 += 1 + q; v1 += g * sqrt(q / (1 + q)); v2 += g * q / (1 + q); };
      if (fl & STRING_XY) add(L.at(x + 1, y, z), L.at(x, y + 1, z), L.at(x + 1, y + 1, z));
      if (fl & STRING_YZ) add(L.at(x, y + 1, z), L.at(x, y, z + 1), L.at(x, y + 1, z + 1));
      if (fl & STRING_ZX) add(L.at(x, y, z + 1), L.at(x + 1, y, z), L.at(x + 1, y, z + 1));
    }
    __sym_eq(r.strDeng_local, g0, sc, "gamma of the strings", 0); __sym_eq(r.strDeng, g0 + o, sc, "gamma over all processes", 0);
    __sym_eq(r.strGam * (g0 + o), g1 + o, sc, "mean gamma", 0); __sym_eq(r.strVel * (g0 + o), v1 + o, sc, "mean velocity", 0); __sym_eq(r.strVel2 * (g0 + o), v2 + o, sc, "mean velocity squared", 0);
    __sym_check(r.strLen == 0 && r.strLen_local == 0, "only gamma was asked for");
    same();
  }
  if (what == 2) {
    StringEnergyData r = stringenergy(f);
    const double S = f->Saskia() * R, d = c->PhysSize() / n, lam = f->LambdaP(); double tot = 0, ra = 0, rsx = 0, va = 0, vs = 0; size_t no = 0; const double R2 = R * R, R4 = R2 * R2;
    for (size_t z = 0; z < lz; z++) for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) {
      size_t i = L.at(x, y, z), nb[3] = {L.at(x + 1, y, z), L.at(x, y + 1, z), L.at(x, y, z + 1)};
      std::complex<double> M = L.m[i]; double p = L.v[i].real() - Hc * M.real(), q = L.v[i].imag() - Hc * M.imag(), a = M.real() - S, b = M.imag(), f2 = a * a + b * b, mod = sqrt(f2);
      double kin = .5 * (p * p + q * q) / R4, pot = .25 * lam * (std::norm(M) / R2 - 1) * (std::norm(M) / R2 - 1), gr = 0, gs = 0;
      for (size_t j : nb) { std::complex<double> W = L.m[j]; gr += std::norm(W - M); double t = sqrt((W.real() - S) * (W.real() - S) + W.imag() * W.imag()) - mod; gs += t * t; }
      const double ax = a * q - b * p, sx = a * p + b * q; // phase and radial velocities times |.|^2 and |.|
      double ak = ax * ax / (f2 * f2) / R2, av = ax * ax / f2 / R4, sk = .5 * sx * sx / f2 / R4, s = sk + .5 * gs / (R4 * d * d) + pot;
      tot += kin + .5 * gr / (R4 * d * d) + pot; va += av; vs += f2 / R2 * s;
      if (!(L.s[i] & STRING_MASK)) { ra += ak; rsx += s; no++; }
    }
    const double V = (double)n * n * lz * ranks, NO = no + (ranks > 1 ? othl[0] : 0);
    __sym_check(r.nout == NO, "sites outside the cores");
    __sym_eq(r.rho_a * NO, ra + o, sc, "axion energy outside the cores", 0); __sym_eq(r.rho_s * NO, rsx + o, sc, "saxion energy outside the cores", 0);
    __sym_eq((r.rho_str + r.rho_a + r.rho_s) * V, tot + o, sc, "total energy less axion and saxion", 0);
    __sym_eq(r.rho_a_Vil * V, va + o, sc, "axion energy weighted by the modulus", 0); __sym_eq(r.rho_s_Vil * V, vs + o, sc, "saxion energy weighted by the modulus", 0);
    __sym_eq((r.rho_str_Vil + r.rho_a_Vil + r.rho_s_Vil) * V, tot + o, sc, "total energy less the weighted ones", 0);
    same();
  }
}
extern "C" void harness(void) {
  if (__sym_param("what", 0) == 3) { // where the zero lines of the two parts cross in one plaquette
    const int q = __sym_param("q", 0); static const int sg[8][4][2] = {{{1, 1}, {-1, 1}, {1, -1}, {-1, -1}}, {{1, 1}, {1, -1}, {-1, 1}, {-1, -1}}, {{-1, 1}, {1, 1}, {-1, -1}, {1, -1}}, {{1, -1}, {1, 1}, {-1, -1}, {-1, 1}},
      {{1, 1}, {-1, 1}, {-1, -1}, {-1, -1}}, {{1, 1}, {-1, 1}, {1, -1}, {1, 1}}, {{-1, 1}, {-1, -1}, {1, -1}, {-1, -1}}, {{1, -1}, {-1, -1}, {-1, -1}, {-1, 1}}};
    double e[4][2]; std::complex<double> m[4]; const long sy = __sym_param("sy", 15);
    for (int i = 0; i < 4; i++) for (int k = 0; k < 2; k++) { e[i][k] = sg[q][i][k] * (sy >> i & 1 ? __sym_real_i("f", 2 * i + k, 0.125, 2) : 0.25 * (1 + (3 * i + 5 * k) % 7)); }
    for (int i = 0; i < 4; i++) m[i] = std::complex<double>(e[i][0], e[i][1]);
    double d[2] = {9, 9}; setCross(m[0], m[1], m[2], m[3], d);
    double D[2][3]; // the zero line A u + B v + C = 0 through its two nodes on the plaquette's sides
    for (int k = 0; k < 2; k++) { double U[4], W[4]; int c = 0;
      auto nd = [&](int i, int j, double u0, double v0, double du, double dv) { if ((sg[q][i][k] > 0) != (sg[q][j][k] > 0)) { double t = e[i][k] / (e[i][k] - e[j][k]); U[c] = u0 + t * du; W[c] = v0 + t * dv; c++; } };
      nd(0, 1, 0, 0, 1, 0); nd(1, 3, 1, 0, 0, 1); nd(2, 3, 0, 1, 1, 0); nd(0, 2, 0, 0, 0, 1);
      __sym_check(c == 2, "two nodes"); D[k][0] = W[1] - W[0]; D[k][1] = U[0] - U[1]; D[k][2] = -(D[k][0] * U[0] + D[k][1] * W[0]); }
    double det = D[0][0] * D[1][1] - D[0][1] * D[1][0];
    __sym_assume(det != 0);
    for (int k = 0; k < 2; k++) __sym_eq(D[k][0] * d[0] + D[k][1] * d[1] + D[k][2], 0, 8, "crossing lies on the zero line", k);
    __sym_reach("end"); return;
  }
  if (__sym_param("dbl", 1)) run<double>(); else run<float>();
  __sym_reach("end");
}
