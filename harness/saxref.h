// Reference for the complex (saxion) evolution equations, in natural lattice order, written from the
// equations of motion; T is the lattice precision.
#pragma once
#include "common.h"
struct SaxP { double R, Rp, Rpp, lambda, mA2, gamma, deti, ood2, dz, c, d; const double *PC; size_t Ng; };
// m: natural order with Ng ghost slices in front; v natural order without ghosts
template <class T> struct SaxRef {
  size_t n, lz; SaxP p; const T *m, *v; const T *L = nullptr;   // L: a Laplacian given from outside (natural order)
  T M(long x, long y, long z, int k) const { x = (x + 8 * (long)n) % (long)n; y = (y + 8 * (long)n) % (long)n; return m[(((z + (long)p.Ng) * n + y) * n + x) * 2 + k]; }
  T V(size_t x, size_t y, size_t z, int k) const { return v[((z * n + y) * n + x) * 2 + k]; }
  T lap(size_t x, size_t y, size_t z, int k) const {
    if (L) return L[((z * n + y) * n + x) * 2 + k];
    T s = 0;
    for (size_t q = 1; q <= p.Ng; q++) { long o = q;
      T t = M(x + o, y, z, k) + M(x - o, y, z, k) + M(x, y + o, z, k) + M(x, y - o, z, k) + M(x, y, z + o, k) + M(x, y, z - o, k) - 6 * M(x, y, z, k);
      s += t * (T)(p.PC[q - 1] * p.ood2); }
    return s; }
  // acceleration of the conformal field (before projections)
  void acc(int pot, size_t x, size_t y, size_t z, T a[2]) const {
    T r = M(x, y, z, 0), i = M(x, y, z, 1), q = r * r + i * i, R = p.R, R2 = R * R, L = p.lambda, mA2 = p.mA2;
    a[0] = lap(x, y, z, 0); a[1] = lap(x, y, z, 1);
    if (!(pot & V_EVOL_THETA)) {
      T g = 0;
      if ((pot & V_PQ) == V_PQ1) g = L * (q - R2);
      if ((pot & V_PQ) == V_PQ2) g = L * 2 / (R2 * R2) * (q * q - R2 * R2) * q;
      if ((pot & V_PQ) == V_PQ3) { T out = L * (2 * R2 * (1 - R / sqrt(q))), in = L * (q - R2); g = q >= R2 ? out : in; }
      a[0] -= r * (g - (T)p.Rpp); a[1] -= i * (g - (T)p.Rpp);
    }
    if (!(pot & V_EVOL_RHO)) switch (pot & V_QCD) {
      case V_QCD1: a[0] += mA2 * R2 * R; break;
      case V_QCDV: a[0] += mA2 * R2 * R * (R - r); a[1] -= mA2 * R2 * R * i; break;
      case V_QCD2: a[0] += mA2 * R2 / 2 * r; a[1] -= mA2 * R2 / 2 * i; break;
      case V_QCDC: { T q3 = sqrt(q * q * q); a[0] += mA2 * R2 * R2 * (i * i / q3); a[1] += mA2 * R2 * R2 * (-r * i / q3); } break;
      default: break;
    }
  }
  void step(int pot, size_t x, size_t y, size_t z, T nv[2], T nm[2]) const {
    T r = M(x, y, z, 0), i = M(x, y, z, 1), q = r * r + i * i, a[2], w[2] = {V(x, y, z, 0), V(x, y, z, 1)};
    acc(pot, x, y, z, a);
    if (pot & V_EVOL_THETA) {       // keep the angular part, radial part follows the scale factor
      T ta = (-i * a[0] + r * a[1]) / q, tv = (-i * w[0] + r * w[1]) / q;
      a[0] = -i * ta + r * (T)p.Rpp; a[1] = r * ta + i * (T)p.Rpp;
      w[0] = -i * tv + r * (T)p.Rp; w[1] = r * tv + i * (T)p.Rp;
    }
    T dzc = p.dz * p.c, dzd = p.dz * p.d, G = p.gamma / p.R; if (p.deti > 0) G = G * (p.R * p.R / p.deti);
    T mola = G * dzc / 2;
    if (pot & V_DAMP_ALL) { for (int k = 0; k < 2; k++) nv[k] = (w[k] * (1 - mola) + a[k] * dzc) / (1 + mola); }
    else if (pot & V_DAMP_RHO) {
      T epsi = mola / (1 + mola), mv = r * w[0] + i * w[1], ma = r * a[0] + i * a[1];
      T s = epsi / q * (2 * (mv - q * (T)p.Rp) + ma * dzc);
      nv[0] = w[0] + a[0] * dzc - r * s; nv[1] = w[1] + a[1] * dzc - i * s;
    } else { nv[0] = w[0] + a[0] * dzc; nv[1] = w[1] + a[1] * dzc; }
    if (pot & V_EVOL_RHO) { T s = (r * nv[0] + i * nv[1]) / q; nv[0] = r * s; nv[1] = i * s; }
    nm[0] = r + nv[0] * dzd; nm[1] = i + nv[1] * dzd;
  }
};
