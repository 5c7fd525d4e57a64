// Helpers shared by the harnesses.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <complex>
#include <vector>
#include "sym.h"
#include "../models/base.h"
#include "enum-field.h"
#include "cosmos/cosmos.h"
#include "scalar/scalarField.h"
#include "utils/parse.h"
extern int fIndex;

static inline Cosmos *mkCosmos() {
  Cosmos *c = new Cosmos();
  memset(&c->ICData(), 0, sizeof(IcData));
  c->ICData().cType = CONF_NONE; c->ICData().zi = 1.0; c->ICData().Nghost = 1;
  c->SetPhysSize(4.0); c->SetLambda(1.0); c->SetIndi3(1.0); c->SetGamma(0.0); c->SetQcdExp(0.0);
  c->SetZThRes(1e6); c->SetZRestore(1e6); c->SetQcdPot(V_QCD1_PQ1); c->SetFrw(1.0); c->SetMink(false); c->SetLamZ2Exp(0.0);
  return c;
}
static inline Scalar *mkScalar(Cosmos *c, size_t n, size_t lz, int dbl, FieldType t, bool lowmem = false, size_t Ng = 1, LambdaType lt = LAMBDA_FIXED) {
  fIndex = 0;
  c->ICData().Nghost = Ng;
  return new Scalar(c, n, lz, dbl ? FIELD_DOUBLE : FIELD_SINGLE, DEV_CPU, c->ICData().zi, lowmem, mdl_size, t, lt, Ng);
}
// Flat element index inside a slice-ordered lattice, natural or folded (vector) order.
static inline size_t flat(size_t n1, size_t shift, bool folded, size_t x, size_t y, size_t z) {
  if (!folded) return (z * n1 + y) * n1 + x;
  size_t h = n1 / shift, lane = y / h, row = y % h;
  return z * n1 * n1 + (row * n1 + x) * shift + lane;
}
template <class T> static inline void symArr(void *p, size_t n, const char *nm, double lo, double hi) { symFill((T *)p, n, nm, lo, hi); }
