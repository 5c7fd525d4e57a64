// Histograms in a measurement: the binner is replaced by one that records what it was asked to bin; its own arithmetic is checked elsewhere (C13).
#pragma once
#define _CLASS_BINNER_
#include <array>
#include <algorithm>
#include <cmath>
#include <functional>
#include <string>
#include <vector>
#include <mpi.h>
#include "enum-field.h"
#include "utils/profiler.h"
using namespace profiler;
struct BinRec { std::vector<double> val; double mn, mx; };
extern std::vector<BinRec> binRecs;
extern "C" double mdl_binend(int hi);
template <size_t N, typename DType> class Binner {
  size_t dSize = 0, pad = 1, dat = 1; DType *inData = nullptr; std::array<double, N> bins; std::function<double(DType)> filter; double mn = 0, mx = 0;
public:
  Binner(DType *d, size_t n, std::function<double(DType)> f = [](DType x) -> double { return (double)x; }) : dSize(n), inData(d), filter(f) { bins.fill(0.); }
  void setpad(size_t p, size_t d) { pad = p; dat = d; }
  DType *getData() const { return inData; }
  void find() { mn = mdl_binend(0); mx = mdl_binend(1); }
  void run() {
    find(); BinRec r; r.mn = mn; r.mx = mx;
    for (size_t i = 0; i < dSize; i++) if (pad <= dat || i % pad < dat) r.val.push_back(filter(inData[i]));
    binRecs.push_back(r); bins[0] = (double)(binRecs.size() - 1);
  }
  double *data() { return bins.data(); }
  const double *data() const { return bins.data(); }
  double max() const { return mx; }
  double min() const { return mn; }
};
