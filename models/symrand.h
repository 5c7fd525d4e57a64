// Random draws as unknowns: every draw is a fresh value in the distribution's range (uniform) or in [-4,4] standard deviations (normal).
#pragma once
#include <random>
extern "C" double mdl_draw(double lo, double hi);
namespace std {
struct mdl_device { unsigned operator()() { return 1; } double entropy() { return 0; } };
struct mdl_engine { typedef unsigned long result_type; static constexpr unsigned long min() { return 0; } static constexpr unsigned long max() { return ~0ul; } mdl_engine(unsigned long = 0) {} void seed(unsigned long) {} unsigned long operator()() { return 0; } };
template <class T = double> struct mdl_uniform { T a, b; mdl_uniform(T x = 0, T y = 1) : a(x), b(y) {} template <class G> T operator()(G &) { return (T)mdl_draw(a, b); } };
template <class T = double> struct mdl_normal { T m, s; mdl_normal(T x = 0, T y = 1) : m(x), s(y) {} template <class G> T operator()(G &) { return m + s * (T)mdl_draw(-4, 4); } };
}
#define random_device mdl_device
#define mt19937_64 mdl_engine
#define mt19937 mdl_engine
#define uniform_real_distribution mdl_uniform
#define normal_distribution mdl_normal
// The optional mode file kkk.dat: absent unless mdl_kkk points to its three numbers.
#include <cstdio>
extern "C" double *mdl_kkk;
static int mdl_kkk_pos = 0;
static inline FILE *mdl_fopen(const char *, const char *) { mdl_kkk_pos = 0; return mdl_kkk ? stdin : nullptr; }
template <class... P> static inline int mdl_fscanf(FILE *, const char *, P... p) { int k = 0; (void)std::initializer_list<int>{(*p = mdl_kkk[mdl_kkk_pos++], k++)...}; return k; }
static inline int mdl_fclose(FILE *) { return 0; }
#define fopen mdl_fopen
#define fscanf mdl_fscanf
#define fclose mdl_fclose
// A table of numbers (initialspectrum.dat): read to its end when mdl_kkk_len is set.
extern "C" { extern int mdl_kkk_len __attribute__((weak)); }
static inline int mdl_feof(FILE *) { return !&mdl_kkk_len || mdl_kkk_pos >= mdl_kkk_len; }
#define feof mdl_feof
