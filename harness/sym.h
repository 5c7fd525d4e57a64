// Harness API. Under the symbolic engine these calls are intercepted; in a native replay they are
// implemented by sym_native.cpp, which reads the solver's counterexample from $SYM_WITNESS.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double __sym_real(const char *name, double lo, double hi);
float __sym_realf(const char *name, double lo, double hi);
double __sym_real_i(const char *name, long idx, double lo, double hi);
float __sym_realf_i(const char *name, long idx, double lo, double hi);
long __sym_int(const char *name, long lo, long hi);
void __sym_assume(int c);
void __sym_check(int c, const char *label);
void __sym_eq(double got, double want, double scale, const char *label, long idx);
void __sym_reach(const char *label);
long __sym_param(const char *name, long dflt);
int __sym_is_symbolic(const void *p, size_t n);
int __sym_engine(void);
void __sym_threads(int n);
void __sym_races(int on);
long __sym_concretize(long v);
void __sym_note(const char *t);
void __sym_debug(const char *t, double v);
void __sym_end(void);
void harness(void);
}
static inline void symFill(float *p, size_t n, const char *nm, double lo, double hi) { for (size_t i = 0; i < n; i++) p[i] = __sym_realf_i(nm, (long)i, lo, hi); }
static inline void symFill(double *p, size_t n, const char *nm, double lo, double hi) { for (size_t i = 0; i < n; i++) p[i] = __sym_real_i(nm, (long)i, lo, hi); }
