// Native replay of one counterexample: exit code 10 and a line "REPRODUCED <label>" when a check fails.
#include <csignal>
#include <ftw.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <random>
#include <string>
static std::map<std::string, double> W; static std::map<std::string, long> P; static bool loaded = false; static int bad = 0; static double TOL = 2e-5;
static void load() {
  if (loaded) return; loaded = true;
  const char *f = getenv("SYM_WITNESS"); if (f) { std::ifstream s(f); std::string k; double v; while (s >> k >> v) { if (k[0] == '@') P[k.substr(1)] = (long)v; else W[k] = v; } }
  if (getenv("SYM_TOL")) TOL = atof(getenv("SYM_TOL"));
}
static double val(const std::string &n, double lo, double hi) { load(); auto i = W.find(n); if (i != W.end()) return i->second; size_t h = std::hash<std::string>()(n); double u = (h % 100003) / 100003.; if (!(lo > -1e300)) lo = -1; if (!(hi < 1e300)) hi = 1; return (float)(lo + (hi - lo) * u); }
static void fail(const char *l, const char *d) { printf("REPRODUCED %s %s\n", l, d); fflush(stdout); bad++; }
extern "C" {
double __sym_real(const char *n, double lo, double hi) { return val(n, lo, hi); }
float __sym_realf(const char *n, double lo, double hi) { return (float)val(n, lo, hi); }
double __sym_real_i(const char *n, long i, double lo, double hi) { return val(std::string(n) + "_" + std::to_string(i), lo, hi); }
float __sym_realf_i(const char *n, long i, double lo, double hi) { return (float)val(std::string(n) + "_" + std::to_string(i), lo, hi); }
long __sym_int(const char *n, long lo, long hi) { load(); auto i = W.find(n); return i != W.end() ? (long)i->second : lo; }
void __sym_assume(int c) { if (!c) { printf("ASSUMPTION NOT MET\n"); fflush(stdout); _Exit(0); } }
void __sym_check(int c, const char *l) { if (!c) fail(l, ""); }
void __sym_eq(double g, double w, double sc, const char *l, long ix) { load(); double s = std::fmax(std::fmax(std::fabs(g), std::fabs(w)), sc); bool b = std::isfinite(g) && std::isfinite(w) ? std::fabs(g - w) > TOL * s : !(g == w); if (b) { char t[200]; snprintf(t, 200, "[%ld] got %.9g expected %.9g", ix, g, w); fail(l, t); } }
void __sym_reach(const char *) {}
long __sym_param(const char *n, long d) { load(); auto i = P.find(n); return i != P.end() ? i->second : d; }
int __sym_is_symbolic(const void *, size_t) { return 0; }
int __sym_engine(void) { return 0; }
void __sym_threads(int) {}
void __sym_races(int) {}
long __sym_concretize(long v) { return v; }
void __sym_note(const char *) {}
void __sym_debug(const char *t, double v) { printf("%s = %.17g\n", t, v); }
void __sym_end(void) { puts("HARNESS-END"); fflush(stdout); _Exit(bad ? 10 : 0); }
}
// The run writes its files (out/m/...) into a scratch directory of its own, removed however it ends.
static int rmOne(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
int main() {
  char d[] = "/tmp/symrunXXXXXX"; if (!mkdtemp(d)) return 99;
  fflush(stdout); pid_t k = fork();
  if (k == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    load(); if (chdir(d) || mkdir("out", 0700) || mkdir("out/m", 0700)) _Exit(99);
    harness(); puts("HARNESS-END"); fflush(stdout); _Exit(bad ? 10 : 0); }
  int st = 99 << 8; if (k > 0) waitpid(k, &st, 0);
  nftw(d, rmOne, 16, FTW_DEPTH | FTW_PHYS);
  if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
  _Exit(WEXITSTATUS(st)); }
