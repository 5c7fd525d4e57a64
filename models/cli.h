// Command-line numbers as unknowns: an argument "@k" stands for the k-th number the harness chose; other text is read as usual.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <sys/stat.h>
#include <unistd.h>
extern "C" double mdl_num(const char *s);       // the number an argument stands for
extern "C" void mdl_cliexit(int code);          // the program gives up
template <class T> static inline int mdl_sscanf(const char *s, const char *f, T *p) {
  const bool wide = std::strstr(f, "l") || std::strstr(f, "z");
  if (!wide && sizeof(T) > 4) { int k = (int)mdl_num(s); std::memcpy(p, &k, 4); return 1; }   // "%d" into something larger writes four bytes
  *p = (T)mdl_num(s); return 1;
}
static inline int mdl_atoi(const char *s) { return (int)mdl_num(s); }
static inline double mdl_atof(const char *s) { return mdl_num(s); }
static inline char *mdl_getenv(const char *) { return nullptr; }
static inline FILE *mdl_fopen(const char *, const char *) { return nullptr; }
static inline int mdl_remove(const char *) { return 0; }
static inline int mdl_mkdir(const char *, int) { return 0; }
#define sscanf mdl_sscanf
#define atoi mdl_atoi
#define atof mdl_atof
namespace std { static inline char *mdl_getenv(const char *) { return nullptr; } }
#define getenv mdl_getenv
#define fopen mdl_fopen
#define mkdir mdl_mkdir
#define exit mdl_cliexit
