// The phase table the WKB step writes for the record: no file is touched, and opening it may fail.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
extern "C" int mdl_wkbfile;
static inline FILE *mdl_wopen(const char *, const char *) { return mdl_wkbfile ? (FILE *)&mdl_wkbfile : nullptr; }
static inline int mdl_wprintf(FILE *f, const char *, ...) { return *(volatile int *)f - 1; }
static inline int mdl_wclose(FILE *f) { return *(volatile int *)f - 1; }
#define fopen mdl_wopen
#define fprintf mdl_wprintf
#define fclose mdl_wclose
