// Environment model shared by the harnesses: process topology, profiler sink, logger object.
#include <cstdio>
#include <cstdlib>
#include <memory>
#include "enum-field.h"
#include "utils/logger.h"
#include "utils/profiler.h"
#include "base.h"
int mdl_rank = 0, mdl_size = 1, mdl_threads = 1, mdl_quiet = 0;
namespace AxionsLog { std::shared_ptr<NullLogger> myLog; }
void createLogger(const int, const LogMpi, const VerbosityLevel) {}
int commRank() { return mdl_rank; }
int commSize() { return mdl_size; }
int commThreads() { return mdl_threads; }
int commRanksPerNode() { return 1; }
int commAcc() { return 0; }
void commSync() {}
void endComms() {}
int initComms(int, char **, int, DeviceType, LogMpi, VerbosityLevel) { return 0; }
size_t gpuMemAvail() { return 0; }
int maxThreadsPerBlock() { return 1; }
int maxThreadsPerDim(const int) { return 1; }
int maxGridSize(const int) { return 1; }
namespace profiler {
void initProfilers() {}
void destroyProfilers() {}
void printProfStats() {}
void printMiniStats(double, StringData, ProfType, std::string) {}
Profiler &getProfiler(ProfType) { static Profiler *p = nullptr; if (!p) p = new Profiler("x"); return *p; }
double Profiler::printStats() { return 0; }
}
