// Stand-in for /repo/include/utils/logger.h: logging has an empty body in the checks (formatting and
// the message queue are not part of any checked property).  Arguments stay type-checked.
#ifndef __LOGGER__
#define __LOGGER__
#include <string>
#include <cstring>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <vector>
#include <chrono>
#include <memory>
#include <cstddef>
#include <algorithm>
#include <thread>
#include <cstdarg>
#include <cstring>
#include <sys/stat.h>
#include <unistd.h>
#include <omp.h>
#include <mpi.h>
#include "enum-field.h"
#include "comms/comms.h"
namespace AxionsLog {
  struct NullLogger { int Verbosity() { return 0; } void flushLog() {} double runTime() { return 0.; } void commLog(...) {} };
  extern std::shared_ptr<NullLogger> myLog;
}
void createLogger(const int index, const LogMpi logMpi, const VerbosityLevel verb);
static inline void nullLog_(const char *, ...) __attribute__((unused));
static inline void nullLog_(const char *, ...) {}
#define LogAll(logType, ...) do { if (0) nullLog_(__VA_ARGS__); } while (0)
#define LogDebug(...) do { if (0) nullLog_(__VA_ARGS__); } while (0)
#define LogError(...) do { if (0) nullLog_(__VA_ARGS__); } while (0)
#define LogMsg(verb, ...) do { if (0) { (void)(verb); nullLog_(__VA_ARGS__); } } while (0)
#define LogOut(...) do { if (0) nullLog_(__VA_ARGS__); } while (0)
#define LogFlush() ((void)0)
#define Timer() (0.)
#endif
