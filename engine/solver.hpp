#pragma once
#include "expr.hpp"
enum SatRes { SAT, UNSAT, UNKNOWN };
struct SolverStats { long queries = 0, sat = 0, unsat = 0, unknown = 0; double secs = 0; };
extern SolverStats SST;
extern std::string SOLVER_CMD, SMT_DUMP;
// runs one self-contained query (declarations+assertions text). If model != null and SAT, values of the
// listed variables are read back.
SatRes solve(const SmtCtx &ctx, const std::string &asserts, int timeout_ms, std::map<int, double> *model, const char *tag);
void solverAfterFork();
