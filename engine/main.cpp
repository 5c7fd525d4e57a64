// jaxsym driver: jaxsym module.bc --out F [-p k=v] [--entry harness]
#include "interp.hpp"
#include <csignal>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/resource.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/mman.h>
using namespace llvm;
double nowSec(); void waitKids(); void pathInit(); void procDone();
static double T0; static pid_t ROOT;
static std::string cleanName(Function *F) { std::string file = "?"; if (auto *S = F->getSubprogram()) file = S->getFilename().str(); return file + "|" + F->getName().str(); }
void finishProcess(const std::string &why) {
  std::string fs; bool first = true; for (auto *F : EXECUTED) { fs += (first ? "" : ",") + jstr(cleanName(F)); first = false; }
  char b[1000]; snprintf(b, 1000, "{\"t\":\"stat\",\"root\":%d,\"end\":%s,\"insts\":%ld,\"eqs\":%ld,\"eqsNorm\":%ld,\"eqsLra\":%ld,\"eqsSplit\":%ld,\"eqsFull\":%ld,\"checks\":%ld,\"checksTrivial\":%ld,\"mem\":%ld,\"race\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver\":%.3f,\"wall\":%.3f,\"vars\":%zu,\"nodes\":%zu,\"fns\":[",
    getpid() == ROOT, jstr(why.substr(0, 300)).c_str(), REP.insts, REP.eqs, REP.eqsNorm, REP.eqsLra, REP.eqsSplit, REP.eqsFull, REP.checks, REP.checksTrivial, REP.memChecks, REP.raceChecks, REP.forks, SST.queries, SST.sat, SST.unsat, SST.unknown, SST.secs, nowSec() - T0, VARS.size(), N.size());
  emit(std::string(b) + fs + "]}");
}
static Function *ENTRY; static ucontext_t MC, RC_;
static void body() {
  std::string why = "return";
  try {
    try { runCtors(); callFunction(ENTRY, nullptr, nullptr); }
    catch (PathEnd &p) { why = p.why; if (why != "harness end" && why != "return" && why != "assume" && why != "infeasible" && why != "violations" && why != "memory" && why != "race") { std::map<int, double> m; std::string bt = backtrace(); if (!PATH.cons.empty()) checkSat(0, &m); try { violation("abort", why, &m, bt); } catch (PathEnd &) {} } }
    flushEq();
  } catch (Inconclusive &e) { inconclusive(e.what(), ""); why = std::string("inconclusive: ") + e.what(); try { flushEq(); } catch (...) {} }
  catch (PathEnd &p) { why = p.why; }
  catch (std::exception &e) { inconclusive(std::string("engine exception: ") + e.what(), ""); why = "exception"; }
  finishProcess(why); waitKids(); if (getpid() != ROOT) procDone();
  fflush(stdout); _exit(0);
}
static void onSegv(int sig, siginfo_t *si, void *) { // the executed code touched memory that does not exist: a violation to be confirmed natively
  signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL);
  char b[200]; snprintf(b, 200, "engine fault (signal %d at %p)", sig, si->si_addr); std::string bt = backtrace();
  try { std::map<int, double> m; if (!PATH.cons.empty()) checkSat(0, &m); violation("abort", b, &m, bt); } catch (...) {}
  finishProcess("fault"); waitKids(); if (getpid() != ROOT) procDone();
  _exit(0);
}
int main(int argc, char **argv) {
  T0 = nowSec(); ROOT = getpid(); std::string mod, entry = "harness";
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (s == "--out") OPT.out = nx(); else if (s == "--entry") entry = nx();
    else if (s == "-p") { std::string k = nx(); size_t e = k.find('='); OPT.params[k.substr(0, e)] = atol(k.c_str() + e + 1); }
    else if (s == "--qt") OPT.qTimeout = stoi(nx()); else if (s == "--et") OPT.eqTimeout = stoi(nx()); else if (s == "--eps") OPT.eps = stod(nx()); else if (s == "--seed") OPT.seed = stoi(nx()); else if (s == "--tmax") OPT.tmax = stod(nx()); else if (s == "--procs") OPT.procs = stoi(nx()); else if (s == "--maxpaths") OPT.maxPaths = stoi(nx()); else if (s == "--maxconc") OPT.maxConc = stoi(nx()); else if (s == "--maxviol") OPT.maxViol = stoi(nx()); else if (s == "--solver") SOLVER_CMD = nx(); else if (s == "--dump") SMT_DUMP = nx();
    else mod = s;
  }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSegv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  stack_t ss; ss.ss_size = 64 << 20; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
  static LLVMContext C; SMDiagnostic err; auto M = parseIRFile(mod, err, C);
  if (!M) { err.print("jaxsym", errs()); return 3; }
  memInit(); exprInit(); pathInit();
  try { builtinsInit(); interpInit(M.get()); } catch (Inconclusive &e) { inconclusive(e.what(), "init"); return 0; }
  ENTRY = M->getFunction(entry); if (!ENTRY) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  getcontext(&RC_); size_t SZ = 512 << 20; void *st = mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  RC_.uc_stack.ss_sp = st; RC_.uc_stack.ss_size = SZ; RC_.uc_link = nullptr; makecontext(&RC_, body, 0); swapcontext(&MC, &RC_);
  return 0;
}
