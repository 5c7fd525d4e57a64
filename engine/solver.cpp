#include "solver.hpp"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

SolverStats SST;
std::string SOLVER_CMD = "z3-new", SMT_DUMP;
static int wfd = -1, rfd = -1; static pid_t spid = 0; static std::string rbuf;

void solverAfterFork() { if (wfd >= 0) { close(wfd); close(rfd); } wfd = rfd = -1; spid = 0; rbuf.clear(); SST = SolverStats(); }
static void stopSolver() { if (spid) { kill(spid, SIGKILL); waitpid(spid, nullptr, 0); } if (wfd >= 0) { close(wfd); close(rfd); } wfd = rfd = -1; spid = 0; rbuf.clear(); }
static void startSolver() {
  if (wfd >= 0) return;
  int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw Inconclusive("pipe");
  spid = fork();
  if (spid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    dup2(a[0], 0); dup2(b[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
    execlp(SOLVER_CMD.c_str(), SOLVER_CMD.c_str(), "-in", "-memory:3000", (char *)nullptr); _exit(127);
  }
  close(a[0]); close(b[1]); wfd = a[1]; rfd = b[0]; rbuf.clear();
  signal(SIGPIPE, SIG_IGN);
}
static bool wr(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(wfd, s.data() + o, s.size() - o); if (k <= 0) return false; o += k; } return true; }
static bool rdline(std::string &line, double deadline) {
  for (;;) {
    size_t p = rbuf.find('\n'); if (p != std::string::npos) { line = rbuf.substr(0, p); rbuf.erase(0, p + 1); return true; }
    double now = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    int ms = (int)((deadline - now) * 1000); if (ms <= 0) return false;
    struct pollfd pf = {rfd, POLLIN, 0}; int r = poll(&pf, 1, ms); if (r <= 0) return false;
    char buf[65536]; ssize_t k = read(rfd, buf, sizeof buf); if (k <= 0) return false; rbuf.append(buf, k);
  }
}
static double parseVal(const std::string &s, size_t &p) {
  while (p < s.size() && isspace(s[p])) p++;
  if (s[p] == '(') {
    p++; while (isspace(s[p])) p++;
    if (s[p] == '-') { p++; double v = parseVal(s, p); while (p < s.size() && s[p] != ')') p++; p++; return -v; }
    if (s[p] == '/') { p++; double a = parseVal(s, p), b = parseVal(s, p); while (p < s.size() && s[p] != ')') p++; p++; return a / b; }
    int d = 1; while (p < s.size() && d) { if (s[p] == '(') d++; if (s[p] == ')') d--; p++; } return 0;
  }
  size_t q = p; while (q < s.size() && !isspace(s[q]) && s[q] != ')' && s[q] != '(') q++;
  double v = strtod(s.substr(p, q - p).c_str(), nullptr); p = q; return v;
}
SatRes solve(const SmtCtx &ctx, const std::string &asserts, int timeout_ms, std::map<int, double> *model, const char *tag) {
  auto t0 = std::chrono::steady_clock::now();
  std::string q = ctx.decls + ctx.defs + asserts;
  SST.queries++;
  SatRes res = UNKNOWN;
  for (int attempt = 0; attempt < 2; attempt++) {
    startSolver();
    std::string full = "(reset)\n(set-option :timeout " + std::to_string(timeout_ms) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n" + q + "(check-sat)\n(echo \"END\")\n";
    if (!wr(full)) { stopSolver(); continue; }
    double dl = std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() + timeout_ms / 1000. * 1.5 + 5;
    std::string line, ans; bool dead = false, err = false;
    for (;;) { if (!rdline(line, dl)) { dead = true; break; } if (line == "END" || line == "\"END\"") break; if (line.compare(0, 6, "(error") == 0) { err = true; if (getenv("JAXSYM_DEBUG")) fprintf(stderr, "solver: %s\n", line.c_str()); } else if (ans.empty()) ans = line; }
    if (dead) { stopSolver(); res = UNKNOWN; break; }
    if (err) { res = UNKNOWN; break; }
    if (ans == "sat") res = SAT; else if (ans == "unsat") res = UNSAT; else res = UNKNOWN;
    if (res == SAT && model && !ctx.usedVars.empty()) {
      std::string gv = "(get-value ("; for (int v : ctx.usedVars) gv += " v" + std::to_string(v); gv += "))\n(echo \"END\")\n";
      wr(gv); std::string all; for (;;) { if (!rdline(line, dl + 5)) { dead = true; break; } if (line == "END" || line == "\"END\"") break; all += line + "\n"; }
      if (dead) { stopSolver(); break; }
      size_t p = 0;
      while ((p = all.find("(v", p)) != std::string::npos) { size_t e = p + 2; int v = 0; while (isdigit(all[e])) { v = v * 10 + all[e] - '0'; e++; } double x = parseVal(all, e); (*model)[v] = x; p = e; }
    }
    break;
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  SST.secs += dt;
  if (res == SAT) SST.sat++; else if (res == UNSAT) SST.unsat++; else SST.unknown++;
  if (!SMT_DUMP.empty()) {
    static int n = 0; char fn[512]; snprintf(fn, sizeof fn, "%s/q_%d_%d_%s_%s.smt2", SMT_DUMP.c_str(), getpid(), n++, tag, res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown");
    if (FILE *f = fopen(fn, "w")) { fprintf(f, "(set-logic ALL)\n%s(check-sat)\n", q.c_str()); fclose(f); }
  }
  return res;
}
