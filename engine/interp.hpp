// jaxsym: symbolic interpreter for LLVM IR.  Memory lives in a host arena at real addresses with a
// byte-granular shadow of symbolic contents; control-flow forks are process forks.
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <cstring>
#include <functional>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <random>
#include <unordered_set>

struct Val { uint64_t b; E e; uint32_t pad; };
static inline Val CV(uint64_t b) { Val v; v.b = b; v.e = 0; v.pad = 0; return v; }
static inline Val SV(E e) { Val v; v.b = 0; v.e = e; v.pad = 0; return v; }

enum LK : uint8_t { L_INT, L_F32, L_F64, L_PTR, L_F80 };
struct Lane { LK k; uint16_t w; uint32_t off; };         // width in bits, memory byte offset
static inline unsigned laneBytes(const Lane &l) { return l.k == L_F32 ? 4 : l.k == L_F64 || l.k == L_PTR ? 8 : l.k == L_F80 ? 10 : (l.w + 7) / 8; }
typedef std::vector<Lane> Lanes;

struct PathEnd { std::string why; };

// ---- memory ----
extern uint8_t *ARENA; extern size_t ARENA_SZ;
void memInit();
void *arenaAlloc(size_t n, size_t align, const char *kind);
bool arenaFree(void *p);                 // false: not a live heap object
void arenaRegisterGlobal(void *p, size_t n);
bool inArena(const void *p);
bool checkAccess(uint64_t a, size_t n, std::string *why);
Val loadLane(uint64_t a, const Lane &l);
void storeLane(uint64_t a, const Lane &l, const Val &v);
void memCopy(uint64_t d, uint64_t s, size_t n);
void memSet(uint64_t d, int c, size_t n);
bool anySymbolic(uint64_t a, size_t n);
struct StackMem { uint8_t *base, *lim, *sp; std::vector<std::pair<uint64_t, uint64_t>> objs; };
extern std::vector<StackMem *> STACKS;

// ---- value helpers ----
E toReal(const Val &v, const Lane &l);
E toInt(const Val &v, int w);
E toBool(const Val &v);
Val fromReal(E e, const Lane &l);
Val fromInt(E e, int w);
Val fromBool(E e);
E wrapS(E e, int w);      // signed wrap to w bits
E toU(E e, int w);        // unsigned view of a signed-representation int

// ---- path ----
struct Path {
  std::vector<E> cons; std::unordered_set<E> set;
};
extern Path PATH;
bool branchOn(E c, const char *what);
int64_t concretize(E e, int w, const char *what);
void addCons(E c);
void assumeCond(E c);
SatRes checkSat(E extra, std::map<int, double> *model, int to = 0);

// ---- reporting ----
struct Report {
  long eqs = 0, eqsSplit = 0, eqsNorm = 0, eqsLra = 0, eqsFull = 0, checks = 0, checksTrivial = 0, paths = 0, forks = 0, insts = 0, memChecks = 0, raceChecks = 0;
};
extern Report REP;
void emit(const std::string &jsonLine);
std::string jstr(const std::string &s);
void violation(const std::string &kind, const std::string &label, const std::map<int, double> *model, const std::string &detail);
void inconclusive(const std::string &why, const std::string &label);
std::string backtrace();

// ---- pending equalities ----
void pendEq(E a, E b, double scale, const std::string &label);
void flushEq();
void symCheck(E c, const std::string &label);
double *poolAssign();
struct Opts {
  int qTimeout = 8000, eqTimeout = 20000, maxPaths = 20000, maxConc = 256; double eps = 2e-6; std::string out; std::map<std::string, long> params; int seed = 1; int maxViol = 3; int procs = 1;
  double tmax = 600;
};
extern Opts OPT;

// ---- interpreter ----
struct FnInfo;
void interpInit(llvm::Module *M);
void runCtors();
void callFunction(llvm::Function *F, const Val *args, Val *ret);
llvm::Function *fnAt(uint64_t addr);
uint64_t fnAddr(llvm::Function *F);
const Lanes &lanesOf(llvm::Type *T);
typedef std::function<void(llvm::CallBase *cb, llvm::Function *F, const Val *args, const std::vector<Lanes> &at, Val *ret, const Lanes &rt)> Builtin;
extern std::unordered_map<std::string, Builtin> BUILTINS;
void builtinsInit();
bool intrinsicCall(llvm::CallBase *cb, llvm::Function *F, const Val *args, const std::vector<Lanes> &at, Val *ret, const Lanes &rt);
void hostCall(llvm::Function *F, const Val *args, const std::vector<Lanes> &at, Val *ret, const Lanes &rt);
extern llvm::Module *MOD;
extern std::set<llvm::Function *> EXECUTED;

// ---- threads (simulated OpenMP) ----
struct ThreadSim { bool active = false; int tid = 0, n = 1; };
extern ThreadSim TS;
extern int OMP_THREADS, RACES;
void parallelRegion(llvm::Function *fn, const std::vector<Val> &shared);
void threadBarrier();
void raceAccess(uint64_t a, size_t n, bool write);
void lockEnter(uint64_t id); void lockExit(uint64_t id);
extern bool ATOMIC_ACCESS;
StackMem *curStack();
void pushFrameName(const llvm::Instruction *I);
