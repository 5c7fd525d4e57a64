// jaxsym expression core: hash-consed terms over Real / Int / Bool, exact
// polynomial normal forms, interval estimates, numeric evaluation, SMT-LIB output.
#pragma once
#include <cstdint>
#include <gmpxx.h>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t E;          // expression id, 0 = none
typedef __int128 i128;

enum Op : uint8_t {
  // Real
  RCONST, RVAR, RADD, RSUB, RMUL, RDIV, RNEG, RITE, RUF, RFROMI,
  // Int (mathematical integers with interval [lo,hi])
  ICONST, IVAR, IADD, ISUB, IMUL, IDIVF, IMODF, IITE, IFLOOR,
  RBITS,    // raw bits of a real of width w
  ICONCAT,  // a = low part, b = high part  (w = total width, ival = low width)
  // Bool
  BCONST, BLT, BLE_, BEQ, BILT, BIEQ, BAND, BOR, BNOT,
};
enum Sort : uint8_t { S_REAL, S_INT, S_BOOL };

enum UF : int { F_SQRT, F_SIN, F_COS, F_EXP, F_LOG, F_POW, F_ATAN2, F_TAN, F_ATAN, F_ACOS, F_ASIN, F_TANH, F_SINH, F_COSH, F_OTHER };

struct Node {
  Op op; Sort sort; uint16_t w;
  E a, b, c;
  int64_t ival;    // ICONST/BCONST value, var index, const index, UF id, concat low width
  i128 lo, hi;     // Int interval
};

struct Inconclusive : std::runtime_error { using std::runtime_error::runtime_error; };

struct VarInfo { std::string name; double lo, hi; bool isInt; };

extern std::vector<Node> N;
extern std::vector<mpq_class> RC;      // real constants
extern std::vector<VarInfo> VARS;
extern std::vector<std::string> UFNAMES;

void exprInit();
E mkRConst(const mpq_class &q);
E mkRConstD(double d);
E mkRVar(const std::string &name, double lo, double hi);
E mkIVar(const std::string &name, int64_t lo, int64_t hi);
E mkRAdd(E a, E b); E mkRSub(E a, E b); E mkRMul(E a, E b); E mkRDiv(E a, E b); E mkRNeg(E a);
E mkRIte(E c, E a, E b); E mkRUF(int f, E a, E b = 0); E mkRFromI(E i);
E mkRMin(E a, E b); E mkRMax(E a, E b); E mkRAbs(E a);
E mkIConst(i128 v); E mkIAdd(E a, E b); E mkISub(E a, E b); E mkIMul(E a, E b);
E mkIDivF(E a, E b); E mkIModF(E a, E b); E mkIIte(E c, E a, E b);
E mkIFloor(E r);
E mkRBits(E r, int w); E mkConcat(E lo, int lw, E hi, int hw);
E mkBool(bool); E mkRLt(E a, E b); E mkRLe(E a, E b); E mkREq(E a, E b);
E mkILt(E a, E b); E mkILe(E a, E b); E mkIEq(E a, E b);
E mkAnd(E a, E b); E mkOr(E a, E b); E mkNot(E a); E mkXorB(E a, E b); E mkBIte(E c, E a, E b);
inline bool isBConst(E e) { return N[e].op == BCONST; }
inline bool isIConst(E e) { return N[e].op == ICONST; }
inline bool isRConst(E e) { return N[e].op == RCONST; }
const mpq_class &rconst(E e);
int ufId(const std::string &name);

// ---------- polynomial normal form ----------
struct Mono { std::vector<std::pair<uint32_t, int>> f; };   // (atom, exponent)
typedef std::vector<std::pair<uint32_t, mpq_class>> PolyV;  // sorted by mono id
typedef std::shared_ptr<const PolyV> Poly;
enum AtomKind { A_VAR, A_INV, A_SQRT, A_UF, A_ITE, A_INT, A_OPAQUE };
struct Atom {
  AtomKind kind; E e;          // e: RVAR node / RITE node / RFROMI's int
  int f; Poly p, q;            // INV(p), SQRT(p), UF f(p,q); ITE(cond e, p, q)
  double lo, hi;               // interval (may be infinite)
};
extern std::vector<Atom> ATOMS;
extern std::vector<Mono> MONOS;
Poly polyOf(E real);
Poly polyAdd(Poly a, Poly b, const mpq_class &kb = 1);
Poly polyMul(Poly a, Poly b);
Poly polyScale(Poly a, const mpq_class &k);
double monoBound(uint32_t m);
bool polyHasKind(const Poly &p, AtomKind k, bool deep = true);
void polyAtoms(const Poly &p, std::set<uint32_t> &out, bool deep);
// clear inverse atoms from d (and scale s the same way)
void clearInv(Poly &d, Poly &s);
extern double APPROX_EPS;

// numeric evaluation
struct Eval {
  std::vector<double> vars;            // by var index
  std::unordered_map<E, double> memo;
  double real(E e); i128 integer(E e); bool boolean(E e);
  std::unordered_map<E, i128> imemo; std::unordered_map<E, bool> bmemo;
  double polyv(const Poly &p); double atomv(uint32_t a);
  std::unordered_map<uint32_t, double> amemo;
};

// interval of real expr (best effort)
void realInterval(E e, double &lo, double &hi);

// SMT printing. Collects declarations on demand.
struct SmtCtx {
  std::string decls, defs;
  std::unordered_map<E, std::string> ename;
  std::unordered_map<uint32_t, std::string> aname;
  std::set<int> usedVars;
  bool nonlinear = false;
  std::string b(E e), i(E e), r(E e), poly(const Poly &p), atom(uint32_t a);
  std::string var(int v);
  int cnt = 0;
};
std::string ratStr(const mpq_class &q);
std::string exprStr(E e, int depth = 6);
void collectVars(E e, std::set<int> &vars);
