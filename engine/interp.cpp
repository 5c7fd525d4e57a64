#include "interp.hpp"
#include <algorithm>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cxxabi.h>
#include <dlfcn.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MathExtras.h>
#include <sys/mman.h>
#include <ucontext.h>
using namespace llvm;

llvm::Module *MOD; static const DataLayout *DLp;
std::set<Function *> EXECUTED;
static std::unordered_map<Type *, Lanes> LANES;
static std::unordered_map<const GlobalValue *, uint64_t> GADDR;
static std::unordered_map<uint64_t, Function *> FADDR;
static uint64_t nextF = 0x300000000000ull;
ThreadSim TS; int OMP_THREADS = 1, RACES = 0; bool ATOMIC_ACCESS = false;

// ---------------- lanes ----------------
static void atomicStore(uint64_t a, const Val &v);
static void flat(Type *T, uint64_t off, Lanes &o) {
  const DataLayout &DL = *DLp;
  if (auto *I = dyn_cast<IntegerType>(T)) { unsigned w = I->getBitWidth(); if (w <= 64) o.push_back({L_INT, (uint16_t)w, (uint32_t)off}); else for (unsigned k = 0; k < w; k += 64) o.push_back({L_INT, (uint16_t)std::min(64u, w - k), (uint32_t)(off + k / 8)}); }
  else if (T->isFloatTy()) o.push_back({L_F32, 32, (uint32_t)off});
  else if (T->isDoubleTy()) o.push_back({L_F64, 64, (uint32_t)off});
  else if (T->isX86_FP80Ty()) o.push_back({L_F80, 80, (uint32_t)off});
  else if (T->isPointerTy()) o.push_back({L_PTR, 64, (uint32_t)off});
  else if (auto *V = dyn_cast<FixedVectorType>(T)) { uint64_t s = DL.getTypeAllocSize(V->getElementType()); for (unsigned i = 0; i < V->getNumElements(); i++) flat(V->getElementType(), off + i * s, o); }
  else if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t s = DL.getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * s, o); }
  else if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL.getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + L->getElementOffset(i), o); }
  else if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) {}
  else throw Inconclusive("unsupported IR type");
}
const Lanes &lanesOf(Type *T) { auto it = LANES.find(T); if (it != LANES.end()) return it->second; Lanes o; flat(T, 0, o); return LANES[T] = o; }

// ---------------- values ----------------
E wrapS(E e, int w) {
  if (w >= 100) return e;
  i128 h = (i128)1 << (w - 1);
  if (N[e].lo >= -h && N[e].hi < h) return e;
  return mkISub(mkIModF(mkIAdd(e, mkIConst(h)), mkIConst(h * 2)), mkIConst(h));
}
E toU(E e, int w) { if (N[e].lo >= 0) return e; if (N[e].hi < 0) return mkIAdd(e, mkIConst((i128)1 << w)); return mkIIte(mkILt(e, mkIConst(0)), mkIAdd(e, mkIConst((i128)1 << w)), e); }
static inline int64_t sx(uint64_t b, int w) { return w >= 64 ? (int64_t)b : (int64_t)(b << (64 - w)) >> (64 - w); }
// Integer view of float bit patterns that only take finitely many constant values (selects of constants).
static bool constTree(E e, int d = 0) { return isIConst(e) || isRConst(e) || (d < 6 && (N[e].op == IITE || N[e].op == RITE) && constTree(N[e].b, d + 1) && constTree(N[e].c, d + 1)); }
template <class F> static E mapTree(E e, F f) { if (N[e].op == IITE || N[e].op == RITE) { E c = N[e].a, b = N[e].b, a = N[e].c; E x = mapTree(b, f), y = mapTree(a, f); return mkIIte(c, x, y); } return f(e); }
static E plainBits(E x, int w) {
  if (N[x].op == RBITS) {
    E r = N[x].a; if (!constTree(r)) return 0;
    return mapTree(r, [&](E q) { double d = rconst(q).get_d(); if (w == 32) { float f = (float)d; int32_t u; memcpy(&u, &f, 4); return mkIConst(u); } int64_t u; memcpy(&u, &d, 8); return mkIConst(u); });
  }
  if (N[x].op == ICONCAT) {
    int lw = N[x].ival; E l = plainBits(N[x].a, lw), h = plainBits(N[x].b, w - lw); if (!l || !h) return 0;
    l = constTree(l) ? mapTree(l, [&](E q) { return mkIConst(N[q].ival < 0 ? (i128)N[q].ival + ((i128)1 << lw) : (i128)N[q].ival); }) : toU(l, lw);
    auto join = [&](E a, E b) { return mkIAdd(a, mkIMul(b, mkIConst((i128)1 << lw))); };
    if (constTree(l) && constTree(h)) return mapTree(h, [&](E b) { return mapTree(l, [&](E a) { return join(a, b); }); });
    return join(l, h);
  }
  return x;
}
E toReal(const Val &v, const Lane &l) {
  if (!v.e) {
    if (l.k == L_F32) { float f; uint32_t u = (uint32_t)v.b; memcpy(&f, &u, 4); return mkRConstD(f); }
    double d; memcpy(&d, &v.b, 8); return mkRConstD(d);
  }
  const Node &n = N[v.e];
  if (n.sort == S_REAL) return v.e;
  if (n.op == RBITS) return n.a;
  if (n.op == IITE) { E c = n.a; Val x = SV(n.b), y = SV(n.c); if (isIConst(n.b)) x = CV((uint64_t)N[n.b].ival); if (isIConst(n.c)) y = CV((uint64_t)N[n.c].ival); E p = toReal(x, l); E q = toReal(y, l); return mkRIte(c, p, q); }
  if (n.op == ICONST) { Val x = CV((uint64_t)n.ival); return toReal(x, l); }
  throw Inconclusive("raw bits used as a floating-point number: " + exprStr(v.e, 3));
}
E toInt(const Val &v, int w) {
  if (!v.e) return mkIConst(w == 1 ? (int64_t)(v.b & 1) : sx(v.b, w));
  if (N[v.e].sort == S_REAL) return mkRBits(v.e, w);
  if (N[v.e].sort == S_BOOL) return mkIIte(v.e, mkIConst(1), mkIConst(0));
  return v.e;
}
E toBool(const Val &v) {
  if (!v.e) return mkBool(v.b & 1);
  if (N[v.e].sort == S_BOOL) return v.e;
  if (N[v.e].sort == S_INT) { const Node &n = N[v.e]; if (n.lo >= 0 && n.hi <= 1) return mkNot(mkIEq(v.e, mkIConst(0))); return mkIEq(mkIModF(v.e, mkIConst(2)), mkIConst(1)); }
  throw Inconclusive("real used as a truth value");
}
Val fromReal(E e, const Lane &l) {
  if (isRConst(e)) {
    const mpq_class &q = rconst(e); double d = q.get_d();
    if (std::isfinite(d)) {
      if (l.k == L_F32) { float f = (float)d; if (q == 0 || mpq_class(f) == q) { uint32_t u; memcpy(&u, &f, 4); return CV(u); } }
      else if (q == 0 || mpq_class(d) == q) { uint64_t u; memcpy(&u, &d, 8); return CV(u); }
    }
  }
  return SV(e);
}
Val fromInt(E e, int w) { if (isIConst(e)) { uint64_t b = (uint64_t)N[e].ival; if (w < 64) b &= (1ull << w) - 1; return CV(b); } return SV(e); }
Val fromBool(E e) { if (isBConst(e)) return CV(N[e].ival ? 1 : 0); return SV(e); }

// ---------------- function decoding ----------------
struct Ref { int32_t i; };
struct Inst {
  unsigned opc; Instruction *I; int32_t dst; uint16_t nl; const Lanes *rl; const Lanes *ol;
  std::vector<Ref> ops;                 // operand base refs
  std::vector<std::pair<int, int64_t>> gep; // (operand ref, scale)
  int64_t goff; int sub; uint16_t ow; std::vector<int> mask;
};
struct Block { std::vector<Inst> ins; BasicBlock *bb; int idx; };
struct PhiMove { int32_t dst; Ref src; uint16_t n; };
struct FnInfo {
  Function *F; std::vector<Block> blocks; std::unordered_map<BasicBlock *, int> bidx; std::vector<Val> consts; int nslots = 0;
  std::unordered_map<const Value *, int> slot; std::vector<int> argSlot; std::vector<const Lanes *> argLanes;
  std::map<std::pair<int, int>, std::vector<PhiMove>> phis; std::vector<std::vector<int>> dummy;
};
static std::unordered_map<Function *, FnInfo *> FI;

uint64_t fnAddr(Function *F) { auto it = GADDR.find(F); if (it != GADDR.end()) return it->second; uint64_t a = nextF; nextF += 16; GADDR[F] = a; FADDR[a] = F; return a; }
Function *fnAt(uint64_t a) { auto it = FADDR.find(a); return it == FADDR.end() ? nullptr : it->second; }

static uint64_t globalAddr(const GlobalValue *G) {
  auto it = GADDR.find(G); if (it != GADDR.end()) return it->second;
  if (auto *F = dyn_cast<Function>(G)) return fnAddr(const_cast<Function *>(F));
  if (auto *A = dyn_cast<GlobalAlias>(G)) { auto *o = A->getAliaseeObject(); return GADDR[G] = globalAddr(o); }
  if (auto *V = dyn_cast<GlobalVariable>(G)) {
    if (V->isDeclaration()) { void *p = dlsym(RTLD_DEFAULT, V->getName().str().c_str()); if (!p) { p = arenaAlloc(256, 64, "extern"); memset(p, 0, 256); } return GADDR[G] = (uint64_t)p; }
    size_t n = DLp->getTypeAllocSize(V->getValueType()); void *p = arenaAlloc(n ? n : 1, std::max<uint64_t>(32, DLp->getPreferredAlign(V).value()), "global"); arenaRegisterGlobal(p, n);
    return GADDR[G] = (uint64_t)p;
  }
  throw Inconclusive("unsupported global");
}
static uint64_t constInt(const Constant *C);
static void constVals(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (isa<UndefValue>(C)) { for (size_t i = 0; i < lanesOf(T).size(); i++) out.push_back(CV(0)); return; }
  if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<ConstantTokenNone>(C)) { for (size_t i = 0; i < lanesOf(T).size(); i++) out.push_back(CV(0)); return; }
  if (auto *I = dyn_cast<ConstantInt>(C)) { APInt a = I->getValue(); for (unsigned k = 0; k < a.getBitWidth(); k += 64) out.push_back(CV(a.lshr(k).zextOrTrunc(64).getZExtValue())); return; }
  if (auto *F = dyn_cast<ConstantFP>(C)) { if (T->isX86_FP80Ty()) { bool li; APFloat a = F->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); out.push_back(CV(a.bitcastToAPInt().getZExtValue())); } else out.push_back(CV(F->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) constVals(D->getElementAsConstant(i), out); return; }
  if (auto *A = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < A->getNumOperands(); i++) constVals(A->getOperand(i), out); return; }
  out.push_back(CV(constInt(C)));
}
static uint64_t constInt(const Constant *C) {
  if (auto *G = dyn_cast<GlobalValue>(C)) return globalAddr(G);
  if (auto *I = dyn_cast<ConstantInt>(C)) return I->getZExtValue();
  if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
  if (auto *X = dyn_cast<ConstantExpr>(C)) {
    switch (X->getOpcode()) {
      case Instruction::GetElementPtr: { APInt o(64, 0); if (!cast<GEPOperator>(X)->accumulateConstantOffset(*DLp, o)) throw Inconclusive("const gep"); return constInt(X->getOperand(0)) + o.getSExtValue(); }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constInt(X->getOperand(0));
      case Instruction::Sub: return constInt(X->getOperand(0)) - constInt(X->getOperand(1));
      case Instruction::Add: return constInt(X->getOperand(0)) + constInt(X->getOperand(1));
      case Instruction::Trunc: return constInt(X->getOperand(0)) & ((1ull << X->getType()->getIntegerBitWidth()) - 1);
      default: break;
    }
  }
  if (auto *A = dyn_cast<DSOLocalEquivalent>(C)) return globalAddr(A->getGlobalValue());
  std::string s; raw_string_ostream os(s); C->print(os); throw Inconclusive("unsupported constant " + s);
}
static void initConst(uint64_t a, const Constant *C) {
  const Lanes &L = lanesOf(C->getType()); if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) { StringRef r = D->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  std::vector<Val> v; constVals(C, v); for (size_t i = 0; i < v.size(); i++) storeLane(a + L[i].off, L[i], v[i]);
}
static FnInfo *decode(Function *F) {
  auto it = FI.find(F); if (it != FI.end()) return it->second;
  FnInfo *fi = new FnInfo; fi->F = F; FI[F] = fi;
  for (auto &A : F->args()) { fi->slot[&A] = fi->nslots; fi->argSlot.push_back(fi->nslots); fi->argLanes.push_back(&lanesOf(A.getType())); fi->nslots += lanesOf(A.getType()).size(); }
  for (auto &BB : *F) { fi->bidx[&BB] = fi->blocks.size(); fi->blocks.push_back(Block{{}, &BB, (int)fi->blocks.size()}); for (auto &I : BB) { fi->slot[&I] = fi->nslots; fi->nslots += lanesOf(I.getType()).size(); } }
  std::unordered_map<const Constant *, int> cpos;
  auto ref = [&](Value *v) -> Ref {
    if (auto *C = dyn_cast<Constant>(v)) { auto c = cpos.find(C); if (c != cpos.end()) return {-c->second - 1}; int p = fi->consts.size(); constVals(C, fi->consts); cpos[C] = p; return {-p - 1}; }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return {0};
    return {fi->slot.at(v)};
  };
  for (auto &B : fi->blocks) for (auto &I : *B.bb) {
    if (isa<DbgInfoIntrinsic>(I)) continue;
    if (isa<PHINode>(I)) { auto &P = cast<PHINode>(I); for (unsigned k = 0; k < P.getNumIncomingValues(); k++) fi->phis[{fi->bidx[P.getIncomingBlock(k)], B.idx}].push_back({fi->slot[&I], ref(P.getIncomingValue(k)), (uint16_t)lanesOf(I.getType()).size()}); continue; }
    Inst x; x.opc = I.getOpcode(); x.I = &I; x.dst = fi->slot[&I]; x.rl = &lanesOf(I.getType()); x.nl = x.rl->size(); x.goff = 0; x.sub = 0; x.ow = 0;
    x.ol = I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0)) ? &lanesOf(I.getOperand(0)->getType()) : x.rl;
    if (isa<CallBase>(I)) { auto &C = cast<CallBase>(I); for (auto &a : C.args()) x.ops.push_back(ref(a.get())); x.ops.push_back(ref(C.getCalledOperand())); }
    else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      x.ops.push_back(ref(G->getPointerOperand()));
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
        Value *ix = gi.getOperand();
        if (auto *ST = gi.getStructTypeOrNull()) { x.goff += DLp->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
        int64_t sc = DLp->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { x.goff += ci->getSExtValue() * sc; continue; }
        x.gep.push_back({(int)x.ops.size(), sc}); x.ops.push_back(ref(ix)); x.mask.push_back(ix->getType()->getScalarSizeInBits());
      }
    } else for (auto &o : I.operands()) x.ops.push_back(ref(o.get()));
    if (auto *S = dyn_cast<ShuffleVectorInst>(&I)) { for (int m : S->getShuffleMask()) x.mask.push_back(m); x.sub = lanesOf(S->getOperand(0)->getType()).size(); }
    auto aggOff = [&](Type *T, ArrayRef<unsigned> idx) { int o = 0; for (unsigned k : idx) { if (auto *S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < k; j++) o += lanesOf(S->getElementType(j)).size(); T = S->getElementType(k); } else { T = cast<ArrayType>(T)->getElementType(); o += k * lanesOf(T).size(); } } return o; };
    if (auto *V = dyn_cast<ExtractValueInst>(&I)) x.sub = aggOff(V->getAggregateOperand()->getType(), V->getIndices());
    if (auto *V = dyn_cast<InsertValueInst>(&I)) x.sub = aggOff(V->getAggregateOperand()->getType(), V->getIndices());
    B.ins.push_back(std::move(x));
  }
  return fi;
}

// ---------------- scalar operations ----------------
static inline double D(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline float Fl(uint64_t b) { float f; uint32_t u = (uint32_t)b; memcpy(&f, &u, 4); return f; }
static inline uint64_t Db(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline uint64_t Fb(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline uint64_t msk(int w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

static Val fpBin(unsigned op, const Val &a, const Val &b, const Lane &l) {
  if (!a.e && !b.e) {
    if (l.k == L_F32) { float x = Fl(a.b), y = Fl(b.b), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } return CV(Fb(r)); }
    double x = D(a.b), y = D(b.b), r; switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = std::fmod(x, y); } return CV(Db(r));
  }
  E x = toReal(a, l), y = toReal(b, l);
  switch (op) {
    case Instruction::FAdd: return fromReal(mkRAdd(x, y), l); case Instruction::FSub: return fromReal(mkRSub(x, y), l);
    case Instruction::FMul: return fromReal(mkRMul(x, y), l);
    case Instruction::FDiv: if (isRConst(y) && rconst(y) == 0) { return CV(l.k == L_F32 ? Fb(NAN) : Db(NAN)); } return fromReal(mkRDiv(x, y), l);
    case Instruction::FRem: { // x - y*trunc(x/y)
      E q = mkRDiv(x, y); E t = mkIIte(mkRLt(q, mkRConst(0)), mkISub(mkIConst(0), mkIFloor(mkRNeg(q))), mkIFloor(q)); return fromReal(mkRSub(x, mkRMul(y, mkRFromI(t))), l); }
  }
  throw Inconclusive("fp op");
}
static bool isPow2m1(uint64_t m, int &k) { if (m & (m + 1)) return false; k = 0; while (m) { k++; m >>= 1; } return true; }
static Val maskAnd(E mask, const Val &x, int w);
// known-zero low bits
static int lowZeros(E e) {
  const Node n = N[e]; // copied: the table may grow
  if (n.op == ICONST) { i128 v = n.ival; if (v == 0) return 100; int k = 0; while (!(v & 1)) { v >>= 1; k++; } return k; }
  if (n.op == IMUL) return std::min(100, lowZeros(n.a) + lowZeros(n.b));
  if (n.op == IADD || n.op == ISUB || n.op == IMODF) return std::min(lowZeros(n.a), lowZeros(n.b)); // a mod b = a - k b
  if (n.op == IITE) return std::min(lowZeros(n.b), lowZeros(n.c));
  return 0; }
static bool isBoolMask(E e) { return N[e].op == IITE && isIConst(N[e].b) && isIConst(N[e].c); }
static Val intBin(unsigned op, const Val &a, const Val &b, int w) {
  if (!a.e && !b.e) {
    uint64_t x = a.b & msk(w), y = b.b & msk(w), r = 0; int64_t p = sx(x, w), q = sx(y, w);
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) throw PathEnd{"divzero"}; r = x / y; break; case Instruction::URem: if (!y) throw PathEnd{"divzero"}; r = x % y; break;
      case Instruction::SDiv: if (!q) throw PathEnd{"divzero"}; r = p / q; break; case Instruction::SRem: if (!q) throw PathEnd{"divzero"}; r = p % q; break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= 64 ? 0 : x << y; break; case Instruction::LShr: r = y >= 64 ? 0 : x >> y; break; case Instruction::AShr: r = p >> (y > 63 ? 63 : y); break;
    }
    return CV(r & msk(w));
  }
  if (w == 1) {
    E x = toBool(a), y = toBool(b);
    switch (op) { case Instruction::And: case Instruction::Mul: return fromBool(mkAnd(x, y)); case Instruction::Or: return fromBool(mkOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(mkXorB(x, y)); }
    throw Inconclusive("i1 op");
  }
  E x = toInt(a, w), y = toInt(b, w);
  bool rx = N[x].op == RBITS || N[x].op == ICONCAT, ry = N[y].op == RBITS || N[y].op == ICONCAT;
  if (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) {
    if (isIConst(x)) { std::swap(x, y); std::swap(rx, ry); }
    // bool-mask combinations
    auto apply = [&](E p, E q) { return toInt(intBin(op, fromInt(p, w), fromInt(q, w), w), w); };
    if (isBoolMask(x) && !(isIConst(y) && false)) { E r = mkIIte(N[x].a, apply(N[x].b, y), apply(N[x].c, y)); return fromInt(r, w); }
    if (isBoolMask(y)) { E r = mkIIte(N[y].a, apply(x, N[y].b), apply(x, N[y].c)); return fromInt(r, w); }
    if (isIConst(y)) {
      uint64_t m = (uint64_t)N[y].ival & msk(w);
      if (op == Instruction::And) {
        if (m == 0) return CV(0); if (m == msk(w)) return fromInt(x, w);
        if (N[x].op == RBITS) {
          if (m == msk(w - 1)) return fromInt(mkRBits(mkRAbs(N[x].a), w), w);
          if (m == (1ull << (w - 1))) return fromInt(mkIIte(mkRLt(N[x].a, mkRConst(0)), mkIConst(sx(m, w)), mkIConst(0)), w);
        }
        if (N[x].op == ISUB && isIConst(N[x].a) && N[N[x].a].ival == -1 && N[N[x].b].op == RBITS && m == (1ull << (w - 1))) // sign bit of the complement
          return fromInt(mkIIte(mkRLt(N[N[x].b].a, mkRConst(0)), mkIConst(0), mkIConst(sx(m, w))), w);
        if (!rx) {
          E u = toU(x, w); // contiguous mask
          int j = __builtin_ctzll(m), k; if (isPow2m1(m >> j, k)) { E r = mkIMul(mkIModF(mkIDivF(u, mkIConst((i128)1 << j)), mkIConst((i128)1 << k)), mkIConst((i128)1 << j)); return fromInt(wrapS(r, w), w); }
          uint64_t nm = ~m & msk(w); if (nm) { int j2 = __builtin_ctzll(nm), k2; if (isPow2m1(nm >> j2, k2)) { E lo = mkIModF(u, mkIConst((i128)1 << j2)); E hi = mkIMul(mkIDivF(u, mkIConst((i128)1 << (j2 + k2))), mkIConst((i128)1 << (j2 + k2))); return fromInt(wrapS(mkIAdd(lo, hi), w), w); } }
        }
      } else if (op == Instruction::Or) {
        if (m == 0) return fromInt(x, w); if (m == msk(w)) return CV(m);
        if (N[x].op == RBITS && m == (1ull << (w - 1))) return fromInt(mkRBits(mkRNeg(mkRAbs(N[x].a)), w), w);
        if (!rx) { int lz = lowZeros(x); if (lz < 62 && m < (1ull << lz)) return fromInt(wrapS(mkIAdd(x, y), w), w);
          if (N[x].lo >= 0 && N[x].hi < (i128)1 << __builtin_ctzll(m)) return fromInt(wrapS(mkIAdd(x, mkIConst((i128)m)), w), w);
          Val an = intBin(Instruction::And, fromInt(x, w), CV(m), w); return intBin(Instruction::Sub, intBin(Instruction::Add, fromInt(x, w), CV(m), w), an, w); }
      } else {
        if (m == 0) return fromInt(x, w);
        if (N[x].op == RBITS && m == (1ull << (w - 1))) return fromInt(mkRBits(mkRNeg(N[x].a), w), w);
        if ((!rx || N[x].op == RBITS) && m == msk(w)) return fromInt(mkISub(mkIConst(-1), x), w);
        if (!rx) { Val an = intBin(Instruction::And, fromInt(x, w), CV(m), w); return intBin(Instruction::Sub, intBin(Instruction::Add, fromInt(x, w), CV(m), w), intBin(Instruction::Mul, an, CV(2), w), w); }
      }
    }
    if (op == Instruction::Or && !rx && !ry) {
      int lx = lowZeros(x), ly = lowZeros(y);
      if (N[y].lo >= 0 && lx < 62 && N[y].hi < (i128)1 << lx) return fromInt(wrapS(mkIAdd(x, y), w), w);
      if (N[x].lo >= 0 && ly < 62 && N[x].hi < (i128)1 << ly) return fromInt(wrapS(mkIAdd(x, y), w), w);
    }
    if (x == y) { if (op == Instruction::Xor) return CV(0); return fromInt(x, w); }
    if (N[x].op == IITE) { E r = mkIIte(N[x].a, apply(N[x].b, y), apply(N[x].c, y)); return fromInt(r, w); }
    if (N[y].op == IITE) { E r = mkIIte(N[y].a, apply(x, N[y].b), apply(x, N[y].c)); return fromInt(r, w); }
    if (op == Instruction::Xor && (N[x].op == RBITS || N[y].op == RBITS)) { // a sign mask computed at run time
      if (N[y].op == RBITS) { std::swap(x, y); }
      if (N[y].op != RBITS && N[y].op != ICONCAT && lowZeros(y) >= w - 1) return fromInt(mkIIte(mkIEq(y, mkIConst(0)), x, mkRBits(mkRNeg(N[x].a), w)), w);
    }
    if (rx || ry) throw Inconclusive("bitwise operation on the bits of a symbolic real: " + exprStr(x, 6).substr(0, 150) + " / " + exprStr(y, 6).substr(0, 150));
    Val cx = CV((uint64_t)concretize(x, w, "bitwise operand")); return intBin(op, cx, fromInt(y, w), w);
  }
  if (N[x].op == ICONCAT && (op == Instruction::LShr || op == Instruction::AShr) && isIConst(y)) {
    int sh = N[y].ival, lw = N[x].ival; if (sh == lw) { E h = N[x].b; if (N[h].op == RBITS || N[h].op == ICONCAT) return SV(mkConcat(h, w - lw, mkIConst(0), lw)); return fromInt(wrapS(toU(h, w - lw), w), w); }
  }
  if (rx || ry) {
    if (op == Instruction::LShr && N[x].op == RBITS && isIConst(y) && N[y].ival == w - 1) return fromInt(mkIIte(mkRLt(N[x].a, mkRConst(0)), mkIConst(1), mkIConst(0)), w);
    if (op == Instruction::AShr && N[x].op == RBITS && isIConst(y) && N[y].ival == w - 1) return fromInt(mkIIte(mkRLt(N[x].a, mkRConst(0)), mkIConst(-1), mkIConst(0)), w);
    if (op == Instruction::Shl && N[x].op == ICONCAT && isIConst(y) && N[y].ival == w - (int)N[x].ival) return SV(mkConcat(mkIConst(0), w - N[x].ival, N[x].a, N[x].ival));
    { E px = plainBits(x, w), py = plainBits(y, w); if (px && py) return intBin(op, fromInt(px, w), fromInt(py, w), w); }
    throw Inconclusive("integer arithmetic on the bits of a symbolic real");
  }
  if ((op == Instruction::Add || op == Instruction::Sub) && isIConst(y) && N[x].op == IITE && constTree(x)) return fromInt(mapTree(x, [&](E q) { return toInt(intBin(op, fromInt(q, w), fromInt(y, w), w), w); }), w);
  switch (op) {
    case Instruction::Add: return fromInt(wrapS(mkIAdd(x, y), w), w);
    case Instruction::Sub: return fromInt(wrapS(mkISub(x, y), w), w);
    case Instruction::Mul: return fromInt(wrapS(mkIMul(x, y), w), w);
    case Instruction::Shl: { int64_t s = concretize(y, w, "shift amount"); return fromInt(wrapS(mkIMul(x, mkIConst((i128)1 << s)), w), w); }
    case Instruction::LShr: { int64_t s = concretize(y, w, "shift amount"); return fromInt(wrapS(mkIDivF(toU(x, w), mkIConst((i128)1 << s)), w), w); }
    case Instruction::AShr: { int64_t s = concretize(y, w, "shift amount"); return fromInt(mkIDivF(x, mkIConst((i128)1 << s)), w); }
    case Instruction::UDiv: case Instruction::URem: {
      E ux = toU(x, w), uy = toU(y, w);
      if (!isIConst(uy) && N[uy].lo <= 0) { E z = mkIEq(uy, mkIConst(0)); if (branchOn(z, "division by zero")) { std::map<int, double> m; checkSat(0, &m); violation("divzero", "division by zero", &m, ""); throw PathEnd{"divzero"}; } }
      return fromInt(wrapS(op == Instruction::UDiv ? mkIDivF(ux, uy) : mkIModF(ux, uy), w), w);
    }
    case Instruction::SDiv: case Instruction::SRem: {
      if (!isIConst(y)) y = mkIConst(concretize(y, w, "signed divisor"));
      i128 k = N[y].ival; bool ng = k < 0; E ay = mkIConst(ng ? -k : k); if (k == 0) throw PathEnd{"divzero"};
      auto tdiv = [&](E p) { if (N[p].lo >= 0) return mkIDivF(p, ay); return mkIIte(mkILt(p, mkIConst(0)), mkISub(mkIConst(0), mkIDivF(mkISub(mkIConst(0), p), ay)), mkIDivF(p, ay)); };
      E q = tdiv(x);
      if (op == Instruction::SRem) return fromInt(wrapS(mkISub(x, mkIMul(q, ay)), w), w);
      return fromInt(wrapS(ng ? mkISub(mkIConst(0), q) : q, w), w);
    }
  }
  throw Inconclusive("integer op");
}
static Val doICmp(CmpInst::Predicate p, const Val &a, const Val &b, int w) {
  if (!a.e && !b.e) {
    uint64_t x = a.b & msk(w), y = b.b & msk(w); int64_t s = sx(x, w), t = sx(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; default: break; }
    return CV(r);
  }
  if (w == 1) { E x = toBool(a), y = toBool(b); E q = mkNot(mkXorB(x, y)); if (p == CmpInst::ICMP_EQ) return fromBool(q); if (p == CmpInst::ICMP_NE) return fromBool(mkNot(q)); throw Inconclusive("i1 compare"); }
  E x = toInt(a, w), y = toInt(b, w);
  if (N[x].op == RBITS || N[y].op == RBITS) {
    if (N[y].op == RBITS) { std::swap(x, y); p = CmpInst::getSwappedPredicate(p); }
    E r = N[x].a;
    if (N[y].op == RBITS && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { E q = mkREq(r, N[y].a); return fromBool(p == CmpInst::ICMP_EQ ? q : mkNot(q)); }
    if (isIConst(y)) {
      int64_t k = N[y].ival;
      if (k == 0 && p == CmpInst::ICMP_SLT) return fromBool(mkRLt(r, mkRConst(0)));
      if (k == -1 && p == CmpInst::ICMP_SGT) return fromBool(mkNot(mkRLt(r, mkRConst(0))));
      if (k == 0 && p == CmpInst::ICMP_SGE) return fromBool(mkNot(mkRLt(r, mkRConst(0))));
      if (k == 0 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { E q = mkREq(r, mkRConst(0)); return fromBool(p == CmpInst::ICMP_EQ ? q : mkNot(q)); }
    }
    throw Inconclusive("integer comparison of the bits of a symbolic real");
  }
  if (p == CmpInst::ICMP_EQ) return fromBool(mkIEq(x, y)); if (p == CmpInst::ICMP_NE) return fromBool(mkNot(mkIEq(x, y)));
  if (CmpInst::isUnsigned(p)) { x = toU(x, w); y = toU(y, w); }
  switch (p) {
    case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return fromBool(mkILt(y, x)); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return fromBool(mkILe(y, x));
    case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return fromBool(mkILt(x, y)); default: return fromBool(mkILe(x, y));
  }
}
Val doFCmp(int p, const Val &a, const Val &b, const Lane &l) {
  if (!a.e && !b.e) {
    double x = l.k == L_F32 ? Fl(a.b) : D(a.b), y = l.k == L_F32 ? Fl(b.b) : D(b.b); bool un = std::isnan(x) || std::isnan(y), r = false;
    bool ord = !(p & 8); if (p == CmpInst::FCMP_FALSE) return CV(0); if (p == CmpInst::FCMP_TRUE) return CV(1);
    if (un) return CV(!ord);
    if ((p & 1) && x == y) r = true; if ((p & 2) && x > y) r = true; if ((p & 4) && x < y) r = true;
    return CV(r);
  }
  // NaN never arises from symbolic reals
  auto nanc = [&](const Val &v) { return !v.e && std::isnan(l.k == L_F32 ? (double)Fl(v.b) : D(v.b)); };
  if (nanc(a) || nanc(b)) return CV((p & 8) ? 1 : 0);
  int q = p & 7; if (q == 0) return CV(0); if (q == 7) return CV(1);
  if (a.e && N[a.e].sort != S_REAL && N[a.e].op == IITE && p == CmpInst::FCMP_UNO) return CV(0);
  E x = toReal(a, l), y = toReal(b, l);
  switch (q) { case 1: return fromBool(mkREq(x, y)); case 2: return fromBool(mkRLt(y, x)); case 3: return fromBool(mkRLe(y, x)); case 4: return fromBool(mkRLt(x, y)); case 5: return fromBool(mkRLe(x, y)); default: return fromBool(mkNot(mkREq(x, y))); }
}
static Val selVal(E c, const Val &a, const Val &b, const Lane &l) {
  if (isBConst(c)) return N[c].ival ? a : b;
  if (!a.e && !b.e && a.b == b.b) return a;
  if (a.e && a.e == b.e) return a;
  if (l.k == L_INT && l.w == 1) return fromBool(mkBIte(c, toBool(a), toBool(b)));
  if (l.k == L_INT) { E x = toInt(a, l.w), y = toInt(b, l.w); auto raw = [](E e) { return N[e].op == RBITS; }; if (raw(x) || raw(y)) { if ((raw(x) || isIConst(x)) && (raw(y) || isIConst(y))) { Lane fl = {l.w == 32 ? L_F32 : L_F64, l.w, 0}; E p = toReal(fromInt(x, l.w), fl), q = toReal(fromInt(y, l.w), fl); return SV(mkRBits(mkRIte(c, p, q), l.w)); } throw Inconclusive("select on raw bits"); } return fromInt(mkIIte(c, x, y), l.w); }
  if (l.k == L_PTR) { return branchOn(c, "pointer select") ? a : b; }
  auto bits = [](const Val &v) { return v.e && N[v.e].sort == S_INT; };
  if (bits(a) || bits(b)) { E x = toInt(a, l.w), y = toInt(b, l.w); if (!(N[x].op == RBITS || N[y].op == RBITS)) return fromInt(mkIIte(c, x, y), l.w); }
  return fromReal(mkRIte(c, toReal(a, l), toReal(b, l)), l);
}
Val selectVal(E c, const Val &a, const Val &b, const Lane &l) { return selVal(c, a, b, l); }
static Val doCast(unsigned op, const Val &v, const Lane &s, const Lane &d) {
  switch (op) {
    case Instruction::Trunc: if (!v.e) return CV(v.b & msk(d.w)); if (d.w == 1) { E x = toInt(v, s.w); if (N[x].op == RBITS) throw Inconclusive("trunc bits"); return fromBool(toBool(SV(x))); }
      { E x = toInt(v, s.w); if (N[x].op == ICONCAT) { int lw = N[x].ival; if (d.w == lw) { E r = N[x].a; return fromInt(r, d.w); } if (d.w < lw) return doCast(op, fromInt(N[x].a, lw), Lane{L_INT, (uint16_t)lw, 0}, d); throw Inconclusive("trunc concat"); } if (N[x].op == RBITS) throw Inconclusive("trunc of real bits"); return fromInt(wrapS(x, d.w), d.w); }
    case Instruction::ZExt: if (!v.e) return CV(v.b & msk(s.w)); if (s.w == 1) return fromInt(mkIIte(toBool(v), mkIConst(1), mkIConst(0)), d.w); { E x = toInt(v, s.w); if (N[x].op == RBITS || N[x].op == ICONCAT) return SV(mkConcat(x, s.w, mkIConst(0), d.w - s.w)); return fromInt(toU(x, s.w), d.w); }
    case Instruction::SExt: if (!v.e) return CV((uint64_t)sx(v.b & msk(s.w), s.w) & msk(d.w)); if (s.w == 1) return fromInt(mkIIte(toBool(v), mkIConst(-1), mkIConst(0)), d.w); return fromInt(toInt(v, s.w), d.w);
    case Instruction::FPTrunc: case Instruction::FPExt:
      if (v.e) { if (N[v.e].sort == S_INT) return SV(toReal(v, s)); return v; }
      { double x = s.k == L_F32 ? (double)Fl(v.b) : D(v.b); return d.k == L_F32 ? CV(Fb((float)x)) : CV(Db(x)); }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      if (!v.e) { if (op == Instruction::SIToFP) { int64_t x = sx(v.b, s.w); return d.k == L_F32 ? CV(Fb((float)x)) : CV(Db((double)x)); } uint64_t x = v.b & msk(s.w); return d.k == L_F32 ? CV(Fb((float)x)) : CV(Db((double)x)); }
      E x = toInt(v, s.w); if (op == Instruction::UIToFP) x = toU(x, s.w); return fromReal(mkRFromI(x), d);
    }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      if (!v.e) { double x = s.k == L_F32 ? (double)Fl(v.b) : D(v.b); if (op == Instruction::FPToSI) { int64_t r = (x >= -9.3e18 && x <= 9.22e18) ? (int64_t)x : INT64_MIN; if (d.w == 32 && (r > INT32_MAX || r < INT32_MIN)) r = INT32_MIN; return CV((uint64_t)r & msk(d.w)); } uint64_t r = x >= 9.2e18 ? (uint64_t)x : (uint64_t)(int64_t)x; return CV(r & msk(d.w)); }
      E x = toReal(v, s); double lo, hi; realInterval(x, lo, hi); E t;
      if (lo > -1) t = lo >= 0 ? mkIFloor(x) : mkIIte(mkRLt(x, mkRConst(0)), mkIConst(0), mkIFloor(x));
      else t = mkIIte(mkRLt(x, mkRConst(0)), mkISub(mkIConst(0), mkIFloor(mkRNeg(x))), mkIFloor(x));
      return fromInt(wrapS(t, d.w), d.w);
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (v.e) throw Inconclusive("symbolic pointer cast"); return CV(v.b & msk(std::min(s.w, d.w)));
  }
  throw Inconclusive("cast");
}

// ---------------- call stack / backtrace ----------------
struct FrameRef { const Instruction *I; Function *F; };
static std::vector<FrameRef> CALLS[16];
static std::string demangle(const std::string &s) { int st; char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); std::string r = d ? d : s; free(d); return r.substr(0, 120); }
std::string backtrace() {
  std::string s; auto &C = CALLS[TS.tid]; int n = 0;
  for (auto it = C.rbegin(); it != C.rend() && n < 8; ++it, ++n) { s += demangle(it->F->getName().str()); if (it->I) if (auto &DL = it->I->getDebugLoc()) s += " (" + DL->getFilename().str() + ":" + std::to_string(DL.getLine()) + ")"; s += " <- "; }
  return s;
}
StackMem *curStack() { return STACKS[TS.tid]; }
static void memFault(const std::string &why, bool store) {
  std::map<int, double> m; for (size_t i = 0; i < VARS.size(); i++) {}
  if (!PATH.cons.empty()) checkSat(0, &m);
  violation("memory", std::string(store ? "store: " : "load: ") + why, &m, backtrace());
  throw PathEnd{"memory"};
}
extern volatile long LASTCHK;
static void ptrCheck(uint64_t a, size_t n, bool store) { std::string why; if (!checkAccess(a, n, &why)) memFault(why, store); }
void checkedRange(uint64_t a, size_t n, bool store) { if (!n) return; ptrCheck(a, n, store); if (RACES && TS.active) raceAccess(a, n, store); }

// ---------------- main loop ----------------
static double T0; double nowSec(); double startSec() { return T0; }
void callFunction(Function *F, const Val *args, Val *ret);
static void doCall(FnInfo *fi, const Inst &x, Val *fr, Val *res) {
  auto *CB = cast<CallBase>(x.I);
  auto V = [&](Ref r) -> Val * { return r.i >= 0 ? fr + r.i : &fi->consts[-r.i - 1]; };
  Function *F = CB->getCalledFunction();
  if (!F) {
    if (CB->isInlineAsm()) { return; }
    Val *p = V(x.ops.back()); if (p->e) throw Inconclusive("symbolic function pointer");
    F = fnAt(p->b);
    if (!F) { if (p->b < 65536) { memFault("call through null function pointer", false); } throw Inconclusive("indirect call to unknown address"); }
  }
  unsigned na = CB->arg_size(); std::vector<Lanes> at; Val buf[96]; unsigned n = 0; std::vector<Val> big;
  Val *ab = buf; unsigned tot = 0; for (unsigned i = 0; i < na; i++) { tot += lanesOf(CB->getArgOperand(i)->getType()).size(); }
  if (tot > 96) { big.resize(tot); ab = big.data(); }
  bool special = F->isDeclaration() || BUILTINS.count(F->getName().str());
  for (unsigned i = 0; i < na; i++) { const Lanes &l = lanesOf(CB->getArgOperand(i)->getType()); Val *s = V(x.ops[i]); for (size_t k = 0; k < l.size(); k++) ab[n++] = s[k]; if (special) at.push_back(l); }
  if (special) {
    auto b = BUILTINS.find(F->getName().str());
    if (b != BUILTINS.end()) { b->second(CB, F, ab, at, res, *x.rl); return; }
    if (F->isIntrinsic()) { if (intrinsicCall(CB, F, ab, at, res, *x.rl)) return; throw Inconclusive("unsupported intrinsic " + F->getName().str()); }
    hostCall(F, ab, at, res, *x.rl); return;
  }
  // byval arguments: copy
  for (unsigned i = 0, pos = 0; i < na; i++) {
    if (CB->isByValArgument(i)) { Type *T = CB->getParamByValType(i); size_t sz = DLp->getTypeAllocSize(T); auto *st = curStack(); st->sp = (uint8_t *)(((uint64_t)st->sp + 63 + 32) & ~63ull); uint64_t d = (uint64_t)st->sp; st->sp += sz; st->objs.push_back({d, sz}); checkedRange(ab[pos].b, sz, false); memCopy(d, ab[pos].b, sz); ab[pos] = CV(d); }
    pos += lanesOf(CB->getArgOperand(i)->getType()).size();
  }
  callFunction(F, ab, res);
}
static long STEPLIM = 4000000000L;
void callFunction(Function *F, const Val *args, Val *ret) {
  if (F->isDeclaration()) throw Inconclusive("call to undefined " + F->getName().str());
  FnInfo *fi = decode(F); EXECUTED.insert(F);
  auto &CS = CALLS[TS.tid]; if (CS.size() > 3000) throw Inconclusive("recursion too deep");
  CS.push_back({nullptr, F});
  StackMem *st = curStack(); uint8_t *sp0 = st->sp; size_t no0 = st->objs.size();
  std::vector<Val> frame(fi->nslots, CV(0)); Val *fr = frame.data();
  { unsigned n = 0; for (size_t i = 0; i < fi->argSlot.size(); i++) for (size_t k = 0; k < fi->argLanes[i]->size(); k++) fr[fi->argSlot[i] + k] = args[n++]; }
  auto V = [&](Ref r) -> Val * { return r.i >= 0 ? fr + r.i : &fi->consts[-r.i - 1]; };
  int cur = 0; std::vector<Val> tmp;
  auto jump = [&](BasicBlock *to) {
    int t = fi->bidx[to]; auto it = fi->phis.find({cur, t});
    if (it != fi->phis.end()) { tmp.clear(); for (auto &m : it->second) { Val *s = V(m.src); for (int k = 0; k < m.n; k++) tmp.push_back(s[k]); } size_t p = 0; for (auto &m : it->second) for (int k = 0; k < m.n; k++) fr[m.dst + k] = tmp[p++]; }
    cur = t;
  };
  for (;;) {
    Block &B = fi->blocks[cur]; bool jumped = false;
    for (Inst &x : B.ins) {
      REP.insts++;
      if ((REP.insts & 0xfffff) == 0 && nowSec() - T0 > OPT.tmax) throw Inconclusive("time budget exhausted");
      CS.back().I = x.I;
      Val *d = fr + x.dst;
      switch (x.opc) {
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val *a = V(x.ops[0]), *b = V(x.ops[1]); for (int k = 0; k < x.nl; k++) d[k] = fpBin(x.opc, a[k], b[k], (*x.rl)[k]); break; }
        case Instruction::FNeg: { Val *a = V(x.ops[0]); for (int k = 0; k < x.nl; k++) { if (a[k].e) d[k] = fromReal(mkRNeg(toReal(a[k], (*x.rl)[k])), (*x.rl)[k]); else d[k] = CV(a[k].b ^ ((*x.rl)[k].k == L_F32 ? 0x80000000ull : 1ull << 63)); } break; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          Val *a = V(x.ops[0]), *b = V(x.ops[1]);
          if (x.nl > 1 && x.I->getType()->isIntegerTy()) { // wide integer
            if (x.opc == Instruction::And || x.opc == Instruction::Or || x.opc == Instruction::Xor) { for (int k = 0; k < x.nl; k++) d[k] = intBin(x.opc, a[k], b[k], (*x.rl)[k].w); break; }
            if (x.nl == 2 && !a[0].e && !a[1].e && !b[0].e && !b[1].e) {
              unsigned __int128 p = ((unsigned __int128)a[1].b << 64) | a[0].b, q = ((unsigned __int128)b[1].b << 64) | b[0].b, r;
              switch (x.opc) { case Instruction::Add: r = p + q; break; case Instruction::Sub: r = p - q; break; case Instruction::Mul: r = p * q; break; case Instruction::Shl: r = p << q; break; case Instruction::LShr: r = p >> q; break; case Instruction::UDiv: r = p / q; break; case Instruction::URem: r = p % q; break; default: throw Inconclusive("i128 op"); }
              d[0] = CV((uint64_t)r); d[1] = CV((uint64_t)(r >> 64)); break;
            }
            if (x.opc == Instruction::LShr && !b[0].e && b[0].b % 64 == 0) { int s = b[0].b / 64; for (int k = 0; k < x.nl; k++) d[k] = k + s < x.nl ? a[k + s] : CV(0); break; }
            if (x.opc == Instruction::Shl && !b[0].e && b[0].b % 64 == 0) { int s = b[0].b / 64; for (int k = x.nl - 1; k >= 0; k--) d[k] = k - s >= 0 ? a[k - s] : CV(0); break; }
            throw Inconclusive("wide integer arithmetic");
          }
          for (int k = 0; k < x.nl; k++) d[k] = intBin(x.opc, a[k], b[k], (*x.rl)[k].w); break;
        }
        case Instruction::ICmp: {
          Val *a = V(x.ops[0]), *b = V(x.ops[1]); auto p = cast<ICmpInst>(x.I)->getPredicate();
          if (x.nl == 1 && x.ol->size() > 1) { // wide integer compare
            if (p != CmpInst::ICMP_EQ && p != CmpInst::ICMP_NE) throw Inconclusive("wide compare"); Val r = CV(1); for (size_t k = 0; k < x.ol->size(); k++) r = intBin(Instruction::And, r, doICmp(CmpInst::ICMP_EQ, a[k], b[k], (*x.ol)[k].w), 1); d[0] = p == CmpInst::ICMP_EQ ? r : intBin(Instruction::Xor, r, CV(1), 1); break;
          }
          for (int k = 0; k < x.nl; k++) d[k] = doICmp(p, a[k], b[k], (*x.ol)[k].w); break;
        }
        case Instruction::FCmp: { Val *a = V(x.ops[0]), *b = V(x.ops[1]); auto p = cast<FCmpInst>(x.I)->getPredicate(); for (int k = 0; k < x.nl; k++) d[k] = doFCmp(p, a[k], b[k], (*x.ol)[k]); break; }
        case Instruction::Select: {
          Val *c = V(x.ops[0]), *a = V(x.ops[1]), *b = V(x.ops[2]);
          if (x.ol->size() == 1) { if (!c[0].e) { Val *s = (c[0].b & 1) ? a : b; for (int k = 0; k < x.nl; k++) d[k] = s[k]; } else { E cc = toBool(c[0]); bool isPtr = false; for (int k = 0; k < x.nl; k++) if ((*x.rl)[k].k == L_PTR) isPtr = true; if (isPtr) { Val *s = branchOn(cc, "select") ? a : b; for (int k = 0; k < x.nl; k++) d[k] = s[k]; } else for (int k = 0; k < x.nl; k++) d[k] = selVal(cc, a[k], b[k], (*x.rl)[k]); } }
          else for (int k = 0; k < x.nl; k++) d[k] = selVal(toBool(c[k]), a[k], b[k], (*x.rl)[k]);
          break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::PtrToInt: case Instruction::IntToPtr: {
          Val *a = V(x.ops[0]);
          if (x.nl != (int)x.ol->size()) { // wide ints
            if (x.opc == Instruction::Trunc) { for (int k = 0; k < x.nl; k++) { d[k] = a[k]; if (!d[k].e) d[k].b &= msk((*x.rl)[k].w); else if ((*x.rl)[k].w != (*x.ol)[k].w) d[k] = doCast(Instruction::Trunc, a[k], (*x.ol)[k], (*x.rl)[k]); } break; }
            if (x.opc == Instruction::ZExt) { for (int k = 0; k < x.nl; k++) d[k] = k < (int)x.ol->size() ? (k == 0 && (*x.ol)[0].w < 64 ? doCast(Instruction::ZExt, a[0], (*x.ol)[0], (*x.rl)[0]) : a[k]) : CV(0); break; }
            if (x.opc == Instruction::SExt && !a[0].e) { int64_t s = sx(a[0].b, (*x.ol)[0].w); d[0] = CV((uint64_t)s); for (int k = 1; k < x.nl; k++) d[k] = CV(s < 0 ? ~0ull : 0); break; }
            throw Inconclusive("wide integer cast");
          }
          for (int k = 0; k < x.nl; k++) d[k] = doCast(x.opc, a[k], (*x.ol)[k], (*x.rl)[k]); break;
        }
        case Instruction::BitCast: {
          Val *a = V(x.ops[0]); const Lanes &s = *x.ol, &t = *x.rl;
          if (s.size() == t.size()) { bool same = true; for (size_t k = 0; k < s.size(); k++) if (s[k].w != t[k].w) same = false;
            if (same) { for (size_t k = 0; k < s.size(); k++) { d[k] = a[k]; if (a[k].e) { bool ti = t[k].k == L_INT; if (ti && N[a[k].e].sort == S_REAL) d[k] = SV(mkRBits(a[k].e, t[k].w)); else if (!ti && N[a[k].e].op == RBITS) d[k] = SV(N[a[k].e].a); } } break; } }
          if (s.size() > 1 && s[0].w == 1 && t.size() == 1) { Val r = CV(0); for (size_t k = 0; k < s.size(); k++) { if (!a[k].e) { if (!r.e) r.b |= (a[k].b & 1) << k; else if (a[k].b & 1) r = fromInt(mkIAdd(r.e, mkIConst((i128)1 << k)), 64); } else { E add = mkIIte(toBool(a[k]), mkIConst((i128)1 << k), mkIConst(0)); r = SV(mkIAdd(r.e ? r.e : mkIConst((i128)r.b), add)); } } d[0] = r.e ? fromInt(wrapS(r.e, t[0].w), t[0].w) : r; break; }
          if (s.size() == 1 && t.size() > 1 && t[0].w == 1) { for (size_t k = 0; k < t.size(); k++) { if (!a[0].e) d[k] = CV((a[0].b >> k) & 1); else d[k] = fromBool(mkIEq(mkIModF(mkIDivF(toU(toInt(a[0], s[0].w), s[0].w), mkIConst((i128)1 << k)), mkIConst(2)), mkIConst(1))); } break; }
          uint8_t *m = curStack()->lim - 256; for (size_t k = 0; k < s.size(); k++) storeLane((uint64_t)m + s[k].off, s[k], a[k]);
          std::vector<Val> out; for (size_t k = 0; k < t.size(); k++) out.push_back(loadLane((uint64_t)m + t[k].off, t[k])); for (size_t k = 0; k < t.size(); k++) d[k] = out[k];
          break;
        }
        case Instruction::Freeze: { Val *a = V(x.ops[0]); for (int k = 0; k < x.nl; k++) d[k] = a[k]; break; }
        case Instruction::GetElementPtr: {
          Val *p = V(x.ops[0]); if (x.nl != 1) throw Inconclusive("vector gep"); if (p->e) throw Inconclusive("symbolic pointer");
          uint64_t a = p->b + x.goff; for (size_t g = 0; g < x.gep.size(); g++) { Val *i = V(x.ops[x.gep[g].first]); int w = x.mask[g]; int64_t iv; if (i->e) iv = concretize(toInt(*i, w), w, "array index"); else iv = sx(i->b, w); a += iv * x.gep[g].second; }
          d[0] = CV(a); break;
        }
        case Instruction::Load: {
          Val *p = V(x.ops[0]); if (p->e) throw Inconclusive("symbolic pointer load"); auto *L = cast<LoadInst>(x.I); uint64_t a = p->b;
          if (x.nl) { size_t n = (*x.rl)[x.nl - 1].off + laneBytes((*x.rl)[x.nl - 1]); ptrCheck(a, n, false); if (L->getAlign().value() >= 16 && (a & (L->getAlign().value() - 1)) && L->getType()->isVectorTy()) memFault("misaligned vector load", false);
            if (RACES && TS.active) { ATOMIC_ACCESS = L->isAtomic(); raceAccess(a, n, false); ATOMIC_ACCESS = false; } }
          if (x.nl > 1 && (*x.rl)[0].w < 8) { // bit vectors
            uint64_t bits = 0; memcpy(&bits, (void *)a, (x.nl + 7) / 8); for (int k = 0; k < x.nl; k++) d[k] = CV((bits >> k) & 1); break; }
          for (int k = 0; k < x.nl; k++) d[k] = loadLane(a + (*x.rl)[k].off, (*x.rl)[k]);
          break;
        }
        case Instruction::Store: {
          Val *v = V(x.ops[0]), *p = V(x.ops[1]); if (p->e) throw Inconclusive("symbolic pointer store"); auto *S = cast<StoreInst>(x.I); const Lanes &l = *x.ol; uint64_t a = p->b;
          if (!l.empty()) { size_t n = l.back().off + laneBytes(l.back()); ptrCheck(a, n, true); if (S->getAlign().value() >= 16 && (a & (S->getAlign().value() - 1)) && S->getValueOperand()->getType()->isVectorTy()) memFault("misaligned vector store", true);
            if (RACES && TS.active) { ATOMIC_ACCESS = S->isAtomic(); raceAccess(a, n, true); ATOMIC_ACCESS = false; if (S->isAtomic() && l.size() == 1) atomicStore(a, v[0]); } }
          for (size_t k = 0; k < l.size(); k++) storeLane(a + l[k].off, l[k], v[k]);
          break;
        }
        case Instruction::Alloca: {
          auto *A = cast<AllocaInst>(x.I); uint64_t n = 1; if (A->isArrayAllocation()) { Val *c = V(x.ops[0]); n = c->e ? concretize(toInt(*c, 64), 64, "alloca size") : c->b; }
          size_t sz = n * DLp->getTypeAllocSize(A->getAllocatedType()); uint64_t al = std::max<uint64_t>(A->getAlign().value(), 16);
          uint64_t p = ((uint64_t)st->sp + 16 + al - 1) & ~(al - 1); if (p + sz + 1024 > (uint64_t)st->lim) throw Inconclusive("simulated stack exhausted");
          st->sp = (uint8_t *)(p + sz); st->objs.push_back({p, sz}); memSet(p, 0, sz); d[0] = CV(p); break;
        }
        case Instruction::ExtractElement: { Val *a = V(x.ops[0]), *i = V(x.ops[1]); uint64_t k = i->e ? concretize(toInt(*i, 64), 64, "lane index") : i->b; d[0] = k < x.ol->size() ? a[k] : CV(0); break; }
        case Instruction::InsertElement: { Val *a = V(x.ops[0]), *e = V(x.ops[1]), *i = V(x.ops[2]); uint64_t k = i->e ? concretize(toInt(*i, 64), 64, "lane index") : i->b; Val ev = e[0]; for (int j = 0; j < x.nl; j++) d[j] = a[j]; if (k < x.nl) d[k] = ev; break; }
        case Instruction::ShuffleVector: { Val *a = V(x.ops[0]), *b = V(x.ops[1]); Val t[64]; for (size_t k = 0; k < x.mask.size(); k++) { int m = x.mask[k]; t[k] = m < 0 ? CV(0) : m < x.sub ? a[m] : b[m - x.sub]; } for (size_t k = 0; k < x.mask.size(); k++) d[k] = t[k]; break; }
        case Instruction::ExtractValue: { Val *a = V(x.ops[0]); for (int k = 0; k < x.nl; k++) d[k] = a[x.sub + k]; break; }
        case Instruction::InsertValue: { Val *a = V(x.ops[0]), *b = V(x.ops[1]); size_t nb = lanesOf(x.I->getOperand(1)->getType()).size(); for (int k = 0; k < x.nl; k++) d[k] = a[k]; for (size_t k = 0; k < nb; k++) d[x.sub + k] = b[k]; break; }
        case Instruction::AtomicRMW: {
          auto *A = cast<AtomicRMWInst>(x.I); Val *p = V(x.ops[0]), *v = V(x.ops[1]); Lane l = (*x.rl)[0]; ptrCheck(p->b, laneBytes(l), true); if (RACES && TS.active) { ATOMIC_ACCESS = true; raceAccess(p->b, laneBytes(l), true); ATOMIC_ACCESS = false; }
          Val o = loadLane(p->b, l), nv;
          switch (A->getOperation()) { case AtomicRMWInst::Add: nv = intBin(Instruction::Add, o, *v, l.w); break; case AtomicRMWInst::Sub: nv = intBin(Instruction::Sub, o, *v, l.w); break; case AtomicRMWInst::Xchg: nv = *v; break; case AtomicRMWInst::FAdd: nv = fpBin(Instruction::FAdd, o, *v, l); break; case AtomicRMWInst::Or: nv = intBin(Instruction::Or, o, *v, l.w); break; case AtomicRMWInst::And: nv = intBin(Instruction::And, o, *v, l.w); break; default: throw Inconclusive("atomicrmw"); }
          storeLane(p->b, l, nv); d[0] = o; break;
        }
        case Instruction::AtomicCmpXchg: {
          Val *p = V(x.ops[0]), *c = V(x.ops[1]), *n = V(x.ops[2]); Val nv = *n; Lane l = (*x.rl)[0]; ptrCheck(p->b, laneBytes(l), true); if (RACES && TS.active) { ATOMIC_ACCESS = true; raceAccess(p->b, laneBytes(l), true); ATOMIC_ACCESS = false; }
          Val o = loadLane(p->b, l); Val q; if (o.e && o.e == c->e) q = CV(1); else if (!o.e && !c->e) q = CV(o.b == c->b); else { E xx = toInt(o, l.w), yy = toInt(*c, l.w); q = xx == yy ? CV(1) : doICmp(CmpInst::ICMP_EQ, o, *c, l.w); }
          bool eq = q.e ? branchOn(toBool(q), "cmpxchg") : q.b; if (eq) storeLane(p->b, l, nv); d[0] = o; d[1] = CV(eq); break;
        }
        case Instruction::Fence: break;
        case Instruction::Br: {
          auto *Br = cast<BranchInst>(x.I);
          if (Br->isUnconditional()) jump(Br->getSuccessor(0));
          else { Val *c = V(x.ops[0]); bool t = c->e ? branchOn(toBool(*c), "branch") : (c->b & 1); jump(Br->getSuccessor(t ? 0 : 1)); }
          jumped = true; break;
        }
        case Instruction::Switch: {
          auto *S = cast<SwitchInst>(x.I); Val *c = V(x.ops[0]); int w = (*x.ol)[0].w; uint64_t v = c->e ? (uint64_t)concretize(toInt(*c, w), w, "switch") : c->b; v &= msk(w); BasicBlock *t = S->getDefaultDest();
          for (auto &cs : S->cases()) if ((cs.getCaseValue()->getZExtValue() & msk(w)) == v) { t = cs.getCaseSuccessor(); break; }
          jump(t); jumped = true; break;
        }
        case Instruction::Ret: {
          if (x.ops.size()) { Val *a = V(x.ops[0]); size_t n = x.ol->size(); for (size_t k = 0; k < n; k++) ret[k] = a[k]; }
          CS.pop_back(); st->sp = sp0; st->objs.resize(no0); return;
        }
        case Instruction::Call: doCall(fi, x, fr, d); break;
        case Instruction::Invoke: doCall(fi, x, fr, d); jump(cast<InvokeInst>(x.I)->getNormalDest()); jumped = true; break;
        case Instruction::Unreachable: throw PathEnd{"unreachable"};
        default: throw Inconclusive(std::string("unsupported instruction ") + x.I->getOpcodeName());
      }
      if (jumped) break;
    }
  }
}
#include <chrono>
double nowSec() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
void interpInit(Module *M) {
  MOD = M; DLp = &M->getDataLayout(); T0 = nowSec();
  for (auto &G : M->globals()) if (!G.isDeclaration()) globalAddr(&G);
  for (auto &G : M->globals()) if (G.hasInitializer() && !G.isDeclaration() && !G.getName().starts_with("llvm.")) initConst(globalAddr(&G), G.getInitializer());
}
void runCtors() {
  auto *G = MOD->getGlobalVariable("llvm.global_ctors"); if (!G || !G->hasInitializer()) return;
  auto *A = dyn_cast<ConstantArray>(G->getInitializer()); if (!A) return;
  std::vector<std::pair<uint64_t, Function *>> v;
  for (auto &o : A->operands()) { auto *S = cast<ConstantStruct>(o); if (auto *F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(S->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (auto &p : v) callFunction(p.second, nullptr, nullptr);
}

// ---------------- simulated OpenMP threads ----------------
struct Thr { ucontext_t ctx; bool done = false, waiting = false; std::string exc; int excKind = 0; std::vector<char> hstack; };
static std::vector<Thr *> THR; static ucontext_t MAINCTX; static Function *PFN; static const std::vector<Val> *PSH; static int SAVEDTID;
struct Acc { int8_t wr = -1; bool wrAt = false; uint64_t wrLk = 0; uint32_t rd = 0; uint32_t rdPlain = 0; };
static std::unordered_map<uint64_t, Acc> RMAP; static std::vector<uint64_t> LOCKS[16];
void raceAccess(uint64_t a, size_t n, bool write) {
  // private stack of the running thread
  StackMem *s = curStack(); if (a >= (uint64_t)s->base && a < (uint64_t)s->lim && TS.tid != 0) return;
  if (!inArena((void *)a)) return;
  REP.raceChecks++;
  bool at = ATOMIC_ACCESS; uint64_t lk = LOCKS[TS.tid].empty() ? 0 : LOCKS[TS.tid].back();
  for (size_t i = 0; i < n; i++) {
    Acc &c = RMAP[a + i]; bool bad = false; uint32_t me = 1u << TS.tid;
    if (c.wr >= 0 && c.wr != TS.tid && !(at && c.wrAt) && !(lk && lk == c.wrLk) && !(RACES == 2 && c.wrAt && !write)) bad = true;
    if (write && (c.rdPlain & ~me) && !at && !lk) bad = true;
    if (write && at && RACES != 2 && (c.rdPlain & ~me)) bad = true; // mode 2: a plain read beside an atomic update of other bits is let pass
    if (bad) { std::map<int, double> m; violation("race", "conflicting unsynchronised accesses by two threads", &m, std::string(write ? "write" : "read") + " by thread " + std::to_string(TS.tid) + (c.wr >= 0 ? " conflicts with write by thread " + std::to_string(c.wr) : " conflicts with a read") ); throw PathEnd{"race"}; }
    if (write) { c.wr = TS.tid; c.wrAt = at; c.wrLk = lk; } else { c.rd |= me; if (!at && !lk) c.rdPlain |= me; }
  }
}
// Two threads storing different values in one place, each atomically: the later store wins, whatever either read before.
static std::unordered_map<uint64_t, std::pair<int, uint64_t>> AMAP;
static void atomicStore(uint64_t a, const Val &v) {
  if (v.e || !LOCKS[TS.tid].empty() || !inArena((void *)a)) return;
  auto i = AMAP.find(a);
  if (i != AMAP.end() && i->second.first != TS.tid && i->second.second != v.b) {
    std::map<int, double> m; violation("race", "two threads store different values atomically in one place", &m, "the value left depends on the schedule"); AMAP.erase(i); return; }
  AMAP[a] = {TS.tid, v.b};
}
void lockEnter(uint64_t id) { LOCKS[TS.tid].push_back(id); }
void lockExit(uint64_t id) { if (!LOCKS[TS.tid].empty()) LOCKS[TS.tid].pop_back(); }
static void threadMain(int t) {
  Thr *T = THR[t];
  try {
    auto *st = curStack(); uint8_t *sp0 = st->sp; size_t o0 = st->objs.size();
    st->sp = (uint8_t *)(((uint64_t)st->sp + 63) & ~63ull) + 64; uint64_t g = (uint64_t)st->sp; st->sp += 64; st->objs.push_back({g, 8}); *(int32_t *)g = t; *(int32_t *)(g + 4) = 0;
    std::vector<Val> a; a.push_back(CV(g)); a.push_back(CV(g + 4)); for (auto &v : *PSH) a.push_back(v);
    callFunction(PFN, a.data(), nullptr);
    st->sp = sp0; st->objs.resize(o0);
  } catch (Inconclusive &e) { T->excKind = 1; T->exc = e.what(); } catch (PathEnd &e) { T->excKind = 2; T->exc = e.why; }
  T->done = true; swapcontext(&T->ctx, &MAINCTX);
}
void threadBarrier() {
  if (!TS.active || TS.n == 1) return;
  Thr *T = THR[TS.tid]; T->waiting = true; swapcontext(&T->ctx, &MAINCTX);
}
void parallelRegion(Function *fn, const std::vector<Val> &shared) {
  if (TS.active || OMP_THREADS <= 1) { // serial team
    ThreadSim sv = TS; auto *st = curStack(); uint8_t *sp0 = st->sp; size_t o0 = st->objs.size();
    st->sp = (uint8_t *)(((uint64_t)st->sp + 63) & ~63ull) + 64; uint64_t g = (uint64_t)st->sp; st->sp += 64; st->objs.push_back({g, 8}); *(int32_t *)g = 0; *(int32_t *)(g + 4) = 0;
    std::vector<Val> a; a.push_back(CV(g)); a.push_back(CV(g + 4)); for (auto &v : shared) a.push_back(v);
    bool act = TS.active; int n = TS.n; int tid = TS.tid; (void)tid; if (!act) { TS.active = false; TS.n = 1; }
    callFunction(fn, a.data(), nullptr); TS = sv; (void)n; st->sp = sp0; st->objs.resize(o0); return;
  }
  int n = OMP_THREADS; PFN = fn; PSH = &shared; TS.active = true; TS.n = n; RMAP.clear(), AMAP.clear();
  for (auto *t : THR) delete t; THR.clear();
  for (int t = 0; t < n; t++) {
    Thr *T = new Thr; T->hstack.resize(64 << 20); getcontext(&T->ctx); T->ctx.uc_stack.ss_sp = T->hstack.data(); T->ctx.uc_stack.ss_size = T->hstack.size(); T->ctx.uc_link = nullptr; makecontext(&T->ctx, (void (*)())threadMain, 1, t); THR.push_back(T);
  }
  // thread 0 runs on its own simulated stack region above the caller's frame
  for (;;) {
    bool any = false;
    for (int t = 0; t < n; t++) if (!THR[t]->done) {
      THR[t]->waiting = false; TS.tid = t; any = true; swapcontext(&MAINCTX, &THR[t]->ctx);
      if (THR[t]->excKind) { int k = THR[t]->excKind; std::string e = THR[t]->exc; TS.active = false; TS.tid = 0; TS.n = 1; if (k == 1) throw Inconclusive(e); throw PathEnd{e}; }
    }
    RMAP.clear(), AMAP.clear();
    if (!any) break;
  }
  TS.active = false; TS.tid = 0; TS.n = 1;
}
