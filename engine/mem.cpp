#include "interp.hpp"
#include <cmath>
#include <sys/mman.h>

uint8_t *ARENA; size_t ARENA_SZ = 3ull << 30;
static uint32_t *SHE; static uint8_t *SHO; static uint8_t *PAGESYM;   // per byte expr id / (offset | (size-1)<<4); per 4K page flag
static uint8_t *HEAP; static uint8_t *STK;
struct Obj { uint64_t size; bool live; const char *kind; };
static std::map<uint64_t, Obj> OBJS;
std::vector<StackMem *> STACKS;
static uint64_t lastLo = 1, lastHi = 0;

void memInit() {
  ARENA = (uint8_t *)mmap((void *)0x200000000000ull, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  SHE = (uint32_t *)mmap((void *)0x210000000000ull, ARENA_SZ * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  SHO = (uint8_t *)mmap((void *)0x220000000000ull, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  PAGESYM = (uint8_t *)calloc(ARENA_SZ >> 12, 1);
  if (ARENA == MAP_FAILED || SHE == MAP_FAILED || SHO == MAP_FAILED) { perror("mmap"); exit(3); }
  STK = ARENA + 4096; // stacks first: 16 stacks of 16 MB
  for (int i = 0; i < 10; i++) { auto *s = new StackMem; s->base = ARENA + 4096 + (size_t)i * (16 << 20); s->lim = s->base + (16 << 20) - 4096; s->sp = s->base; STACKS.push_back(s); }
  HEAP = ARENA + 4096 + (size_t)10 * (16 << 20);
}
bool inArena(const void *p) { return (uint8_t *)p >= ARENA && (uint8_t *)p < ARENA + ARENA_SZ; }
void *arenaAlloc(size_t n, size_t align, const char *kind) {
  if (align < 16) align = 16;
  uint64_t p = ((uint64_t)HEAP + 64 + align - 1) & ~(uint64_t)(align - 1);
  if (p + n + 4096 > (uint64_t)(ARENA + ARENA_SZ)) throw Inconclusive("arena exhausted (allocation of " + std::to_string(n) + " bytes)");
  HEAP = (uint8_t *)(p + n + 64);
  OBJS[p] = {n, true, kind};
  return (void *)p;
}
void arenaRegisterGlobal(void *p, size_t n) { OBJS[(uint64_t)p] = {n, true, "global"}; }
bool arenaFree(void *p) {
  auto it = OBJS.find((uint64_t)p);
  if (it == OBJS.end() || !it->second.live || it->second.kind[0] == 'g') return false;
  it->second.live = false; lastLo = 1; lastHi = 0; return true;
}
bool checkAccess(uint64_t a, size_t n, std::string *why) {
  REP.memChecks++;
  if (a >= lastLo && a + n <= lastHi) return true;
  if (!inArena((void *)a)) {
    if (a < 65536) { *why = "null pointer dereference (address " + std::to_string(a) + ")"; return false; }
    return true;
  }
  if (a >= (uint64_t)STACKS[0]->base && a < (uint64_t)STACKS.back()->lim + 4096) {
    size_t si = (a - (uint64_t)STACKS[0]->base) / (16 << 20); StackMem *s = STACKS[si];
    auto &o = s->objs;
    size_t lo = 0, hi = o.size(); // last obj with start <= a
    while (lo < hi) { size_t m = (lo + hi) / 2; if (o[m].first <= a) lo = m + 1; else hi = m; }
    if (lo && a + n <= o[lo - 1].first + o[lo - 1].second) return true;
    *why = "access of " + std::to_string(n) + " bytes outside any live stack object";
    return false;
  }
  auto it = OBJS.upper_bound(a);
  if (it != OBJS.begin()) {
    --it;
    if (a + n <= it->first + it->second.size) {
      if (!it->second.live) { *why = "use after free (offset " + std::to_string(a - it->first) + " of " + std::to_string(it->second.size) + "-byte " + it->second.kind + ")"; return false; }
      lastLo = it->first; lastHi = it->first + it->second.size; return true;
    }
    if (a < it->first + it->second.size + 4096) { *why = "out-of-bounds access of " + std::to_string(n) + " bytes at offset " + std::to_string(a - it->first) + " of a " + std::to_string(it->second.size) + "-byte " + it->second.kind + " object"; return false; }
    auto nx = std::next(it); if (nx != OBJS.end() && nx->first - a < 4096) { *why = "out-of-bounds access " + std::to_string(nx->first - a) + " bytes before a " + std::to_string(nx->second.size) + "-byte " + nx->second.kind + " object"; return false; }
  }
  *why = "wild access of " + std::to_string(n) + " bytes"; return false;
}
static inline bool pageSym(uint64_t a, size_t n) {
  size_t p = (a - (uint64_t)ARENA) >> 12, q = (a + n - 1 - (uint64_t)ARENA) >> 12;
  for (; p <= q; p++) if (PAGESYM[p]) return true; return false;
}
bool anySymbolic(uint64_t a, size_t n) {
  if (!n || !inArena((void *)a) || !pageSym(a, n)) return false;
  for (size_t i = 0; i < n; i++) if (SHE[a - (uint64_t)ARENA + i]) return true; return false;
}
static Val readConc(uint64_t a, const Lane &l) {
  uint64_t x = 0;
  if (l.k == L_F80) { long double d; memset(&d, 0, sizeof d); memcpy(&d, (void *)a, 10); double y = (double)d; memcpy(&x, &y, 8); return CV(x); }
  memcpy(&x, (void *)a, laneBytes(l));
  if (l.k == L_INT && l.w < 64) x &= (1ull << l.w) - 1;
  return CV(x);
}
Val loadLane(uint64_t a, const Lane &l) {
  size_t n = laneBytes(l);
  if (!inArena((void *)a) || !pageSym(a, n)) return readConc(a, l);
  uint64_t o = a - (uint64_t)ARENA; bool any = false;
  for (size_t i = 0; i < n; i++) if (SHE[o + i]) { any = true; break; }
  if (!any) return readConc(a, l);
  if (l.k == L_F80) { if (SHE[o]) return SV(SHE[o]); throw Inconclusive("partial x87 load"); }
  if (SHE[o] && (SHO[o] & 15) == 0 && (size_t)(SHO[o] >> 4) + 1 == n) {
    bool same = true; for (size_t i = 1; i < n; i++) if (SHE[o + i] != SHE[o]) same = false;
    if (same) { E e = SHE[o]; if (l.k == L_INT && l.w == 1) return fromBool(toBool(SV(e))); if (N[e].op == RBITS && l.k != L_INT) return SV(N[e].a); if (l.k == L_INT && N[e].sort == S_REAL) return SV(mkRBits(e, l.w)); return SV(e); }
  }
  // assemble from pieces, low to high
  std::vector<std::pair<E, int>> parts; // expr (signed repr of given bits), bits
  for (size_t i = 0; i < n;) {
    if (!SHE[o + i]) { size_t j = i; uint64_t x = 0; while (j < n && !SHE[o + j]) { x |= (uint64_t)ARENA[o + j] << (8 * (j - i)); j++; } int bits = 8 * (j - i); parts.push_back({mkIConst(bits == 64 ? (i128)(int64_t)x : ((int64_t)(x << (64 - bits))) >> (64 - bits)), bits}); i = j; continue; }
    E e = SHE[o + i]; int off = SHO[o + i] & 15, sz = (SHO[o + i] >> 4) + 1; size_t j = i; while (j < n && SHE[o + j] == e && (SHO[o + j] & 15) == off + (int)(j - i)) j++;
    int len = j - i;
    if (off == 0 && len == sz) { parts.push_back({N[e].sort == S_REAL ? mkRBits(e, sz * 8) : N[e].sort == S_BOOL ? mkIIte(e, mkIConst(1), mkIConst(0)) : e, sz * 8}); }
    else {
      if (N[e].sort == S_REAL || N[e].op == RBITS || N[e].op == ICONCAT) throw Inconclusive("partial load of a symbolic floating-point value");
      E u = mkIModF(mkIDivF(toU(e, sz * 8), mkIConst((i128)1 << (8 * off))), mkIConst((i128)1 << (8 * len)));
      parts.push_back({wrapS(u, 8 * len), 8 * len});
    }
    i = j;
  }
  bool raw = false; for (auto &p : parts) if (N[p.first].op == RBITS || N[p.first].op == ICONCAT) raw = true;
  E r = parts[0].first; int w = parts[0].second;
  for (size_t k = 1; k < parts.size(); k++) {
    if (raw) r = mkConcat(r, w, parts[k].first, parts[k].second);
    else r = wrapS(mkIAdd(toU(r, w), mkIMul(toU(parts[k].first, parts[k].second), mkIConst((i128)1 << w))), w + parts[k].second);
    w += parts[k].second;
  }
  if (N[r].op == RBITS && l.k != L_INT) return SV(N[r].a);
  if (isIConst(r)) return CV((uint64_t)N[r].ival);
  return SV(r);
}
static void setShadow(uint64_t a, size_t n, E e) {
  uint64_t o = a - (uint64_t)ARENA;
  PAGESYM[o >> 12] = 1; PAGESYM[(o + n - 1) >> 12] = 1;
  for (size_t i = 0; i < n; i++) { SHE[o + i] = e; SHO[o + i] = (uint8_t)(i | ((n - 1) << 4)); }
  memset((void *)a, 0x7f, n);
}
static void storeExpr(uint64_t a, size_t n, E e) {
  if (N[e].op == ICONCAT) {
    size_t lw = N[e].ival / 8; storeExpr(a, lw, N[e].a); storeExpr(a + lw, n - lw, N[e].b); return;
  }
  if (N[e].op == RBITS) e = N[e].a;
  if (isIConst(e)) { uint64_t x = (uint64_t)N[e].ival; uint64_t o = a - (uint64_t)ARENA; memcpy((void *)a, &x, n); if (pageSym(a, n)) memset(SHE + o, 0, n * 4); return; }
  setShadow(a, n, e);
}
void storeLane(uint64_t a, const Lane &l, const Val &v) {
  size_t n = laneBytes(l);
  if (v.e) { if (!inArena((void *)a)) throw Inconclusive("symbolic store to host memory"); storeExpr(a, n, v.e); return; }
  if (inArena((void *)a) && pageSym(a, n)) memset(SHE + (a - (uint64_t)ARENA), 0, n * 4);
  if (l.k == L_F80) { double d; memcpy(&d, &v.b, 8); long double x = d; memcpy((void *)a, &x, 10); return; }
  memcpy((void *)a, &v.b, n);
}
void memCopy(uint64_t d, uint64_t s, size_t n) {
  if (!n) return;
  bool ss = anySymbolic(s, n);
  if (ss && !inArena((void *)d)) throw Inconclusive("symbolic copy to host memory");
  if (ss) {
    std::vector<uint32_t> t(SHE + (s - (uint64_t)ARENA), SHE + (s - (uint64_t)ARENA) + n); std::vector<uint8_t> u(SHO + (s - (uint64_t)ARENA), SHO + (s - (uint64_t)ARENA) + n);
    memmove((void *)d, (void *)s, n);
    uint64_t o = d - (uint64_t)ARENA; memcpy(SHE + o, t.data(), n * 4); memcpy(SHO + o, u.data(), n);
    for (size_t p = o >> 12; p <= (o + n - 1) >> 12; p++) PAGESYM[p] = 1;
    return;
  }
  memmove((void *)d, (void *)s, n);
  if (inArena((void *)d) && pageSym(d, n)) memset(SHE + (d - (uint64_t)ARENA), 0, n * 4);
}
void memSet(uint64_t d, int c, size_t n) { if (!n) return; memset((void *)d, c, n); if (inArena((void *)d) && pageSym(d, n)) memset(SHE + (d - (uint64_t)ARENA), 0, n * 4); }
