// Hash-consed bit-vector expressions (widths 1..64).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <bit>
#include <cmath>
#include <unordered_map>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;

enum Op : u8 {
  CONST_, SYM, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, ITE, ZEXT, SEXT, EXTRACT, CONCAT,
  FADD, FSUB, FMUL, FDIV, FCMP, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC,
  UADDO, USUBO, UMULO, SADDO, SSUBO, SMULO, CTPOP, NOPS
};

constexpr int SUPW = 8;                  // up to 512 symbols
struct Sup {
  u64 m[SUPW];
  void clr() { memset(m, 0, sizeof m); }
  void set(unsigned i) { m[i >> 6] |= 1ull << (i & 63); }
  bool get(unsigned i) const { return m[i >> 6] >> (i & 63) & 1; }
  void orr(const Sup& o) { for (int i = 0; i < SUPW; i++) m[i] |= o.m[i]; }
  bool inter(const Sup& o) const { u64 r = 0; for (int i = 0; i < SUPW; i++) r |= m[i] & o.m[i]; return r; }
  bool subset(const Sup& o) const { u64 r = 0; for (int i = 0; i < SUPW; i++) r |= m[i] & ~o.m[i]; return !r; }
  bool any() const { u64 r = 0; for (int i = 0; i < SUPW; i++) r |= m[i]; return r; }
  int count() const { int r = 0; for (int i = 0; i < SUPW; i++) r += std::popcount(m[i]); return r; }
};

struct Expr {
  Op op; u8 w; u16 aux; u32 id;      // aux: extract low bit / symbol index / fcmp predicate
  u16 ctree;                          // >0: ITE tree whose leaves are constants; number of leaves (saturating)
  u8 tz;                              // known trailing zero bits
  u32 ev; u32 sv;                     // eval / subst epochs
  u64 lo, hi;                         // unsigned interval that contains the value
  u64 c;                              // constant value
  u64 evv; Expr* svv;
  Expr *k[3];
  void* z;
  Sup sup;
};

struct Val { u64 c; Expr* e; Val(u64 c = 0, Expr* e = nullptr) : c(c), e(e) {} };

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

u64 foldOp(Op op, unsigned w, unsigned aux, u64 a, u64 b, u64 c, unsigned wa, unsigned wb);

Expr* eConst(u64 v, unsigned w);
Expr* eSym(unsigned idx, unsigned w, u64 lo = 0, u64 hi = ~0ull);   // range: the caller asserts it on every path that uses the symbol
Expr* eRaw(Op op, Expr* a, Expr* b);                                  // comparison kept even when the ranges decide it
Expr* eBitTest(Expr* x, Expr* n);                                     // bit n of x (n < width of x), width 1
Expr* eCtpop(Expr* x); Expr* eCtz(Expr* x); bool eBitPositions(Expr* x, std::vector<Expr*>& ps);
Expr* eBin(Op op, Expr* a, Expr* b, unsigned aux = 0);
Expr* eUn(Op op, Expr* a, unsigned w, unsigned aux = 0);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eNot(Expr* a);
Expr* eExtract(Expr* a, unsigned lo, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
static inline Expr* eZext(Expr* a, unsigned w) { return a->w == w ? a : eUn(ZEXT, a, w); }
static inline bool isC(Expr* e) { return e->op == CONST_; }
u64 evalExpr(Expr* e, const std::vector<u64>& model);
void evalNewEpoch();
Expr* substExpr(Expr* e, const Sup& fixedMask, const std::vector<u64>& fixedVal);
size_t exprCount();
unsigned opWidth(Op op, unsigned wa);
