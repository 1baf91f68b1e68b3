// Differential self-test of the expression simplifier: every node built through the simplifying
// constructors must evaluate like the operator applied to its evaluated operands.
// build: g++ -std=c++20 -O1 -I.. fuzz_expr.cpp ../expr.cpp
#include "../expr.h"
#include <random>
int main(int argc, char** argv) {
  std::mt19937_64 R(argc > 1 ? atoi(argv[1]) : 1); unsigned rounds = argc > 2 ? atoi(argv[2]) : 3000; size_t checks = 0;
  auto rnd = [&](u64 n) { return R() % n; };
  for (unsigned it = 0; it < rounds; it++) {
    std::vector<Expr*> pool; std::vector<std::pair<u64, u64>> rg; unsigned ns = 1 + rnd(4);
    for (unsigned i = 0; i < ns; i++) { u64 hi = rnd(3) == 0 ? 1 + rnd(3) : 1 + rnd(1u << (1 + rnd(13))); unsigned bits = 64 - std::countl_zero(hi); u64 lo = rnd(2) ? 0 : rnd(hi + 1); if (lo == hi) lo = 0; rg.push_back({lo, hi}); Expr* s = eSym(i, bits, lo, hi); pool.push_back(s); pool.push_back(eZext(s, 64)); pool.push_back(eZext(s, std::max(32u, bits))); pool.push_back(eBin(SHL, eConst(1, 64), eBin(AND, eZext(s, 64), eConst(63, 64)))); }
    std::vector<std::vector<u64>> ms; for (int k = 0; k < 12; k++) { std::vector<u64> m; for (auto& r : rg) m.push_back(rnd(4) == 0 ? (rnd(2) ? r.first : r.second) : r.first + rnd(r.second - r.first + 1)); ms.push_back(m); }
    for (int step = 0; step < 60; step++) {
      Expr* a = pool[rnd(pool.size())]; Expr* r = nullptr; int what = rnd(12); 
      auto cst = [&](unsigned w) { static const u64 cs[] = {0, 1, 2, 3, 5, 6, 7, 8, 62, 63, 64, 65, 126, 4031, 4032, ~0ull, ~0ull >> 1, 1ull << 63, ~0ull << 1, 0xff}; return eConst(rnd(4) ? cs[rnd(20)] : R() >> rnd(64), w); };
      auto same = [&](unsigned w) { for (int t = 0; t < 8; t++) { Expr* b = pool[rnd(pool.size())]; if (b->w == w) return b; if (b->w < w && rnd(2)) return eZext(b, w); } return cst(w); };
      auto chk = [&](Expr* e, auto f) { for (auto& m : ms) { checks++; u64 x = evalExpr(e, m), y = f(m); if (x != y || x < e->lo || x > e->hi) { printf("MISMATCH round %u step %d kind %d: %llx vs %llx range [%llx,%llx] op %d w %d\n", it, step, what, (unsigned long long)x, (unsigned long long)y, (unsigned long long)e->lo, (unsigned long long)e->hi, e->op, e->w); return false; } } return true; };
      bool ok = true;
      if (what < 7) {
        static const Op ops[] = {ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR, EQ, ULT, ULE, SLT, SLE, UADDO, USUBO, SADDO, UMULO, AND, OR, XOR, SHL, EQ, LSHR, AND, OR};
        Op o = ops[rnd(30)]; Expr* b = rnd(3) == 0 ? cst(a->w) : same(a->w); if (rnd(8) == 0) std::swap(a, b);
        r = eBin(o, a, b); ok = chk(r, [&](auto& m) { return foldOp(o, opWidth(o, a->w), 0, evalExpr(a, m), evalExpr(b, m), 0, a->w, b->w); });
      } else if (what == 7) { Expr* c = pool[rnd(pool.size())]; if (c->w != 1) c = eBin(EQ, c, cst(c->w)); Expr* b = same(a->w); r = eIte(c, a, b); ok = chk(r, [&](auto& m) { return evalExpr(c, m) ? evalExpr(a, m) : evalExpr(b, m); }); }
      else if (what == 8) { unsigned lo = rnd(a->w), w = 1 + rnd(a->w - lo); r = eExtract(a, lo, w); ok = chk(r, [&](auto& m) { return evalExpr(a, m) >> lo & maskw(w); }); }
      else if (what == 9) { if (a->w > 32) continue; Expr* b = pool[rnd(pool.size())]; if (b->w > 32) continue; r = eConcat(a, b); ok = chk(r, [&](auto& m) { return evalExpr(a, m) << b->w | evalExpr(b, m); }); }
      else if (what == 10) { if (a->w != 64) continue; r = eCtpop(a); ok = chk(r, [&](auto& m) { return (u64)std::popcount(evalExpr(a, m)); }); }
      else { if (a->w != 64) { unsigned w = a->w + rnd(65 - a->w); if (w == a->w) continue; r = eUn(rnd(2) ? ZEXT : SEXT, a, w); Op o = r->op == SEXT ? SEXT : ZEXT; if (r->op != SEXT && r->op != ZEXT) continue; (void)o; ok = true; if (r->op == ZEXT && r->k[0] == a) ok = chk(r, [&](auto& m) { return evalExpr(a, m); }); }
        else { r = eCtz(a); if (!r) continue; ok = chk(r, [&](auto& m) { u64 v = evalExpr(a, m); return v ? (u64)std::countr_zero(v) : 64; }); } }
      if (!ok) return 1;
      if (r) pool.push_back(r);
    }
  }
  printf("expression self-test: %zu evaluations agree\n", checks);
}
