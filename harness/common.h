// Shared pieces of the solver harnesses (only the public API of /repo is used).
#pragma once
#include "engine/nsx.h"
#include "SAT-API.hpp"
#include "SAT-options.hpp"
#include <string>
#include <vector>
using namespace napsat;
typedef std::vector<std::string> tokens_t;
typedef std::vector<Tlit> lits_t;

// strategy number -> command line tokens
static inline tokens_t mode_tokens(unsigned m) {
  switch (m) {
    case 0: return {};
    case 1: return {"-cb"};
    case 2: return {"-lscb"};
    case 3: return {"-gb"};
    case 4: return {"-gb", "-lcm"};
    case 5: return {"-gb", "-ecm"};
    case 6: return {"-gb", "-bsc"};
    case 7: return {"-gb", "-bfc"};
    case 8: return {"-gb", "-lcm", "-bfc"};
    case 9: return {"-gb", "-bl"};
    case 10: return {"-gb", "-ecm", "-bsc"};
    case 11: return {"-gb", "-max-approx-cost"};
    case 12: return {"-gb", "-sum-approx-cost"};
    case 13: return {"-gb", "-vsids-approx-cost"};
    case 14: return {"-lscb", "-gb"};
    case 15: return {"-cb", "-gb"};
    case 16: return {"-gb", "-bl", "-lcm"};
    default: return {"-gb", "-bl", "-ecm"};
  }
}
constexpr unsigned N_MODES = 14;
// a symbolic choice out of n, turned into a case split
static inline unsigned pick(const char* name, unsigned n) { return n <= 1 ? 0 : (unsigned)nsx_concretize(nsx_sym(name, 0, n - 1)); }
static inline bool coin(const char* name) { return nsx_concretize(nsx_sym(name, 0, 1)); }
// strategy of the run: parameter `mode` when below 90, otherwise a case split over a set of strategies
static inline unsigned choose_mode() {
  unsigned m = nsx_param("mode", 99);
  if (m < 90) return m;
  if (m == 99) return pick("mode", N_MODES);       // every strategy
  if (m == 98) return pick("mode", 9);             // the main nine
  if (m == 97) return pick("mode", 3);             // without graph backtracking
  if (m == 96) return 3 + pick("mode", 6);         // graph backtracking
  static const unsigned few[] = {0, 1, 2, 3, 5, 6}; return few[pick("mode", 6)];
}

struct Formula {
  unsigned nv; std::vector<lits_t> cl;
  explicit Formula(unsigned n) : nv(n) {}
  static unsigned lit_true(uint64_t a, Tlit l) { return ((a >> (l.var().value - 1)) & 1u) == (unsigned)l.pol(); }
  static unsigned clause_true(uint64_t a, const lits_t& c) { unsigned s = 0; for (Tlit l : c) s |= lit_true(a, l); return s; }
  // truth of the formula under assignment `a` (bit v-1 = value of variable v), without branching
  unsigned holds(uint64_t a) const { unsigned all = 1; for (auto& c : cl) all &= clause_true(a, c); return all; }
  unsigned satisfiable() const { unsigned any = 0; for (uint64_t a = 0; a < (1ull << nv); a++) any |= holds(a); return any; }
  unsigned satisfiable_with(const lits_t& as) const { unsigned any = 0; for (uint64_t a = 0; a < (1ull << nv); a++) { unsigned h = holds(a); for (Tlit l : as) h &= lit_true(a, l); any |= h; } return any; }
};
// an arbitrary assignment of the variables: assertions that hold for it hold for every assignment
static inline uint64_t any_assignment(unsigned nv) { return nsx_sym("assignment", 0, (1ull << nv) - 1); }

// no model of f makes all of `with` true (parameter brute, for native experiments: judged by enumeration)
static inline bool refuted(const Formula& f, const lits_t& with = {}) {
  if (nsx_param("brute", 0)) return !f.satisfiable_with(with);
  uint64_t a = any_assignment(f.nv); unsigned h = f.holds(a); for (Tlit l : with) h &= Formula::lit_true(a, l); return !h;
}
static inline Tlit sym_lit(const char* name, unsigned nv) { return Tlit((unsigned)nsx_sym(name, 2, 2 * nv + 1)); }
static inline lits_t sym_clause(unsigned nv, unsigned len) { lits_t c; for (unsigned i = 0; i < len; i++) { c.push_back(sym_lit("lit", nv)); if (i && nsx_param("ord", 0)) nsx_assume(c[i - 1].value <= c[i].value); } return c; }

struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 1) {} unsigned operator()(unsigned n) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (unsigned)((s >> 11) % n); } };

// The clause families of the solver harnesses (parameter `fam`):
//  0  nc clauses, each of a length in [minlen,len], every literal symbolic
//  1  a fixed list of nfix+bits clauses with `len` distinct variables (list number `list`), of which the last `bits` are present or absent symbolically
//  2  as 1, all present; the polarity of the first literal of the last `bits` clauses is symbolic
//  3  parity constraints x+y+z = b over a ring of nv variables, the right-hand sides symbolic, plus `nc` symbolic clauses of length len
//  4  pigeons into holes (param list = holes, holes+1 pigeons), `bits` of the clauses present or absent symbolically
static inline void random_clauses(Formula& f, unsigned n, unsigned len, unsigned list, Rng& r) {
  (void)list;
  while (n--) { lits_t c; while (c.size() < len) { unsigned v = 1 + r(f.nv); bool dup = false; for (Tlit l : c) dup |= l.var().value == v; if (!dup) c.push_back(Tlit(Tvar(v), r(2))); } f.cl.push_back(c); }
}
static inline Formula make_formula() {
  unsigned nv = nsx_param("nv", 3), nc = nsx_param("nc", 3), len = nsx_param("len", 3), minlen = nsx_param("minlen", 1), fam = nsx_param("fam", 0), bits = nsx_param("bits", 0), nfix = nsx_param("nfix", 0), list = nsx_param("list", 1);
  if (nsx_param("lists", 1) > 1) list += pick("list", nsx_param("lists", 1));
  Formula f(nv); Rng r(list);
  auto symbolic = [&](unsigned n) { for (unsigned i = 0; i < n; i++) f.cl.push_back(sym_clause(nv, minlen + pick("len", len - minlen + 1))); };
  if (fam == 0) symbolic(nc);
  else if (fam == 1 || fam == 2) {
    Formula all(nv); random_clauses(all, nfix + bits, len, list, r);
    for (unsigned i = 0; i < nfix + bits; i++) {
      if (i < nfix) f.cl.push_back(all.cl[i]);
      else if (fam == 1) { if (coin("present")) f.cl.push_back(all.cl[i]); }
      else { lits_t c = all.cl[i]; c[0] = Tlit((unsigned)(c[0].value ^ (unsigned)nsx_concretize(nsx_sym("flip", 0, 1)))); f.cl.push_back(c); }
    }
  } else if (fam == 3) {
    for (unsigned i = 0; i < nv; i++) {
      unsigned x = i + 1, y = (i + 1) % nv + 1, z = (i + 3) % nv + 1; bool b = i < bits ? coin("parity") : r(2);
      if (z == x || z == y) { for (unsigned p = 0; p < 4; p++) { bool px = p & 1, py = p >> 1; if ((px ^ py) != b) f.cl.push_back({Tlit(Tvar(x), !px), Tlit(Tvar(y), !py)}); } continue; }
      for (unsigned p = 0; p < 8; p++) { bool px = p & 1, py = p >> 1 & 1, pz = p >> 2; if ((px ^ py ^ pz) != b) f.cl.push_back({Tlit(Tvar(x), !px), Tlit(Tvar(y), !py), Tlit(Tvar(z), !pz)}); }
    }
    symbolic(nc);
  } else {
    unsigned h = list, p = h + 1, k = 0; f.nv = p * h; auto var = [&](unsigned i, unsigned j) { return Tvar(i * h + j + 1); };
    std::vector<lits_t> all; for (unsigned i = 0; i < p; i++) { lits_t c; for (unsigned j = 0; j < h; j++) c.push_back(Tlit(var(i, j), 1)); all.push_back(c); }
    for (unsigned j = 0; j < h; j++) for (unsigned i = 0; i < p; i++) for (unsigned i2 = 0; i2 < i; i2++) all.push_back({Tlit(var(i, j), 0), Tlit(var(i2, j), 0)});
    for (auto& c : all) if (k++ < p || k - p > bits || coin("present")) f.cl.push_back(c);
  }
  return f;
}

// seed of later random clauses: depends on the parameters and, for the families of fixed lists, on the list
static inline uint64_t seed_of(const Formula& f, uint64_t d) { uint64_t seed = nsx_param("aseed", d); if (nsx_param("fam", 0) == 1) for (auto& c : f.cl) for (Tlit l : c) seed = seed * 31 + l.value; return seed; }

static inline Tval value_of(const NapSAT* s, Tlit l) { if (l.var().value >= variables_count(s)) return Tval::UNDEF; Tval v = get_variable_value(s, l.var()); if (v == Tval::UNDEF) return v; return (v == Tval::TRUE) == (bool)l.pol() ? Tval::TRUE : Tval::FALSE; }
// The assignment makes every clause true (a clause with complementary literals is true under any assignment).
static inline unsigned is_model(const NapSAT* s, const Formula& f) {
  unsigned ok = 1;
  for (auto& c : f.cl) { unsigned sat = 0; for (Tlit l : c) { sat |= value_of(s, l) == Tval::TRUE; for (Tlit k : c) sat |= (k.value ^ 1) == l.value; } ok &= sat; }
  return ok;
}
static inline void add(NapSAT* s, const lits_t& c) { Tlit none; add_clause(s, c.empty() ? &none : c.data(), c.size()); }
