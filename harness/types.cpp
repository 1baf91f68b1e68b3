// The literal, variable, level and clause number types over their whole range.
#include "engine/nsx.h"
#include "SAT-types.hpp"
#include <string>
#include <vector>
using namespace napsat;
typedef uint64_t u64;
static unsigned any(const char* name, u64 lo = 0, u64 hi = 0xffffffff) { return (unsigned)nsx_sym(name, lo, hi); }
// number printed in t after `skip` characters
static bool denotes(const std::string& t, size_t skip, u64 n) { u64 x = 0; if (t.size() == skip) return false; for (size_t i = skip; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return false; x = x * 10 + (u64)(t[i] - '0'); } return x == n && (t[skip] != '0' || t.size() == skip + 1); }
static void literals() {
  unsigned v = any("var", 0, 0x7fffffff), p = any("pol", 0, 1), w = any("var", 0, 0x7fffffff), q = any("pol", 0, 1);
  Tlit a{Tvar(v), p}, b{Tvar(w), q};
  nsx_assert((a.var().value == v) & (a.pol() == (bool)p), "a literal keeps its variable and polarity");
  nsx_assert(((~a).var().value == v) & ((~a).pol() == !p), "negation flips the polarity only");
  nsx_assert((~~a == a) & (~a != a), "negation is an involution without fixed point");
  nsx_assert((a == b) == ((v == w) & (p == q)) && (a != b) == !((v == w) & (p == q)), "literals are equal exactly when variable and polarity are");
  nsx_assert((a < b) == ((v < w) | ((v == w) & (p < q))), "literals are ordered by variable, then polarity");
  nsx_assert(Tlit(a.value) == a && a.value == 2ull * v + p, "the number of a literal is twice its variable plus its polarity");
  Tlit x = a, y = b; x ^= y; y ^= x; x ^= y; nsx_assert((x == b) & (y == a), "exclusive or exchanges literals");
  nsx_assert(((a ^ b) ^ b) == a, "exclusive or is undone by itself");
  for (unsigned t = 0; t < 3; t++) {
    Tval val = (Tval)t; nsx_assert(a.undefined(val) == (t == 2), "a literal is undefined exactly under an undefined value");
    nsx_assert(a.satisfied(val) == (t < 2 && t == p) && a.falsified(val) == (t < 2 && t != p), "a literal is satisfied by its polarity and falsified by the other value");
    if (t < 2) nsx_assert(Tlit(Tvar(v), val).var().value == v && Tlit(Tvar(v), val).satisfied(val), "the literal of a variable and a value is true under the value");
  }
  nsx_assert((Tlit() == LIT_UNDEF) && LIT_UNDEF.value == 0 && Tvar().value == 0, "the default literal and variable are the undefined ones");
  nsx_reach(p ? "positive" : "negative");
}
template <class T> static void numbers(T none, bool dflt) {
  unsigned v = any("first"), w = any("second"), n = any("offset"); T a(v), b(w);
  nsx_assert((a == b) == (v == w) && (a != b) == (v != w) && (a < b) == (v < w) && (a > b) == (v > w) && (a <= b) == (v <= w) && (a >= b) == (v >= w), "comparisons are those of the numbers");
  nsx_assert((a + b).value == v + w && (a - b).value == v - w && (a + n).value == v + n && (a - n).value == v - n, "sums and differences are those of the numbers");
  T c = a; c += b; T d = a; d -= b; T e = a; e += n; T f = a; f -= n; nsx_assert(c.value == v + w && d.value == v - w && e.value == v + n && f.value == v - n, "compound assignment adds and subtracts");
  T g = a, h = g++; ++g; nsx_assert(h == a && g.value == v + 2, "increments"); h = g--; nsx_assert(h.value == v + 2 && g.value == v + 1, "decrements yield the old number"); --g; nsx_assert(g == a, "decrements undo increments");
  nsx_assert(T() == none, "the default is the undefined one"); (void)dflt; nsx_reach("numbers");
}
// printed forms: every number below a bound, around powers of ten, and at the end of the range
static void printed() {
  u64 base = 1; unsigned e = (unsigned)nsx_concretize(nsx_sym("exponent", 0, nsx_param("exps", 9))); while (e--) base *= 10;
  if (nsx_concretize(nsx_sym("end", 0, 1))) base = 0x7fffffff;
  unsigned off = nsx_param("off", 20), n = (unsigned)nsx_concretize(nsx_sym("number", base > off ? base - off : 0, base + off > 0x7fffffff ? 0x7fffffff : base + off));
  nsx_assert(denotes(Tvar(n).to_string(), 1, n) && Tvar(n).to_string()[0] == 'v', "a variable is printed as v and its number");
  nsx_assert(denotes(Tlit(Tvar(n), 1u).to_string(), 0, n), "a positive literal is printed as its variable"); std::string m = Tlit(Tvar(n), 0u).to_string(); nsx_assert(m[0] == '~' && denotes(m, 1, n), "a negative literal is printed with ~");
  nsx_assert(denotes(Tlevel(n).to_string(), 0, n) && denotes(Tclause(n).to_string(), 1, n) && Tclause(n).to_string()[0] == 'C', "levels and clauses are printed with their numbers");
  nsx_assert(Tclause(CLAUSE_UNDEF).to_string() == "UNDEF" && Tclause(CLAUSE_LAZY).to_string() == "LAZY" && Tclause(CLAUSE_ASSUMPTION).to_string() == "ASSUMPTION" && Tlevel(LEVEL_ERROR).to_string() == "ERROR" && std::to_string(Tvar(n)) == Tvar(n).to_string(), "special numbers have names");
  nsx_reach("printed");
}
static void vectors() {
  indexed_vector<unsigned, Tvar> a; unsigned n = nsx_param("n", 6), i = (unsigned)nsx_concretize(nsx_sym("index", 0, n - 1)), x = any("entry");
  a.resize(Tvar(n), 7u); a[Tvar(i)] = x; nsx_assert(a.size() == Tvar(n) && a[Tvar(i)] == x, "an indexed vector keeps its entries");
  for (unsigned k = 0; k < n; k++) nsx_assert(k == i || a[Tvar(k)] == 7, "the other entries keep theirs"); a.resize(Tvar(n + 2)); nsx_assert(a.size() == Tvar(n + 2) && a[Tvar(i)] == x && a[Tvar(n)] == 0, "growing keeps the entries"); nsx_reach("vector");
}
extern "C" void nsx_main() {
  switch (nsx_param("part", 0)) {
    case 0: literals(); break;
    case 1: numbers<Tvar>(Tvar(0), true); numbers<Tlevel>(LEVEL_UNDEF, true); numbers<Tclause>(CLAUSE_UNDEF, true); break;
    case 2: printed(); break;
    default: vectors();
  }
  unsigned s = (unsigned)nsx_param("part", 0); nsx_observe("part", s);
  const char* names[] = {"SAT", "UNSAT", "UNKNOWN", "ERROR", "INTERRUPTED", "TIMEOUT"}; for (unsigned i = 0; i < 6; i++) nsx_assert(status_to_string((status)i) == names[i], "status names");
}
