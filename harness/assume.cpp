// Solving under assumptions: any history of assuming, forgetting, solving and adding clauses.
#include "harness/common.h"
static void held_check(const lits_t& held, NapSAT* s) { unsigned ok = 1; for (Tlit l : held) ok &= value_of(s, l) == Tval::TRUE; nsx_assert(ok, "assumptions held are true"); }
static std::vector<Tclause> ids;   // of the clauses added, in order
static void enter(NapSAT* s, const lits_t& c) { Tlit none; ids.push_back(add_clause(s, c.empty() ? &none : c.data(), c.size())); }
static void clause_core(NapSAT* s, const Formula& f, const lits_t& core) {
  std::vector<Tclause> cc = clause_unsat_core(s); Formula g(f.nv); unsigned known = 1; std::vector<bool> seen(ids.size());
  for (Tclause c : cc) { unsigned m = 0; for (size_t i = 0; i < ids.size(); i++) if (ids[i] == c && c != CLAUSE_UNDEF) { m++; seen[i] = true; } known &= m == 1; }
  for (size_t i = 0; i < ids.size(); i++) if (seen[i]) g.cl.push_back(f.cl[i]);
  nsx_assert(known, "a clause core consists of identifiers of added clauses"); nsx_assert(refuted(g, core), "the clauses of the core contradict the failed assumptions");
  if (g.cl.size() < f.cl.size()) nsx_reach("proper clause core");
}
static void judge(NapSAT* s, const Formula& f, const lits_t& held, status st) {
  nsx_observe("status", (unsigned)st);
  if (st == status::SAT) { nsx_assert(is_model(s, f), "the model satisfies every clause"); held_check(held, s); nsx_reach(held.empty() ? "sat" : "sat under assumptions"); return; }
  nsx_assert(st == status::UNSAT, "solving gives a definite answer");
  nsx_assert(refuted(f, held), "UNSAT is answered only when no model satisfies the assumptions");
  nsx_reach(held.empty() ? "unsat" : "unsat under assumptions");
  std::vector<Tlit> core = unsat_core(s); unsigned in = 1; for (Tlit l : core) { unsigned m = 0; for (Tlit k : held) m |= k == l; in &= m; }
  nsx_assert(in, "the core consists of assumptions"); nsx_assert(refuted(f, core), "the clauses contradict the core"); if (core.size() < held.size()) nsx_reach("proper core");
  if (nsx_param("ccore", 0)) { clause_core(s, f, core); nsx_reach(core.empty() ? "clause core" : "clause core under assumptions"); }
}
extern "C" void nsx_main() {
  tokens_t t = mode_tokens(choose_mode()); ids.clear(); if (nsx_param("ccore", 0)) { t.push_back("--record-dependencies"); if (nsx_param("perf", 0)) switch (pick("perf", 3)) { case 0: t.push_back("-del"); t.push_back("on"); t.push_back("--clause-elimination-multiplier"); t.push_back("0.1"); break; case 1: t.push_back("-bp"); t.push_back("-cp"); break; default: break; } } options o(t); Formula f = make_formula(); NapSAT* s = create_solver(f.nv, f.cl.size(), o);
  for (auto& c : f.cl) enter(s, c);
  unsigned n = nsx_param("nops", 4), nadd = nsx_param("nadd", 0), ops = nsx_param("ops", 15), pre = nsx_param("pre", 0); Rng r(seed_of(f, 3)); lits_t held; uint64_t used = 0;
  for (auto& c : f.cl) for (Tlit l : c) used |= 1ull << l.var().value;
  auto assume = [&](Tlit l) {
    bool ok = add_assumption(s, l);
    if (ok) { bool dup = false; for (Tlit k : held) dup |= k == l; if (!dup) held.push_back(l); nsx_assert(value_of(s, l) == Tval::TRUE, "an accepted assumption is true"); nsx_reach("assumed"); }
    else { lits_t w = held; w.push_back(l); nsx_assert(refuted(f, w), "an assumption is rejected only when it contradicts the clauses and the others"); nsx_reach("rejected"); }
  };
  for (unsigned i = 0; i < pre; i++) assume(Tlit(Tvar(1 + pick("variable", f.nv)), pick("value", 2)));
  unsigned script = nsx_param("script", 0);   // decimal digits, last first: 1 + operation; 0: any
  while (n--) {
    unsigned k = 0; if (script) { k = script % 10 - 1; script /= 10; if (!script) n = 0; } else for (unsigned w = pick("op", __builtin_popcount(ops)); !(ops >> k & 1) || w--; k++) {}
    switch (k) {
      case 0: assume(Tlit(Tvar(1 + pick("variable", f.nv)), pick("value", 2))); break;
      case 1: judge(s, f, held, solve(s)); break;
      case 2: { if (held.empty()) break; unsigned i = pick("which", held.size()); bool root = is_root_level(s, held[i].var()), gone = forget_assumption(s, held[i]); nsx_assert(gone || root, "an assumption held can be forgotten"); held.erase(held.begin() + i); held_check(held, s); nsx_reach("forgotten"); break; }
      case 3: forget_assumption(s); held.clear(); nsx_reach("all forgotten"); break;
      case 4: { Formula g(f.nv); if (nsx_param("anyunit", 0)) g.cl.push_back({Tlit(Tvar(1 + pick("unit", f.nv)), pick("sign", 2))}); else random_clauses(g, 1, 1 + pick("alen", nadd ? nadd : 1), 0, r); f.cl.push_back(g.cl[0]); enter(s, g.cl[0]); nsx_reach("added"); break; }
    }
  }
  judge(s, f, held, solve(s)); forget_assumption(s); held.clear(); judge(s, f, held, solve(s));
  delete_solver(s);
}
