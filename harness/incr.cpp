// Clauses added after solving: every answer is right for the clauses added so far.
//  part 0: rounds of solve and addition of nadd clauses (random lists or symbolic clauses)
//  part 1: enumeration of the models with blocking clauses, as the program does for --all-models
#include "harness/common.h"
static status checked_solve(NapSAT* s, const Formula& f) {
  status st = solve(s); nsx_observe("status", (unsigned)st);
  nsx_assert(st == status::SAT || st == status::UNSAT, "solving gives a definite answer");
  if (st == status::SAT) nsx_assert(is_model(s, f), "a model satisfies the clauses added before and after earlier answers");
  else nsx_assert(refuted(f), "an unsatisfiable answer is given only when the clauses added so far have no model");
  return st;
}
extern "C" void nsx_main() {
  tokens_t t = mode_tokens(choose_mode()); options o(t);
  Formula f = make_formula();
  NapSAT* s = create_solver(0, 0, o);
  for (auto& c : f.cl) add(s, c);
  unsigned rounds = nsx_param("rounds", 2), nadd = nsx_param("nadd", 2), alen = nsx_param("alen", 2), asym = nsx_param("asym", 0), more = nsx_param("more", 0), against = nsx_param("against", 0);
  Rng r(seed_of(f, 77));
  if (nsx_param("part", 0) == 0) {
    for (unsigned k = 0; k < rounds; k++) {
      status st = checked_solve(s, f);
      if (st == status::UNSAT) { nsx_reach("unsat"); break; }
      nsx_reach("sat again");
      f.nv += more;   // later clauses use new variables too
      Formula g(f.nv);
      if (asym) for (unsigned i = 0; i < nadd; i++) g.cl.push_back(sym_clause(f.nv, alen));
      else { Formula all(f.nv); random_clauses(all, nadd, alen, 0, r); for (auto& c : all.cl) if (coin("add")) g.cl.push_back(c); }
      if (against) for (auto& c : g.cl) for (Tlit& l : c) if (value_of(s, l) == Tval::TRUE) l = ~l;   // clauses that the current assignment makes false
      for (auto& c : g.cl) { f.cl.push_back(c); add(s, c); }
    }
    if (checked_solve(s, f) == status::SAT) nsx_reach("sat at the end"); else nsx_reach("unsat");
  } else {
    f.nv = 1; for (auto& c : f.cl) for (Tlit l : c) if (l.var().value > f.nv) f.nv = l.var().value;   // the variables the solver knows
    unsigned n = 0; uint64_t total = 0; Formula g = f;
    for (uint64_t a = 0; a < (1ull << f.nv); a++) total += g.holds(a);
    while (solve(s) == status::SAT) {
      nsx_assert(is_model(s, f), "every enumerated model satisfies all clauses and differs from the earlier ones");
      lits_t b; for (Tlit l : get_partial_assignment(s)) b.push_back(~l);
      synchronize(s);
      f.cl.push_back(b); add_clause(s, b.data(), b.size());
      nsx_assert(++n <= total, "no model is enumerated twice");
    }
    nsx_assert(get_status(s) == status::UNSAT && n == total, "all models are enumerated");
    nsx_observe("models", n); if (n) nsx_reach("models"); else nsx_reach("none");
  }
  delete_solver(s);
}
