// Polarity of the decisions of the solver: suggested, or that of the last synchronisation; queries about decisions.
#include "harness/common.h"
extern "C" void nsx_main() {
  tokens_t t = mode_tokens(choose_mode()); if (nsx_param("iuv", 0)) t.push_back("-iuv"); options o(t); Formula f = make_formula(); NapSAT* s = create_solver(f.nv, f.cl.size(), o);
  std::vector<int> hint(f.nv + 2, -1), last(f.nv + 2, 0); std::vector<bool> used(f.nv + 2), decided(f.nv + 2);   // one more variable may exist than announced
  for (auto& c : f.cl) { add(s, c); for (Tlit l : c) used[l.var().value] = true; }
  auto holds = [&](unsigned v) { return v < variables_count(s) && get_variable_value(s, Tvar(v)) != Tval::UNDEF && is_decided(s, Tlit(Tvar(v), get_variable_value(s, Tvar(v)))); };
  auto settle = [&] { bool more = propagate(s); for (unsigned v = 1; v < decided.size(); v++) if (decided[v] && !holds(v)) { decided[v] = false; for (int& x : last) x = -1; nsx_reach("conflict"); }   // conflicts synchronise, too
    for (unsigned v = 1; v < decided.size(); v++) nsx_assert(holds(v) == decided[v], "exactly the decided literals that were not undone are decisions"); return more; };
  unsigned n = nsx_param("nops", 4), suggest = nsx_param("suggest", 1), assume = nsx_param("assume", 0), script = nsx_param("script", 0); bool more = settle();
  // assuming a false literal undoes decisions without any conflict
  auto assuming = [&] { unsigned v = 1 + pick("variable", f.nv), p = pick("value", 2); Tlit l(Tvar(v), p); Tval before = value_of(s, l); if (!add_assumption(s, l)) { nsx_reach("rejected"); return; }
    nsx_assert(value_of(s, l) == Tval::TRUE, "an accepted assumption is true"); for (unsigned w = 1; w < decided.size(); w++) decided[w] = w == v ? holds(w) : decided[w] && holds(w); nsx_reach(before == Tval::FALSE ? "assumed false" : "assumed"); more = settle(); };
  auto next = [&] { if (!nsx_param("script", 0)) return pick("op", 3 + suggest + assume); unsigned k = script % 10 - 1; script /= 10; if (!script) n = 0; return k; };   // decimal digits, last first: 1 + operation
  while (n-- && more) switch (next()) {
    case 0: {
      lits_t before = get_partial_assignment(s); decide(s); const lits_t& now = get_partial_assignment(s);
      if (get_status(s) == status::SAT) { nsx_assert(now.size() == before.size(), "no decision is taken when every variable has a value"); more = false; nsx_reach("sat"); break; }
      nsx_assert(now.size() == before.size() + 1, "one literal is decided"); Tlit l = now.back(); unsigned v = l.var().value;
      bool open = true; for (Tlit k : before) open = open && k.var().value != v; nsx_assert(open && v >= 1 && (!nsx_param("iuv", 0) || (v <= f.nv && used[v])), "the decided variable was open and counts");
      nsx_assert((int)l.pol() == (hint[v] >= 0 ? hint[v] : last[v] >= 0 ? last[v] : (int)l.pol()), "a decision follows the suggestion, or else the last synchronisation");
      nsx_reach(hint[v] >= 0 ? "suggested" : last[v] > 0 ? "synchronised" : "default"); hint[v] = -1; decided[v] = true; nsx_assert(holds(v), "the literal is a decision"); more = settle(); break; }
    case 1: { unsigned v = 1 + pick("variable", f.nv), p = pick("value", 2); if (get_variable_value(s, Tvar(v)) != Tval::UNDEF) break; decide(s, Tlit(Tvar(v), p)); nsx_assert(value_of(s, Tlit(Tvar(v), p)) == Tval::TRUE, "the decided literal is true"); hint[v] = -1; decided[v] = true; more = settle(); nsx_reach("own decision"); break; }
    case 2: { lits_t before = get_partial_assignment(s); synchronize(s); nsx_assert(get_partial_assignment(s) == before, "synchronising changes no value"); for (Tlit l : before) last[l.var().value] = l.pol(); nsx_reach("synchronise"); break; }
    default: if (!suggest) { assuming(); break; } unsigned v = 1 + pick("variable", f.nv); bool p = pick("value", 2); suggest_polarity(s, Tlit(Tvar(v), !p), p); hint[v] = p; nsx_reach("suggest"); break;
  }
  if (assume) forget_assumption(s);
  status st = solve(s); nsx_observe("status", (unsigned)st); nsx_assert(st == status::SAT ? is_model(s, f) : st == status::UNSAT && refuted(f), "solving answers right"); nsx_reach(st == status::SAT ? "answer sat" : "answer unsat");
  delete_solver(s);
}
