// Answers of solve() on every clause set of a family (harness/common.h).
//  check  1: models   2: unsatisfiable answers   4: definite answer, no leak
#include "harness/common.h"
// options that change how the search is organised but not what is true (parameter perf)
static void perf_options(tokens_t& t) {
  switch (pick("perf", 7)) {
    case 0: t.push_back("--restarts"); t.push_back("on"); break;
    case 1: t.push_back("-del"); t.push_back("on"); t.push_back("--clause-elimination-multiplier"); t.push_back("0.1"); break;
    case 2: t.push_back("-del"); t.push_back("on"); t.push_back("--clause-activity-threshold-decay"); t.push_back("0.0"); t.push_back("--restarts"); break;
    case 3: t.push_back("--var-activity-decay"); t.push_back("0.5"); t.push_back("--clause-activity-multiplier"); t.push_back("2.0"); break;
    case 4: t.push_back("-iuv"); break;
    case 5: t.push_back("--record-dependencies"); break;
    default: t.push_back("--restarts"); t.push_back("off"); t.push_back("-del"); t.push_back("off"); break;
  }
}
static void body(const options& o0, const Formula& f) {
  unsigned check = nsx_param("check", 7), slack = nsx_param("slack", 0);
  options o = o0;
  NapSAT* s = create_solver(slack == 1 ? 0 : f.nv, slack == 1 ? 0 : f.cl.size(), o);
  for (auto& c : f.cl) add(s, c);
  status st = solve(s);
  nsx_observe("status", (unsigned)st);
  if (check & 4) { nsx_assert(st == status::SAT || st == status::UNSAT, "solving gives a definite answer"); nsx_assert(solve(s) == st && get_status(s) == st, "the answer is stable"); }
  if (st == status::SAT) {
    if (check & 1) {
      nsx_assert(is_model(s, f), "the reported model satisfies every clause");
      const std::vector<Tlit>& tr = get_partial_assignment(s);
      uint64_t seen = 0, bad = 0; for (Tlit l : tr) { uint64_t b = 1ull << (l.var().value - 1); bad |= seen & b; seen |= b; bad |= value_of(s, l) != Tval::TRUE; }
      nsx_assert(!bad, "the reported assignment lists every variable once and agrees with the variable values");
      for (unsigned v = 1; v <= f.nv && v < variables_count(s); v++) nsx_assert((get_variable_value(s, Tvar(v)) != Tval::UNDEF) == (seen >> (v - 1) & 1), "assigned variables are listed in the assignment");
    }
    nsx_reach("sat");
  } else {
    if (check & 2) nsx_assert(refuted(f), "an unsatisfiable answer is given only for clause sets without model");
    nsx_reach("unsat");
  }
  delete_solver(s);
}
extern "C" void nsx_main() {
  tokens_t t = mode_tokens(choose_mode());
  if (nsx_param("perf", 0)) perf_options(t);
  options o(t);
  Formula f = make_formula();
  body(o, f);
  // once more: a second solver of the same process starts from the same state and leaves no memory behind
  if (nsx_param("leak", 0)) { uint64_t live0 = nsx_leaks(); body(o, f); nsx_assert(nsx_leaks() == live0, "all memory is released with the solver"); }
}
