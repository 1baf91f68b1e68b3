// The solver driven step by step through its public interface.
//  part 0: user-driven search: any sequence of propagate, own decisions and solver decisions, additions in between, then solve
//  part 1: solving with conflict limits   3: the solver's own search, watched at every step, with one own decision   part 2: the ways of entering clauses
#include "harness/common.h"
static bool root(const NapSAT* s, Tlit l) { return value_of(s, l) != Tval::UNDEF && is_root_level(s, l.var()); }
static unsigned entails(const Formula& f, const lits_t& with, Tlit l, uint64_t a) { unsigned h = f.holds(a); for (Tlit k : with) h &= Formula::lit_true(a, k); return !h | Formula::lit_true(a, l); }
// after propagation: no clause is false or has a single open literal, and everything assigned follows from the decisions
static void check_state(NapSAT* s, const Formula& f, bool fixpoint) {
  const std::vector<Tlit>& tr = get_partial_assignment(s); uint64_t a = any_assignment(f.nv); lits_t dec, rootl, all; uint64_t seen = 0, bad = 0;
  for (Tlit l : tr) {
    if (l.var().value > f.nv) continue;
    uint64_t b = 1ull << (l.var().value - 1); bad |= seen & b; seen |= b; bad |= value_of(s, l) != Tval::TRUE;
    all.push_back(l); if (is_decided(s, l)) dec.push_back(l); if (root(s, l)) rootl.push_back(l);
  }
  nsx_assert(!bad, "the assignment lists every assigned variable once and agrees with the variable values");
  unsigned ok = 1, okr = 1;
  for (Tlit l : all) ok &= entails(f, dec, l, a);
  for (Tlit l : rootl) okr &= entails(f, {}, l, a);
  nsx_assert(ok, "every assigned literal follows from the clauses and the decisions");
  nsx_assert(okr, "every root literal follows from the clauses");
  if (!rootl.empty()) nsx_reach("root"); if (all.size() > dec.size()) nsx_reach("implied");
  if (!fixpoint) return;
  for (auto& c : f.cl) {
    unsigned sat = 0; uint64_t open = 0;
    for (Tlit l : c) { Tval v = value_of(s, l); sat |= v == Tval::TRUE; if (v == Tval::UNDEF) open |= 1ull << l.var().value; }
    nsx_assert(sat || (open & (open - 1)), "after propagation every clause is true or has two open variables");
  }
}
static void answer(NapSAT* s, const Formula& f, status st) {
  nsx_observe("status", (unsigned)st);
  nsx_assert(st == status::SAT || st == status::UNSAT, "solving gives a definite answer");
  if (st == status::SAT) { nsx_assert(is_model(s, f), "the model satisfies every clause"); nsx_reach("sat"); }
  else { nsx_assert(refuted(f), "an unsatisfiable answer is given only for clause sets without model"); nsx_reach("unsat"); }
}
static void drive() {
  tokens_t t = mode_tokens(choose_mode()); options o(t); Formula f = make_formula();
  NapSAT* s = create_solver(f.nv, f.cl.size(), o); for (auto& c : f.cl) add(s, c);
  unsigned n = nsx_param("nops", 3), nadd = nsx_param("nadd", 0); Rng r(seed_of(f, 3));
  while (n-- && get_status(s) == status::UNKNOWN) {
    bool more = propagate(s); nsx_assert(more == (get_status(s) == status::UNKNOWN), "propagate tells whether a decision is needed"); nsx_reach("propagated");
    if (get_status(s) == status::UNSAT) break;
    check_state(s, f, true);
    if (!more) break;
    unsigned k = pick("decide", nadd ? 3 : 2);
    if (k == 0) {
      unsigned free = 0; for (unsigned v = 1; v <= f.nv; v++) free += value_of(s, Tlit(Tvar(v), 1)) == Tval::UNDEF; if (!free) continue;
      unsigned w = pick("variable", free), v = 1; for (;; v++) if (value_of(s, Tlit(Tvar(v), 1)) == Tval::UNDEF && !w--) break;
      Tlit l(Tvar(v), pick("value", 2)); size_t m = get_partial_assignment(s).size();
      nsx_assert(decide(s, l), "a decision on an open literal is accepted");
      nsx_assert(value_of(s, l) == Tval::TRUE && is_decided(s, l) && get_partial_assignment(s).size() == m + 1, "a decision makes its literal true and nothing else"); nsx_reach("decided");
    } else if (k == 1) {
      size_t m = get_partial_assignment(s).size(); bool d = decide(s);
      nsx_assert(d == (get_status(s) == status::UNKNOWN) && get_partial_assignment(s).size() == m + d, "the solver decides one open variable, or none is left"); nsx_reach("automatic");
    } else { Formula g(f.nv); random_clauses(g, 1, 1 + pick("alen", nadd), 0, r); f.cl.push_back(g.cl[0]); add(s, g.cl[0]); nsx_reach("added"); if (get_status(s) == status::SAT) break; }
  }
  status st = solve(s); answer(s, f, st); if (st == status::SAT) check_state(s, f, true);
  delete_solver(s);
}
// the solver's own search, watched at every propagation fixpoint, with an arbitrary decision of the user at an arbitrary step
static void play() {
  tokens_t t = mode_tokens(choose_mode()); options o(t); Formula f = make_formula();
  NapSAT* s = create_solver(f.nv, f.cl.size(), o); for (auto& c : f.cl) add(s, c);
  unsigned at = pick("step", nsx_param("steps_own", 3)), n = 0;
  while (propagate(s)) {
    check_state(s, f, true); nsx_reach("propagated");
    if (n++ == at) {
      unsigned free = 0; for (unsigned v = 1; v <= f.nv; v++) free += value_of(s, Tlit(Tvar(v), 1)) == Tval::UNDEF; if (!free) break;
      unsigned w = pick("variable", free), v = 1; for (;; v++) if (value_of(s, Tlit(Tvar(v), 1)) == Tval::UNDEF && !w--) break;
      decide(s, Tlit(Tvar(v), pick("value", 2))); nsx_reach("decided");
    } else if (!decide(s)) break;
  }
  status st = get_status(s); answer(s, f, st); if (st == status::SAT) check_state(s, f, true);
  delete_solver(s);
}
static void limited() {
  tokens_t t = mode_tokens(choose_mode()); if (nsx_param("opt", 0)) { t.push_back("--conflict-limit"); t.push_back("3"); } options o(t); Formula f = make_formula();
  NapSAT* s = create_solver(f.nv, f.cl.size(), o); for (auto& c : f.cl) add(s, c);
  unsigned rounds = nsx_param("rounds", 3), nadd = nsx_param("nadd", 0); Rng r(seed_of(f, 3));
  for (unsigned k = 0; k < rounds; k++) {
    unsigned lim = pick("limit", nsx_param("limits", 3)); status st = nsx_param("opt", 0) ? solve(s) : solve_limited(s, lim); nsx_assert(get_status(s) == st, "the answer is the status");
    if (st == status::UNKNOWN) { nsx_reach("stopped"); check_state(s, f, false); if (nadd) { Formula g(f.nv); random_clauses(g, 1, nadd, 0, r); if (coin("add")) { f.cl.push_back(g.cl[0]); add(s, g.cl[0]); nsx_reach("added"); } } }
    else { answer(s, f, st); nsx_reach("within the limit"); break; }
  }
  if (!nsx_param("opt", 0)) { status st = solve(s); answer(s, f, st); }
  else { unsigned k = 0; while (solve(s) == status::UNKNOWN) nsx_assert(++k < nsx_param("maxcalls", 300), "calls with a limit get to an answer"); answer(s, f, get_status(s)); }
  delete_solver(s);
}
static void entry() {
  tokens_t t = mode_tokens(choose_mode()); options o(t); Formula f = make_formula(); unsigned start = nsx_param("start", 0);
  NapSAT* s = create_solver(start ? f.nv : 0, 0, o); unsigned made = 0;
  if (nsx_param("create", 0)) { unsigned last = variables_count(s); for (unsigned i = 0; i < f.nv; i++) { Tvar v = new_variable(s); nsx_assert(v.value >= last && v.value < variables_count(s), "a new variable is a fresh one"); last = v.value + 1; made++; } nsx_reach("created"); }
  for (auto& c : f.cl) {
    bool twice = false; for (size_t i = 0; i < c.size(); i++) for (size_t j = 0; j < i; j++) twice |= c[i].var().value == c[j].var().value;
    unsigned how = twice ? 0 : pick("how", 2);   // push_literal asks for different variables Tclause h;
    if (how) { start_new_clause(s); for (Tlit l : c) push_literal(s, l); finalize_clause(s); nsx_reach("pushed"); }
    else { lits_t copy = c; Tlit none; add_clause(s, copy.empty() ? &none : copy.data(), copy.size()); nsx_assert(copy == c, "the literals of the caller are left alone"); for (Tlit& l : copy) l = Tlit(2u); nsx_reach("added"); }
  }
  uint64_t a = any_assignment(f.nv);   // fix an assignment by units: accepted exactly when it is a model
  for (unsigned v = 1; v <= f.nv; v++) add(s, {Tlit(2 * v + (unsigned)nsx_concretize(a >> (v - 1) & 1))});
  status st = solve(s); nsx_observe("status", (unsigned)st);
  nsx_assert((st == status::SAT) == (bool)f.holds(a), "the entered clauses are the given ones"); nsx_reach(st == status::SAT ? "accepted" : "refuted");
  delete_solver(s);
}
extern "C" void nsx_main() { switch (nsx_param("part", 0)) { case 0: drive(); break; case 1: limited(); break; case 3: play(); break; default: entry(); } }
