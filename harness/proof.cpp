// Resolution proofs.
//  part 0: solving (with later additions) under --proof: every UNSAT answer has a proof that the checker accepts and whose printed form
//          is checked line by line here   1: the checker on arbitrary chains (release build)   2: removal of root literals
#include "harness/common.h"
#include "src/proof/proof.hpp"
#include <string>
#include <cstring>
#include <map>
#include <algorithm>
using namespace napsat; using namespace napsat::proof;
typedef std::vector<unsigned> set_t;   // sorted literals
static set_t make_set(const lits_t& c) { set_t r; for (Tlit l : c) r.push_back(l.value); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static bool has(const set_t& s, unsigned l) { for (unsigned x : s) if (x == l) return true; return false; }
static set_t resolve(const set_t& a, const set_t& b, unsigned p) { set_t r; for (unsigned x : a) if (x != p) r.push_back(x); for (unsigned x : b) if (x != (p ^ 1)) r.push_back(x); std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return r; }
static bool contradictory(const set_t& s) { for (unsigned x : s) if (has(s, x ^ 1)) return true; return false; }

// independent check of the printed proof
static const char* check_text(const char* t, const Formula& f) {
  std::map<std::string, set_t> known; bool empty = false;
  while (*t) {
    std::string name, a, b; set_t c;
    while (*t && *t != ':') name += *t++;
    if (t[0] != ':' || t[1] != ' ' || t[2] != '(') return "a proof line has the form name: (literals) [origin]";
    t += 3;
    while (*t && *t != ')') {
      bool neg = *t == '~' || *t == '-'; if (neg) t++; unsigned v = 0; if (*t < '0' || *t > '9') return "literals are numbers";
      while (*t >= '0' && *t <= '9') v = v * 10 + (unsigned)(*t++ - '0');
      c.push_back(2 * v + !neg); if (*t == ' ') t++;
    }
    std::sort(c.begin(), c.end());
    if (!strncmp(t, ") [input]\n", 10)) {
      t += 10; bool found = false; for (auto& k : f.cl) found |= make_set(k) == c;
      if (!found) return "inputs of the proof are added clauses";
    } else if (!strncmp(t, ") [resolution ", 14)) {
      t += 14; while (*t && *t != ',') a += *t++;
      if (t[0] != ',' || t[1] != ' ') return "a resolution names two clauses";
      t += 2; while (*t && *t != ']') b += *t++;
      if (t[0] != ']' || t[1] != '\n') return "a line ends after its origin";
      t += 2; auto x = known.find(a), y = known.find(b); if (x == known.end() || y == known.end()) return "premises are printed before";
      bool ok = false; for (unsigned p : x->second) if (has(y->second, p ^ 1)) ok |= resolve(x->second, y->second, p) == c;
      if (!ok) return "each derived clause is the resolvent of its premises";
    } else return "each line is an input or a resolution";
    if (known.count(name)) return "names are used once";
    empty |= c.empty(); known[name] = c;
  }
  return empty ? nullptr : "the proof derives the empty clause";
}
static void solver_part() {
  tokens_t t = mode_tokens(choose_mode()); t.push_back("-bp"); t.push_back("-cp");
  if (nsx_param("perf", 0)) switch (pick("perf", 4)) { case 0: t.push_back("--restarts"); t.push_back("off"); break; case 1: t.push_back("-del"); t.push_back("on"); t.push_back("--clause-elimination-multiplier"); t.push_back("0.1"); break; case 2: t.push_back("-iuv"); break; default: break; }
  options o(t); Formula f = make_formula();
  NapSAT* s = create_solver(f.nv, f.cl.size(), o);
  for (auto& c : f.cl) add(s, c);
  unsigned rounds = nsx_param("rounds", 0), nadd = nsx_param("nadd", 3), alen = nsx_param("alen", 2); Rng r(seed_of(f, 5));
  status st = solve(s);
  for (unsigned k = 0; k < rounds && st == status::SAT; k++) {
    Formula g(f.nv); random_clauses(g, nadd, alen, 0, r);
    for (auto& c : g.cl) if (coin("add")) { f.cl.push_back(c); add(s, c); }
    st = solve(s); if (st == status::UNSAT) nsx_reach("refuted later");
  }
  nsx_observe("status", (unsigned)st);
  if (st == status::UNSAT) {
    nsx_assert(check_proof(s), "the proof of an unsatisfiable answer is accepted");
    if (nsx_param("text", 1)) {
      nsx_capture(1); print_proof(s); nsx_capture(0); const char* e = check_text(nsx_captured(), f);
      nsx_assert(!e, e ? e : "the printed proof is a refutation of the added clauses");
    }
    nsx_reach("unsat");
  } else nsx_reach("sat");
  delete_solver(s);
}
// arbitrary chains
static void checker_part() {
  unsigned nv = nsx_param("nv", 2), nin = nsx_param("nin", 2), nder = nsx_param("nder", 2), links = nsx_param("links", 3), len = nsx_param("len", 2);
  resolution_proof P; Formula f(nv); std::vector<set_t> cl; std::vector<bool> good; int empty = -1; bool emptygood = false;
  auto any_clause = [&](bool input) {
    lits_t c; unsigned k = pick("len", len + 1); while (k--) c.push_back(Tlit((unsigned)nsx_concretize(nsx_sym("lit", 2, 2 * nv + 1))));
    for (size_t i = 1; i < c.size(); i++) nsx_assume(c[i - 1].value <= c[i].value);
    if (input || nsx_param("taut", 0) == 0) nsx_assume(!contradictory(make_set(c)));
    return c; };
  auto note = [&](const lits_t& c, bool ok) { cl.push_back(make_set(c)); good.push_back(ok); if (c.empty()) { empty = (int)cl.size() - 1; emptygood = ok; } };
  for (unsigned i = 0; i < nin; i++) { lits_t c = any_clause(true); Tlit none; P.input_clause(Tclause(i), c.empty() ? &none : c.data(), c.size()); f.cl.push_back(c); note(c, true); }
  for (unsigned d = 0; d < nder; d++) {
    unsigned k = 1 + pick("links", links); bool ok = true; set_t cur;
    P.start_resolution_chain();
    for (unsigned i = 0; i < k; i++) {
      unsigned q = pick("clause", cl.size()), p = i ? (unsigned)nsx_concretize(nsx_sym("pivot", 2, 2 * nv + 1)) : 0;
      P.link_resolution(i ? Tlit(p) : LIT_UNDEF, Tclause(q));
      if (!i) cur = cl[q]; else { ok = ok && has(cur, p) && has(cl[q], p ^ 1); cur = resolve(cur, cl[q], p); }
      ok = ok && good[q];
    }
    lits_t c; bool exact = coin("exact");
    if (exact) { for (unsigned x : cur) c.push_back(Tlit(x)); nsx_assume(!contradictory(cur)); } else { c = any_clause(false); ok = ok && make_set(c) == cur; }
    if (nsx_param("valid", 0)) nsx_assume(ok);
    Tlit none; P.finalize_resolution(Tclause(nin + d), c.empty() ? &none : c.data(), c.size()); note(c, ok);
  }
  if (coin("deactivate")) P.deactivate_clause(Tclause(pick("dead", (unsigned)cl.size())));   // still known to the proof
  bool res = P.check_proof(); nsx_observe("accepted", res); nsx_assert(P.check_proof() == res, "checking again gives the same verdict");
  if (res) { nsx_assert(!f.holds(any_assignment(nv)), "only refutations of contradictory inputs are accepted"); nsx_reach("accepted"); } else nsx_reach("rejected");
  nsx_assert(res == (empty >= 0 && emptygood), "a proof is accepted exactly when every chain below the empty clause resolves to its clause");
}
// root literals: l1..ln implied in order at root level, then removed from a clause
static void root_part() {
  unsigned nv = nsx_param("nv", 3); resolution_proof P; std::vector<set_t> reasons; set_t root; unsigned id = 0;
  for (unsigned v = 1; v <= nv; v++) {
    if (!coin("assigned")) continue;
    unsigned l = 2 * v + pick("value", 2); lits_t c = {Tlit(l)};
    for (unsigned x : root) if (coin("depends")) c.push_back(Tlit(x ^ 1));
    P.input_clause(Tclause(id), c.data(), c.size()); P.root_assign(Tlit(l), Tclause(id)); id++; root.push_back(l);
  }
  lits_t c; set_t rest;
  for (unsigned v = 1; v <= nv; v++) { unsigned k = pick("occurs", 3); if (!k) continue; unsigned l = 2 * v + k - 1; nsx_assume(!has(root, l)); c.push_back(Tlit(l)); if (!has(root, l ^ 1)) rest.push_back(l); }
  unsigned target = id++; Tlit none; P.input_clause(Tclause(target), c.empty() ? &none : c.data(), c.size());
  P.remove_root_literals(Tclause(target));
  // refute what is left by units: the chain is accepted exactly when the clause is the expected one
  for (unsigned x : rest) { Tlit u(x ^ 1); P.input_clause(Tclause(id + x), &u, 1); }
  if (!rest.empty()) { P.start_resolution_chain(); P.link_resolution(LIT_UNDEF, Tclause(target)); for (unsigned x : rest) P.link_resolution(Tlit(x), Tclause(id + x)); P.finalize_resolution(Tclause(id + 2 * nv + 2), &none, 0); }
  nsx_assert(P.check_proof(), "removing root literals leaves exactly the other literals, with a valid derivation");
  nsx_capture(1); P.print_proof(); nsx_capture(0); nsx_assert(strlen(nsx_captured()) > 0, "the proof can be printed");
  nsx_reach(rest.empty() ? "all removed" : "some left"); if (rest.size() < c.size()) nsx_reach("removed");
}
extern "C" void nsx_main() { switch (nsx_param("part", 0)) { case 0: solver_part(); break; case 1: checker_part(); break; default: root_part(); } }
