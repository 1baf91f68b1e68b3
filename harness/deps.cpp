// Premise tracking: every history of nops operations over `ids` clauses, checked against sets computed from the history.
#include "engine/nsx.h"
#include "src/proof/dependency_tracker.hpp"
using namespace napsat; using namespace napsat::proof;
extern "C" void nsx_main() {
  unsigned ids = nsx_param("ids", 4), nops = nsx_param("nops", 5), n0 = nsx_param("n0", 2), stride = nsx_param("stride", 1), n1 = nsx_param("n1", 0), fused = nsx_param("fused", 0), mask = nsx_param("ops", 127);
  unsigned ops[7], nsel = 0; for (unsigned i = 0; i < 7; i++) if (mask >> i & 1) ops[nsel++] = i;
  dependency_tracker t; unsigned prem[8] = {}, cur = 0; bool used[8] = {}, input[8] = {}, ever_in[8] = {}; 
  auto id = [&](unsigned i) { return Tclause(i * stride); };
  auto one_of = [&](const char* nm, auto pred) { unsigned c[8], n = 0; for (unsigned i = 0; i < ids; i++) if (pred(i)) c[n++] = i; return n ? c[nsx_concretize(nsx_sym(nm, 0, n - 1))] : ids; };
  auto any = [&](unsigned i) { return used[i]; };
  auto fresh = [&](unsigned i) { return !used[i] && !ever_in[i]; };
  for (unsigned i = 0; i < n0; i++) { t.add_input(id(i)); used[i] = input[i] = ever_in[i] = true; prem[i] = 1u << i; }
  auto derive = [&](unsigned i, unsigned from) { for (unsigned j = 0; j < ids; j++) if (from >> j & 1 && used[j] && j != i) { t.link_dependencies(id(i), id(j)); prem[i] |= prem[j]; } };
  for (unsigned i = n0; i < n0 + n1; i++) { t.add_learned(id(i)); used[i] = true; derive(i, nsx_concretize(nsx_sym("from", 1, (1u << i) - 1))); }
  bool tracking = false;
  for (unsigned k = 0; k < nops; k++) {
    unsigned op = ops[nsx_concretize(nsx_sym("op", 0, nsel - 1))];
    if (op == 0) { unsigned i = one_of("input", fresh); if (i == ids) continue; t.add_input(id(i)); used[i] = input[i] = ever_in[i] = true; prem[i] = 1u << i; }
    else if (op == 1) { unsigned i = one_of("learned", fresh); if (i == ids) continue; t.add_learned(id(i)); used[i] = true; input[i] = false; prem[i] = 0; if (fused) derive(i, nsx_concretize(nsx_sym("from", 0, (1u << ids) - 1))); nsx_reach("learned"); }
    else if (op == 2) { unsigned i = one_of("link", any); if (i == ids) continue; unsigned j = one_of("to", any); t.link_dependencies(id(i), id(j)); prem[i] |= prem[j]; nsx_reach("linked"); }
    else if (op == 3) { if (!tracking) { t.start_tracking(); tracking = true; } unsigned j = one_of("track", any); if (j == ids) continue; t.track_dependency(id(j)); cur |= prem[j]; nsx_reach("tracked"); }
    else if (op == 4) { t.cancel_tracking(); cur = 0; tracking = false; nsx_reach("cancelled"); }
    else if (op == 5) { unsigned i = one_of("finalize", [&](unsigned x) { return used[x] && !input[x]; }); if (i == ids) continue; t.finalize_tracking(id(i));
      // the premises of the tracked input clauses at the time of the commit
      for (unsigned j = 0; j < ids; j++) if (cur >> j & 1) prem[i] |= prem[j];
      cur = 0; tracking = false; nsx_reach("committed"); }
    else { unsigned i = one_of("delete", [&](unsigned x) { return used[x] && !input[x]; }); if (i == ids) continue; t.delete_clause(id(i)); used[i] = false; prem[i] = 0; nsx_reach("deleted"); }
  }
  for (unsigned i = 0; i < ids; i++) if (used[i]) {
    unsigned m = 0; for (Tclause c : t.get_dependencies(id(i))) { nsx_assert(c.value % stride == 0 && c.value / stride < ids, "premises are known clauses"); m |= 1u << (c.value / stride); }
    nsx_assert(m == prem[i], "the premises of a clause are exactly the input clauses it was derived from");
    nsx_observe("premises", m);
  }
}
