// Balanced search tree with duplicate keys: every history of nops insertions/removals after n0 fixed insertions,
// keys and data symbolic, checked against the list of present pairs.
#include "engine/nsx.h"
#include "src/utils/partition.hpp"
struct Pair { uint64_t k, d, on; };
static Pair P[64]; static unsigned np;
static uint64_t has(uint64_t k, uint64_t d) { uint64_t r = 0; for (unsigned i = 0; i < np; i++) r |= (P[i].k == k) & (P[i].d == d) & P[i].on; return r; }
static void put(uint64_t k, uint64_t d, uint64_t on) { for (unsigned i = 0; i < np; i++) P[i].on &= !((P[i].k == k) & (P[i].d == d)); if (on) P[np++] = {k, d, 1}; }
static void* dp(uint64_t d) { return (void*)(uintptr_t)d; }
extern "C" void nsx_main() {
  unsigned n0 = nsx_param("n0", 0), nops = nsx_param("nops", 4), ks = nsx_param("keys", 0), ds = nsx_param("data", 1), rem = nsx_param("rem", 1), order = nsx_param("order", 0), remonly = nsx_param("remonly", 0);
  uint64_t kmax = ks ? ks - 1 : 0xFFFFFFFFull;
  utils::AVLTree t;
  // fixed shape first: the keys step, 2*step, ... inserted in one of several orders
  uint64_t step = kmax / (n0 + 1); if (!step) step = 1;
  if (n0 && order == 9) order = nsx_concretize(nsx_sym("order", 0, 3));
  for (unsigned i = 0; i < n0; i++) {
    uint64_t j = order == 0 ? i : order == 1 ? n0 - 1 - i : order == 2 ? (i * 5 + 2) % n0 : (i & 1 ? n0 - 1 - i / 2 : i / 2);
    uint64_t k = (j + 1) * step, d = 16; bool fresh = !has(k, d);
    nsx_assert(t.insert((unsigned)k, dp(d)) == fresh, "insertion succeeds exactly for a new pair"); if (fresh) put(k, d, 1);
  }
  for (unsigned i = 0; i < nops; i++) {
    bool del = remonly || (rem && nsx_concretize(nsx_sym("remove", 0, 1)));
    uint64_t k, d;
    // removal: one of the present pairs (case split) or an arbitrary pair
    unsigned which = del && np ? (unsigned)nsx_concretize(nsx_sym("which", 0, np)) : np;
    if (del && which < np) { k = P[which].k; d = P[which].d; } else { k = nsx_sym("key", 0, kmax); d = nsx_sym("data", 0, ds - 1) * 16 + 16; }
    uint64_t was = has(k, d); bool r;
    if (del) { r = t.remove((unsigned)k, dp(d)); nsx_assert((uint64_t)r == was, "removal succeeds exactly for a present pair"); put(k, d, 0); }
    else { r = t.insert((unsigned)k, dp(d)); nsx_assert((uint64_t)r != was, "insertion succeeds exactly for a new pair"); put(k, d, 1); }
    if (r) nsx_reach(del ? "removed" : "inserted"); else nsx_reach(del ? "nothing to remove" : "already present");
    nsx_assert(t.is_balanced() && t.is_bst(), "the tree stays ordered and balanced");
  }
  // best fit: the smallest key not below the query, one of its data; nothing when all keys are below
  uint64_t q = nsx_sym("query", 0, kmax); void* f = t.find_best_fit((unsigned)q); uint64_t fd = (uint64_t)(uintptr_t)f;
  uint64_t best = ~0ull; for (unsigned i = 0; i < np; i++) best = (P[i].on && P[i].k >= q && P[i].k < best) ? P[i].k : best;
  if (best == ~0ull) { nsx_assert(!f, "nothing fits when every key is smaller"); nsx_reach("no fit"); }
  else { nsx_assert(has(best, fd), "best fit is an entry with the smallest key that is large enough"); nsx_reach("fit"); }
  // content: an arbitrary pair is present exactly when the history says so
  if (nsx_param("probe", 1)) { uint64_t k = nsx_sym("probe_key", 0, kmax), d = nsx_sym("probe_data", 0, ds - 1) * 16 + 16; nsx_assert((uint64_t)t.insert((unsigned)k, dp(d)) == !has(k, d), "exactly the inserted and not removed pairs are present"); nsx_assert(t.is_balanced(), "the tree stays balanced"); }
}
