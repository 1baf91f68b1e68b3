// Restart schedule: after any number of calls of increment(), the calls that returned true are exactly those at the
// partial sums of 1 1 2, 1 1 2 4, 1 1 2 4 8, ... (each round ends with the next power of two); reset() starts over.
#include "engine/nsx.h"
#include "src/utils/luby-counter.hpp"
struct Rounds { uint64_t top = 2, cur = 0; uint64_t next() { if (cur == 0) { cur = 1; return 1; } uint64_t v = cur; if (cur == top) { cur = 0; top *= 2; } else cur *= 2; return v; } };
extern "C" void nsx_main() {
  uint64_t n = nsx_param("n", 400), nres = nsx_param("resets", 0);
  napsat::luby_counter c;
  // reset() after an arbitrary number of calls
  for (uint64_t r = 0; r < nres; r++) { uint64_t before = nsx_concretize(nsx_sym("before", 0, nsx_param("before", 40))); while (before--) c.increment(); c.reset(); nsx_reach("reset"); }
  Rounds R; uint64_t next = R.next(), i = 1, q = nsx_sym("call", 1, n), fired = 0, expect = 0;
  for (uint64_t k = 1; k <= n; k++) {
    uint64_t r = c.increment(), e = k == next;
    fired = (k == q) ? r : fired; expect = (k == q) ? e : expect;
    if (e) { next += R.next(); i++; }
  }
  nsx_observe("terms", i); if (i > 20) nsx_reach("four rounds");
  nsx_assert(fired == expect, "a restart is signalled exactly at the partial sums of the rounds 1 1 2 .. 2^k");
  nsx_reach("done");
}
