// Priority queue of variables: every history of nops operations after n0 insertions, activities symbolic.
//  acts 0: any non-negative finite double   1: any finite double   2: a case split over a short list (needed with scaling)
//  acts 3: 1+k/16, k in 0..15 symbolic (every weak order of up to 16 activities)
#include "engine/nsx.h"
#include "src/utils/heap.hpp"
#include <bit>
using namespace napsat; using namespace napsat::utils;
static const unsigned MAXK = 16;
static double A[MAXK]; static bool in[MAXK]; static unsigned K, acts;
static double any_activity() {
  if (acts == 2) { static const double L[] = {0.0, 1.0, 3.0, 1e100, 0.5, 1e-5}; return L[nsx_concretize(nsx_sym("act", 0, nsx_param("nacts", 4) - 1))]; }
  if (acts == 3) return std::bit_cast<double>(0x3FF0000000000000ull | nsx_sym("act", 0, 15) << 48);
  uint64_t m = nsx_sym("act", 0, 0x7FEFFFFFFFFFFFFFull);
  if (acts == 1) m |= nsx_sym("sign", 0, 1) << 63;
  return std::bit_cast<double>(m);
}
static unsigned count() { unsigned n = 0; for (unsigned k = 0; k < K; k++) n += in[k]; return n; }
static unsigned maximal(unsigned k) { unsigned ok = 1; for (unsigned j = 0; j < K; j++) if (in[j]) ok &= (A[j] <= A[k]); return ok; }
static void state(heap& h) {
  unsigned n = count();
  nsx_assert(h.size() == n && h.empty() == (n == 0), "the size is the number of members");
  for (unsigned k = 0; k <= K; k++) nsx_assert(h.contains(Tvar(k)) == (k < K && in[k]), "exactly the inserted and not removed variables are contained");
  if (n) { Tvar t = h.top(); nsx_assert(t.value < K && in[t.value], "the top is a member"); nsx_assert(maximal(t.value), "the top has the highest activity"); }
}
static unsigned member(const char* name, bool want) {
  unsigned c[MAXK], n = 0; for (unsigned k = 0; k < K; k++) if (in[k] == want) c[n++] = k;
  return n ? c[nsx_concretize(nsx_sym(name, 0, n - 1))] : K;
}
extern "C" void nsx_main() {
  acts = nsx_param("acts", 0); K = nsx_param("keys", 5); unsigned n0 = nsx_param("n0", 4), nops = nsx_param("nops", 1), ops = nsx_param("ops", 127), desc = nsx_param("desc", 0);
  heap h;
  // mask: only the marked insertions are symbolic, the first is high and the others low, and every insertion stays below its parent
  unsigned mask = nsx_param("mask", 0);
  for (unsigned i = 0; i < n0; i++) { unsigned k = desc ? K - 1 - i : i; A[k] = !mask || (mask >> i & 1) ? any_activity() : i ? 1.0 : 3.0;
    if (mask && i) { unsigned up = (i - 1) / 2; nsx_assume(A[k] <= A[desc ? K - 1 - up : up]); }
 h.insert(Tvar(k), A[k]); in[k] = true; }
  unsigned which[8], m = 0; for (unsigned o = 0; o < 7; o++) if (ops >> o & 1) which[m++] = o;
  for (unsigned i = 0; i < nops; i++) {
    unsigned op = which[nsx_concretize(nsx_sym("op", 0, m - 1))]; nsx_observe("op", op);
    if (op == 0) { unsigned k = member("insert", false); if (k == K) continue; A[k] = any_activity(); h.insert(Tvar(k), A[k]); in[k] = true; }
    else if (op == 6) { double f = nsx_param("factor", 0) ? 1e-100 : 0.5; h.normalize(f); for (unsigned k = 0; k < K; k++) A[k] *= f; nsx_reach("scaled"); }
    else {
      if (!count()) continue;
      if (op == 1) { Tvar t = h.pop(); nsx_assert(t.value < K && in[t.value], "pop returns a member"); nsx_assert(maximal(t.value), "pop returns the highest activity"); in[t.value] = false; nsx_reach("pop"); }
      else {
        unsigned k = member("key", true);
        if (op == 2) { h.remove(Tvar(k)); in[k] = false; nsx_reach("remove"); }
        else if (op == 3) { double a = any_activity(); nsx_assume(a >= A[k]); h.increase_activity(Tvar(k), a); A[k] = a; nsx_reach("increase"); }
        else if (op == 4) { A[k] = any_activity(); h.update(Tvar(k), A[k]); nsx_reach("update"); }
        else { h.insert(Tvar(K + i), 0.0); h.remove(Tvar(K + i)); }   // a far key comes and goes
      }
    }
    if (i + 1 < nops) state(h);
  }
  state(h);
  while (count()) { Tvar t = h.pop(); nsx_assert(t.value < K && in[t.value], "every pop returns a remaining member"); nsx_assert(maximal(t.value), "members come out by descending activity"); in[t.value] = false; nsx_observe("out", t.value); }
  nsx_assert(h.empty() && h.size() == 0, "empty after every member was taken out");
  nsx_reach("drained");
}
