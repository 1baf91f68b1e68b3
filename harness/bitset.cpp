// Sparse bit sets: every history of nops operations on sets of `blocks` metadata blocks,
// indices symbolic over the whole capacity, checked against the history itself.
//   part 0: set/clear/resize history, then get, count, empty, iteration, equality
//   part 1: two histories, then the algebra and the relations
#include "engine/nsx.h"
#include "src/utils/bitset.hpp"
struct Ev { uint64_t idx; uint64_t val; };
struct Model {                       // the mathematical set, as the history of updates
  std::vector<Ev> h;
  uint64_t has(uint64_t q) const { uint64_t r = 0; for (auto& e : h) r = (e.idx == q) ? e.val : r; return r; }
  // number of members: updates not overwritten later
  uint64_t size() const { uint64_t n = 0; for (size_t i = 0; i < h.size(); i++) { uint64_t live = h[i].val; for (size_t j = i + 1; j < h.size(); j++) live &= (h[j].idx != h[i].idx); n += live; } return n; }
};
static uint64_t CAP, BLK;
// any index below the capacity, as block (case split), word and bit
static uint64_t any_index(const char* name) {
  uint64_t blk = nsx_concretize(nsx_sym(name, 0, BLK - 1));
  // the algebra walks the words one by one: there the word comes from a list (first, inner, last), otherwise it is symbolic
  static const uint64_t W[] = {0, 62, 1, 31, 33, 32, 61};
  uint64_t nw = nsx_param("words", 0);
  uint64_t w = nw ? W[nsx_concretize(nsx_sym("word", 0, nw - 1))] : nsx_sym("word", 0, 62), bit = nsx_sym("bit", 0, 63);
  return blk * 4032 + (w << 6 | bit);
}
static void apply(bitset& b, Model& m, unsigned n, bool allow_clear) {
  for (unsigned i = 0; i < n; i++) {
    uint64_t op = nsx_concretize(nsx_sym("op", 0, allow_clear ? 2 : 1));
    if (op == 2) { b.clear(); m.h.clear(); continue; }
    uint64_t x = any_index("index");
    b.set(x, op); m.h.push_back({x, op});
  }
}
static void check_same(const bitset& b, const Model& m, const char* tag) {
  uint64_t q = any_index("query");
  nsx_assert((uint64_t)b.get(q) == m.has(q), "membership after any history of insertions and removals");
  nsx_assert((uint64_t)b[q] == m.has(q), "indexing operator agrees with membership");
  uint64_t n = m.size();
  nsx_assert(b.count() == n, "count equals the number of members");
  nsx_assert((uint64_t)b.empty() == (uint64_t)(n == 0), "empty exactly when there is no member");
  // iteration: strictly ascending members, as many as there are
  uint64_t k = 0, prev = 0; bool first = true;
  for (auto it = b.cbegin(); it != b.cend(); ++it) {
    uint64_t x = *it;
    nsx_assert(first || x > prev, "iteration is strictly ascending");
    nsx_assert(m.has(x), "iteration yields members only");
    prev = x; first = false; k++;
    if (k > m.h.size()) { nsx_assert(0, "iteration yields more elements than the set has"); break; }
  }
  nsx_assert(k == n, "iteration yields every member");
  nsx_observe(tag, k);
  if (k > 1) nsx_reach("several members");
  if (k == 0) nsx_reach("no member");
}
extern "C" void nsx_main() {
  unsigned part = nsx_param("part", 0), n = nsx_param("nops", 3);
  BLK = nsx_param("blocks", 2); CAP = BLK * 4032;
  if (part == 0) {
    bitset b; Model m; unsigned grow = nsx_param("grow", 0);
    if (!grow) b = bitset(CAP); else { CAP = 4032; BLK = 1; }
    apply(b, m, n, true);
    if (grow) { BLK = nsx_param("blocks", 2); CAP = BLK * 4032; uint64_t sz = nsx_sym("newsize", 1, CAP); uint64_t want = sz <= 4032 ? 4032 : (sz + 4031) / 4032 * 4032; b.resize(sz); 
      nsx_assert(b.capacity() == want, "resize gives the smallest sufficient capacity"); CAP = nsx_concretize(want); BLK = CAP / 4032; apply(b, m, nsx_param("after", 1), false); }
    nsx_assert(b.capacity() == CAP, "capacity does not change with the contents");
    check_same(b, m, "members");
    // equality depends on the members only, not on the history that produced them
    bitset c(CAP); Model mc; unsigned extra = nsx_param("eqops", 2); apply(c, mc, extra, false);
    uint64_t same = 1; for (auto& e : m.h) same &= m.has(e.idx) == mc.has(e.idx); for (auto& e : mc.h) same &= m.has(e.idx) == mc.has(e.idx);
    nsx_assert((uint64_t)(b == c) == same, "equal exactly when they have the same members");
    nsx_assert((uint64_t)(b != c) == !same, "unequal exactly when the members differ");
    nsx_observe("same", same); if (same) nsx_reach("equal"); else nsx_reach("different");
  } else {
    bitset a(CAP), b(CAP); Model ma, mb; unsigned n2 = nsx_param("nops2", n);
    apply(a, ma, n, false); apply(b, mb, n2, false);
    uint64_t q = any_index("query"), x = ma.has(q), y = mb.has(q);
    auto one = [&](const bitset& r, uint64_t (*f)(uint64_t, uint64_t), const char* w) {
      nsx_assert((uint64_t)r.get(q) == f(x, y), w);
      uint64_t cnt = 0;         // size of the result: over the distinct indices of both histories
      std::vector<uint64_t> all; for (auto& e : ma.h) all.push_back(e.idx); for (auto& e : mb.h) all.push_back(e.idx);
      for (size_t i = 0; i < all.size(); i++) { uint64_t fresh = 1; for (size_t j = 0; j < i; j++) fresh &= all[j] != all[i]; cnt += fresh & f(ma.has(all[i]), mb.has(all[i])); }
      nsx_assert(r.count() == cnt, w);
      nsx_assert((uint64_t)r.empty() == (uint64_t)(cnt == 0), w);
      return cnt;
    };
    auto fand = [](uint64_t p, uint64_t r) -> uint64_t { return p & r; }; auto forr = [](uint64_t p, uint64_t r) -> uint64_t { return p | r; };
    auto fxor = [](uint64_t p, uint64_t r) -> uint64_t { return p ^ r; }; auto fsub = [](uint64_t p, uint64_t r) -> uint64_t { return p & !r; };
    auto fsub2 = [](uint64_t p, uint64_t r) -> uint64_t { return r & !p; };
    unsigned op = nsx_concretize(nsx_sym("operator", 0, 3)); uint64_t nd = 0;
    bitset c = a;
    if (op == 0) { one(a & b, fand, "intersection"); c &= b; one(c, fand, "intersection in place"); }
    if (op == 1) { one(a | b, forr, "union"); c |= b; one(c, forr, "union in place"); }
    if (op == 2) { one(a ^ b, fxor, "symmetric difference"); c ^= b; one(c, fxor, "symmetric difference in place"); }
    if (op == 3) { one(a - b, fsub, "difference"); c -= b; one(c, fsub, "difference in place");
      auto cnt = [&](uint64_t (*f)(uint64_t, uint64_t)) { uint64_t any = 0; for (auto& e : ma.h) any |= f(ma.has(e.idx), mb.has(e.idx)); for (auto& e : mb.h) any |= f(ma.has(e.idx), mb.has(e.idx)); return any; };
      uint64_t ab = cnt(fsub), ba = cnt(fsub2), both = cnt(fand);
      nsx_assert((uint64_t)a.has_intersection(b) == both, "has_intersection exactly when a common member exists");
      nsx_assert((uint64_t)a.has_difference(b) == ab, "has_difference exactly when a member is missing from the other");
      nsx_assert((uint64_t)(a <= b) == !ab, "subset"); nsx_assert((uint64_t)(a >= b) == !ba, "superset");
      nsx_assert((uint64_t)(a < b) == (!ab & ba), "proper subset"); nsx_assert((uint64_t)(a > b) == (!ba & ab), "proper superset");
      nsx_assert((uint64_t)(a == b) == (!ab & !ba), "equality"); nd = ab | ba << 1 | both << 2; if (nd == 7) nsx_reach("overlapping"); if (nd == 0) nsx_reach("both empty"); if (nd == 2) nsx_reach("proper"); if (nd == 4) nsx_reach("equal nonempty"); }
    nsx_observe("relation", nd);
    // the other operand is left alone, and the result owns its storage
    nsx_assert((uint64_t)b.get(q) == y, "right operand unchanged"); nsx_assert((uint64_t)a.get(q) == x, "left operand unchanged");
  }
}
