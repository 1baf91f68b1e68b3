// parse_dimacs against an independent reading of the file: the clauses it adds are exactly those of the file.
//  part 0: files made of nops pieces out of a menu    part 1: every text of n characters of an alphabet
//  part 2: a clause of n literals (any order, repetitions) spread over lines     part 3: two files, solved in between
#include "harness/common.h"
#include <cstdlib>
struct Ref { bool ok = true; std::vector<std::vector<int>> cl; };
// the reference reading: zero-terminated clauses of whitespace separated integers, comment lines, % ends the file
static Ref reference(const std::string& t) {
  Ref r; std::vector<int> c; size_t i = 0, n = t.size();
  auto blank = [](char x) { return x == ' ' || (x >= 9 && x <= 13); };
  while (i < n) {
    size_t e = i; while (e < n && t[e] != '\n') e++;
    size_t a = i; i = e + 1;
    while (a < e && blank(t[a])) a++;
    if (a == e || t[a] == 'c') continue;
    if (t[a] == '%') break;
    if (e - a >= 5 && t[a] == 'p' && t[a + 1] == ' ' && t[a + 2] == 'c' && t[a + 3] == 'n' && t[a + 4] == 'f') continue;
    while (a < e) {
      size_t b = a; while (b < e && !blank(t[b])) b++;
      size_t k = a; bool neg = false; if (t[k] == '-' || t[k] == '+') neg = t[k++] == '-';
      long v = 0; bool num = k < b; for (; k < b; k++) { if (t[k] < '0' || t[k] > '9' || v > 1000000000000L) { num = false; break; } v = v * 10 + (t[k] - '0'); }
      if (!num || v > 2147483647L) { r.ok = false; return r; }
      if (v) c.push_back(neg ? -(int)v : (int)v); else { r.cl.push_back(c); c.clear(); }
      a = b; while (a < e && blank(t[a])) a++;
    }
  }
  if (!c.empty()) r.cl.push_back(c);
  return r;
}
static Formula formula(const Ref& r, unsigned nv) { Formula f(nv); for (auto& c : r.cl) { lits_t l; for (int x : c) l.push_back(Tlit(Tvar((unsigned)(x < 0 ? -x : x)), x > 0)); f.cl.push_back(l); } return f; }
static bool parse(NapSAT* s, const std::string& t) { nsx_set_file(t.c_str()); return parse_dimacs(s, nsx_engine() ? "f.cnf" : getenv("NSX_FILE")); }
static void refute_models(NapSAT* s, const Formula& f) {   // assignment fixed first, then added as unit clauses
  uint64_t a = any_assignment(f.nv);
  for (unsigned v = 1; v <= f.nv; v++) add(s, {Tlit(2 * v + (unsigned)nsx_concretize(a >> (v - 1) & 1))});
  status st = solve(s); nsx_observe("status", (unsigned)st);
  nsx_assert((st == status::SAT) == (bool)f.holds(a), "after parsing, the solver accepts exactly the assignments that satisfy every clause of the file");
  nsx_reach(st == status::SAT ? "accepted" : "refuted");
}
static unsigned size_of(const Ref& r, unsigned nv) { for (auto& c : r.cl) for (int x : c) { unsigned v = x < 0 ? -x : x; if (v > nv) nv = v; } return nv; }
static void compare(NapSAT* s, const std::string& t) {
  Ref r = reference(t);
  bool ok = parse(s, t);
  nsx_observe("parsed", ok);
  if (!r.ok) { nsx_assert(!ok || get_status(s) == status::UNSAT, "a clause with a token that is not a number is rejected"); nsx_reach("malformed"); return; }
  nsx_assert(ok, "a well-formed file is accepted");
  unsigned k = size_of(r, nsx_param("nv", 2));
  if (k <= 3) refute_models(s, formula(r, k));   // more variables: only accepted or rejected
}

static std::string piece(unsigned nv) {
  static const char* menu[] = {" 0\n", " 0 ", "\n", " ", "  ", "\t", "c 1 0\n", "\nc 1 2 0\n", "%", "p cnf 2 2\n", "\ncw 1 2.5\n", "\ncw -1 2\n", "\ncw 3\n", " 1x ", " + ", " -0 ", " 1 2\r\n"};
  unsigned k = pick("piece", 2 * nv + sizeof menu / sizeof *menu);
  if (k >= 2 * nv) return menu[k - 2 * nv];
  return std::string(" ") + (k & 1 ? "-" : "") + std::to_string(1 + k / 2) + " ";
}
extern "C" void nsx_main() {
  unsigned part = nsx_param("part", 0), n = nsx_param("nops", 3), nv = nsx_param("nv", 2); std::string t;
  tokens_t k0 = mode_tokens(nsx_param("mode", 0)); options o(k0);
  NapSAT* s = create_solver(0, 0, o);
  if (part == 0) { while (n--) t += piece(nv); compare(s, t); }
  else if (part == 1) {
    static const char alpha[] = "\n 0123-c%p\tx+"; unsigned k = nsx_param("alphabet", 13);
    while (n--) t.push_back(alpha[pick("char", k)]);
    compare(s, t);
  } else if (part == 2) {
    unsigned rows = nsx_param("rows", 2);
    for (unsigned c = 0; c < rows; c++) {
      for (unsigned i = 0; i < n; i++) { unsigned k = pick("lit", 2 * nv); t += (k & 1 ? "-" : "") + std::to_string(1 + k / 2); t += i % 3 == 2 && nsx_param("wrap", 1) ? "\n" : " "; }
      t += "0\n";
    }
    compare(s, t);
  } else {
    std::string u; for (unsigned i = 0; i < n; i++) t += piece(nv);
    for (unsigned i = 0; i < n; i++) u += piece(nv);
    Ref r = reference(t), q = reference(u); nsx_assume(r.ok && q.ok);
    bool ok = parse(s, t); nsx_assert(ok, "the first file is accepted");
    if (nsx_param("solve", 1)) { solve(s); nsx_observe("between", (unsigned)get_status(s)); }
    ok = parse(s, u); nsx_assert(ok, "the second file is accepted");
    for (auto& c : q.cl) r.cl.push_back(c);
    refute_models(s, formula(r, size_of(r, nv)));
  }
  delete_solver(s);
}
