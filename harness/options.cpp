// Command line: option parsing, compatibility resolution, environment tokens, observer group.
//  part 0: every subset of the strategy options, in two orders     part 1: every subset of the reporting options
//  part 2: every list of n tokens over a vocabulary                 part 3: one option token with symbolic characters
//  part 4: global flags mixed with solver options                   part 5: a braced observer group
//  part 6: numbers
#include "engine/nsx.h"
#include "SAT-options.hpp"
#include <string>
#include <vector>
#include <cstring>
using namespace napsat;
typedef std::vector<std::string> tokens_t;
static bool coin(const char* n) { return nsx_concretize(nsx_sym(n, 0, 1)); }
static unsigned pick(const char* n, unsigned k) { return k < 2 ? 0 : (unsigned)nsx_concretize(nsx_sym(n, 0, k - 1)); }

// what the documentation promises, written independently of the implementation
struct B { const char* name; const char* alias; bool options::* f; bool dflt; };
static const B BOOLS[] = {
  {"--chronological-backtracking", "-cb", &options::chronological_backtracking, false},
  {"--lazy-strong-chronological-backtracking", "-lscb", &options::lazy_strong_chronological_backtracking, false},
  {"--graph-backtracking", "-gb", &options::graph_backtracking, false},
  {"--lazy-chunk-merging", "-lcm", &options::lazy_chunk_merging, false},
  {"--eager-chunk-merging", "-ecm", &options::eager_chunk_merging, false},
  {"--backtrack-smallest-chunk", "-bsc", &options::backtrack_smallest_chunk, false},
  {"--backtrack-first-chunk", "-bfc", &options::backtrack_first_chunk, false},
  {"--backtrack-learned", "-bl", &options::backtrack_learned, false},
  {"--use-max-approximate-cost-estimation", "-max-approx-cost", &options::use_max_approximate_cost_estimation, false},
  {"--use-sum-approximate-cost-estimation", "-sum-approx-cost", &options::use_sum_approximate_cost_estimation, false},
  {"--use-vsids-approximate-cost-estimation", "-vsids-approx-cost", &options::use_vsids_approximate_cost_estimation, false},
  {"--delete-clauses", "-del", &options::delete_clauses, true},
  {"--ignore-unused-variables", "-iuv", &options::ignore_unused_variables, false},
  {"--interactive", "-i", &options::interactive, false},
  {"--observing", "-o", &options::observing, false},
  {"--check-invariants", "-c", &options::check_invariants, false},
  {"--save-state-on-interrupt", "-ssi", &options::save_state_on_interrupt, true},
  {"--statistics", "-stat", &options::print_stats, false},
  {"--live-statistics", "-live-stat", &options::print_live_stats, false},
  {"--proof", "-bp", &options::build_proof, false},
  {"--check-proof", "-cp", &options::check_proof, false},
  {"--print-proof", "-pp", &options::print_proof, false},
  {"--record-dependencies", nullptr, &options::record_dependencies, false},
  {"--restarts", nullptr, &options::restarts, true},
};
constexpr unsigned NB = sizeof BOOLS / sizeof *BOOLS;
struct D { const char* name; const char* alias; double options::* f; double dflt; };
static const D DOUBLES[] = {
  {"--var-activity-decay", nullptr, &options::var_activity_decay, 0.95},
  {"--clause-elimination-multiplier", nullptr, &options::clause_elimination_multiplier, 2.0},
  {"--clause-activity-multiplier", nullptr, &options::clause_activity_multiplier, 1.001},
  {"--clause-activity-threshold-decay", nullptr, &options::clause_activity_threshold_decay, 0.85},
  {"--chunk-level-penalty", nullptr, &options::chunk_level_penalty, 0.01},
  {"--backtrack-possibilities-limit", nullptr, &options::backtrack_possibilities_limit, 1000},
  {"--sync-weight", nullptr, &options::sync_weight, 8},
  {"--timeout", "-t", &options::timeout, -1},
  {"--conflict-limit", "-cl", &options::conflict_limit, -1},
};
constexpr unsigned ND = sizeof DOUBLES / sizeof *DOUBLES;

struct Spec {                       // requested values, then the documented compatibility rules
  bool b[NB]; double d[ND]; bool setb[NB] = {}, setd[ND] = {};
  Spec() { for (unsigned i = 0; i < NB; i++) b[i] = BOOLS[i].dflt; for (unsigned i = 0; i < ND; i++) d[i] = DOUBLES[i].dflt; }
  bool& of(bool options::* f) { for (unsigned i = 0; i < NB; i++) if (BOOLS[i].f == f) return b[i]; return b[0]; }
  void parse(const tokens_t& t) {
    for (size_t i = 0; i < t.size(); i++) {
      bool has = i + 1 < t.size() && !t[i + 1].empty() && t[i + 1][0] != '-';
      for (unsigned k = 0; k < NB; k++) if ((t[i] == BOOLS[k].name || (BOOLS[k].alias && t[i] == BOOLS[k].alias) || (k == 12 && t[i] == "--ignore-unused_variables")) && !setb[k]) {
        if (!has) { b[k] = true; setb[k] = true; }
        else if (t[i + 1] == "on") { b[k] = true; setb[k] = true; i++; }
        else if (t[i + 1] == "off") { b[k] = false; setb[k] = true; i++; }
        goto next;
      }
      for (unsigned k = 0; k < ND; k++) if ((t[i] == DOUBLES[k].name || (DOUBLES[k].alias && t[i] == DOUBLES[k].alias)) && !setd[k]) {
        if (has) { const char* s = t[i + 1].c_str(); if (s[0] >= '0' && s[0] <= '9') { double v = 0, sc = 0; for (; *s; s++) { if (*s == '.') sc = 1; else { v = v * 10 + (*s - '0'); sc *= 10; } } d[k] = sc ? v / sc : v; setd[k] = true; i++; } }
        goto next;
      }
      next:;
    }
  }
  void rules() {
    bool gb = of(&options::graph_backtracking), &cb = of(&options::chronological_backtracking), &ls = of(&options::lazy_strong_chronological_backtracking);
    bool &lcm = of(&options::lazy_chunk_merging), &ecm = of(&options::eager_chunk_merging), &bsc = of(&options::backtrack_smallest_chunk), &bfc = of(&options::backtrack_first_chunk), &bl = of(&options::backtrack_learned);
    bool &mx = of(&options::use_max_approximate_cost_estimation), &sm = of(&options::use_sum_approximate_cost_estimation), &vs = of(&options::use_vsids_approximate_cost_estimation);
    cb |= ls; if (gb) cb = ls = false;                       // graph backtracking excludes the chronological strategies
    lcm &= gb; ecm &= gb & !lcm; bfc &= gb; bsc &= gb & !bfc; bl &= gb;
    mx &= gb; sm &= gb & !mx; vs &= gb & !mx & !sm;
    of(&options::build_proof) |= of(&options::check_proof) | of(&options::print_proof);
    if (!of(&options::observing) && !of(&options::interactive)) of(&options::print_stats) = of(&options::print_live_stats) = false;
  }
};
static void same(const options& o, const Spec& s) {
  for (unsigned i = 0; i < NB; i++) nsx_assert(o.*BOOLS[i].f == s.b[i], BOOLS[i].name);
  for (unsigned i = 0; i < ND; i++) nsx_assert(o.*DOUBLES[i].f == s.d[i], DOUBLES[i].name);
}
static void run(tokens_t t) { Spec s; s.parse(t); s.rules(); options o(t); same(o, s); }
extern "C" void nsx_main() {
  unsigned part = nsx_param("part", 0);
  env::set_suppress_warning(nsx_param("quiet", 1)); env::set_suppress_info(true);
  if (part == 0 || part == 1) {
    tokens_t t; unsigned lo = part ? 11 : 0, hi = part ? NB : 11, n = hi - lo; bool rev = coin("reverse"), longn = coin("long_names");
    for (unsigned i = 0; i < n; i++) { unsigned k = lo + (rev ? n - 1 - i : i); if (coin("option")) { t.push_back(!longn && BOOLS[k].alias ? BOOLS[k].alias : BOOLS[k].name); if (part == 1 && BOOLS[k].dflt) t.push_back("off"); } }
    if (t.size() == n) nsx_reach("all options"); if (t.empty()) nsx_reach("no option");
    run(t);
  } else if (part == 2) {
    static const char* V[] = {"-gb", "on", "off", "-bfc", "-bsc", "-cb", "--timeout", "2.5", "", "-unknown", "file", "-lscb", "--restarts", "-del", "-cl", "17", "--graph-backtracking", "-", "-1", "--ignore-unused_variables", "--clause-activity-threshold-decay", "0.25"};
    unsigned n = nsx_param("n", 3), v = nsx_param("voc", 22); tokens_t t; for (unsigned i = 0; i < n; i++) t.push_back(V[pick("token", v)]);
    if (t[0] == "-gb" && t[1] == "off" && t[2] == "-gb") nsx_reach("repeated option");
    for (unsigned i = 0; i + 1 < n; i++) if (t[i] == "--clause-activity-threshold-decay") { double x = t[i + 1] == "17" || t[i + 1] == "2.5"; nsx_assume(!x); }   // documented to end the program
    run(t);
  } else if (part == 3) {
    unsigned n = nsx_param("n", 3); char c[16]; c[0] = '-'; for (unsigned i = 1; i < n; i++) c[i] = (char)nsx_sym("char", 0x21, 0x7e);
    c[n] = 0; tokens_t t{std::string(c, n)};
    Spec s, d; options o(t);
    // an option is recognised exactly by its documented names
    for (unsigned i = 0; i < NB; i++) { unsigned hit = 0; for (int a = 0; a < 2; a++) { const char* nm = a ? BOOLS[i].alias : BOOLS[i].name; if (!nm || strlen(nm) != n) continue; unsigned eq = 1; for (unsigned j = 0; j < n; j++) eq &= c[j] == nm[j]; hit |= eq; }
      if (BOOLS[i].f == &options::print_stats || BOOLS[i].f == &options::print_live_stats) hit = 0;
      static bool options::* const NEEDGB[] = {&options::lazy_chunk_merging, &options::eager_chunk_merging, &options::backtrack_smallest_chunk, &options::backtrack_first_chunk, &options::backtrack_learned, &options::use_max_approximate_cost_estimation, &options::use_sum_approximate_cost_estimation, &options::use_vsids_approximate_cost_estimation};
      for (auto f : NEEDGB) if (BOOLS[i].f == f) hit = 0;
      unsigned want = BOOLS[i].dflt | hit;
      if (BOOLS[i].f == &options::build_proof) { unsigned cp = n == 3 && c[1] == 'c' && c[2] == 'p', pp = n == 3 && c[1] == 'p' && c[2] == 'p'; want |= cp | pp; }
      if (BOOLS[i].f == &options::chronological_backtracking) { unsigned ls = n == 5; const char* q = "-lscb"; for (unsigned j = 0; ls && j < n; j++) ls &= c[j] == q[j]; want |= ls; }
      if (hit) nsx_reach("recognised");
      nsx_assert((unsigned)(o.*BOOLS[i].f) == want, BOOLS[i].name); }
    for (unsigned i = 0; i < ND; i++) nsx_assert(o.*DOUBLES[i].f == d.d[i], DOUBLES[i].name);
  } else if (part == 4) {
    // global flags are taken out of the token list together with their values and do not change what the solver options mean
    static const char* V[] = {"-gb", "-sw", "-si", "--suppress-info", "-del", "-icf", "--obsidian-template-folder", "-cb", "--suppress-warning"};
    unsigned n = nsx_param("n", 3), m = nsx_param("voc", 9); tokens_t t, rest; bool sw = true, si = true; std::string icf = env::get_invariant_configuration_folder(), otf = env::get_obsidian_template_folder();
    for (unsigned i = 0; i < n; i++) {
      unsigned k = pick("token", m); t.push_back(V[k]);
      if (k == 5 || k == 6) { t.push_back("dir"); (k == 5 ? icf : otf) = "dir"; continue; }
      unsigned val = pick("value", 3); bool is_env = k == 1 || k == 2 || k == 3 || k == 8;
      if (val) t.push_back(val == 1 ? "on" : "off");
      if (is_env) { (k == 1 || k == 8 ? sw : si) = val != 2; nsx_reach("flag"); if (val) nsx_reach("flag with value"); } else { rest.push_back(V[k]); if (val) rest.push_back(val == 1 ? "on" : "off"); }
    }
    tokens_t left = env::extract_environment_variables(t);
    nsx_assert(left == rest, "what is left is exactly the solver options");
    nsx_assert(env::get_suppress_warning() == sw && env::get_suppress_info() == si, "the global flags have the requested values");
    nsx_assert(env::get_invariant_configuration_folder() == icf && env::get_obsidian_template_folder() == otf, "the folders have the requested values");
    env::set_suppress_warning(true); env::set_suppress_info(true);
    Spec s; s.parse(rest); s.rules(); options o(left); same(o, s);
  } else if (part == 5) {
    // -o followed by a braced group: the group goes to the observer, everything else keeps its meaning
    tokens_t t, plain; static const char* PRE[] = {"-gb", "-del", "-cb"}; 
    if (coin("before")) { const char* p = PRE[pick("which", 3)]; t.push_back(p); plain.push_back(p); }
    t.push_back(coin("long") ? "--observing" : "-o"); plain.push_back("-o"); bool cmd = false;
    switch (pick("group", 6)) {
      case 0: break;
      case 1: t.push_back("{--gui}"); break;
      case 2: t.push_back("{-commands f}"); cmd = true; break;
      case 3: t.push_back("{-commands"); t.push_back("f}"); cmd = true; break;
      case 4: t.push_back("{"); t.push_back("-gb"); t.push_back("off"); t.push_back("}"); break;
      case 5: t.push_back("{}"); break;
    }
    if (coin("after")) { const char* p = PRE[pick("which", 3)]; t.push_back(p); plain.push_back(p); if (coin("value")) { t.push_back("off"); plain.push_back("off"); } }
    Spec s; s.parse(plain); s.of(&options::interactive) |= cmd; s.rules();
    options o(t); same(o, s); nsx_assert((o.sentinel_options.commands_file == "f") == cmd, "the group is handed to the observer"); if (cmd) nsx_reach("group with commands");
  } else {
    // numeric values: accepted when they are numbers, ignored otherwise, never a crash
    static const char* N[] = {"0", "1", "0.5", "12.25", "1e999", "abc", "", "1e-400", ".", "99999999999999999999"};
    static const double W[] = {0, 1, 0.5, 12.25, -2, -2, -2, -3, -2, 1e20};
    unsigned k = pick("option", ND), v = pick("number", 10); const D& d = DOUBLES[k];
    bool bounded = d.f == &options::clause_activity_threshold_decay; if (bounded) nsx_assume(W[v] <= 1);
    tokens_t t{d.alias && coin("alias") ? d.alias : d.name, N[v]}; options o(t);
    for (unsigned i = 0; i < ND; i++) { double x = o.*DOUBLES[i].f; if (i == k && W[v] >= 0) nsx_assert(x == W[v], "the number is taken over"); else if (i == k && W[v] == -3) nsx_assert(x >= 0 && x < 1e-300 || x == DOUBLES[i].dflt, "a number too small for the type"); else nsx_assert(x == DOUBLES[i].dflt, "the default value is kept"); }
    if (W[v] == -2) nsx_reach("not a number"); else nsx_reach("number");
  }
}
