// Stand-in for the SATSentinel submodule (absent from this checkout).  The
// observer is never attached (options.observing/check_invariants stay off), so
// none of these functions is reached; they exist so NapSAT's sources compile.
#pragma once
#include "Sentinel-options.hpp"
#include <functional>
#include <string>
namespace sentinel {
struct Tvar { unsigned value; Tvar(unsigned v = 0) : value(v) {} };
struct Tlit { unsigned value; Tlit(unsigned v = 0) : value(v) {} Tlit(Tvar v, bool p) : value(v.value * 2 + p) {} };
struct Tclause { unsigned value; Tclause(unsigned v = 0) : value(v) {} };
struct Tlevel { unsigned value; Tlevel(unsigned v = 0) : value(v) {} };
class SATSentinel {};
struct WatchInvariant {
  std::string name, formula;
  std::function<bool(Tlit, Tlit, Tlit, std::string&)> f;
  WatchInvariant(std::string n, std::function<bool(Tlit, Tlit, Tlit, std::string&)> g, std::string s)
      : name(std::move(n)), formula(std::move(s)), f(std::move(g)) {}
};
struct Tparser { std::function<bool(const std::string&)> f; Tparser(std::function<bool(const std::string&)> g) : f(std::move(g)) {} };
inline SATSentinel* create_sentinel(const Options&) { return new SATSentinel(); }
inline void delete_sentinel(SATSentinel* s) { delete s; }
inline void add_watch_invariant(SATSentinel*, WatchInvariant*) {}
inline bool add_variable(SATSentinel*, Tvar) { return true; }
inline bool set_variable_alias(SATSentinel*, Tvar, std::string) { return true; }
inline bool add_clause(SATSentinel*, Tclause, const Tlit*, unsigned, bool = false) { return true; }
inline bool delete_clause(SATSentinel*, Tclause) { return true; }
inline bool shrink_clause(SATSentinel*, Tclause, Tlit) { return true; }
inline bool assign(SATSentinel*, Tlit, Tclause) { return true; }
inline bool unassign(SATSentinel*, Tlit) { return true; }
inline bool propagate(SATSentinel*, Tlit) { return true; }
inline bool unpropagate(SATSentinel*, Tlit) { return true; }
inline bool update_level(SATSentinel*, Tlit, Tlevel) { return true; }
inline bool update_reason(SATSentinel*, Tlit, Tclause) { return true; }
inline bool watch(SATSentinel*, Tclause, Tlit) { return true; }
inline bool unwatch(SATSentinel*, Tclause, Tlit) { return true; }
inline bool block(SATSentinel*, Tclause, Tlit, Tlit) { return true; }
inline bool lock_assumption(SATSentinel*, Tlit) { return true; }
inline bool unlock_assumption(SATSentinel*, Tlit) { return true; }
inline bool check_invariants(SATSentinel*) { return true; }
inline bool checkpoint(SATSentinel*) { return true; }
inline bool message(SATSentinel*, const std::string&, unsigned = 0) { return true; }
inline bool save_execution(SATSentinel*, std::string) { return true; }
inline bool load_execution(SATSentinel*, std::string) { return true; }
inline void set_command_parser(SATSentinel*, Tparser*) {}
inline void set_variable_detail_callback(SATSentinel*, std::function<std::string(Tvar)>) {}
inline void set_clause_detail_callback(SATSentinel*, std::function<std::string(Tclause)>) {}
}
