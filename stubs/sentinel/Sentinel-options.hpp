// Stand-in for the SATSentinel submodule (absent from this checkout): just the
// declarations NapSAT's own sources name.  No behaviour is modelled.
#pragma once
#include <string>
#include <vector>
namespace sentinel {
struct Options {
  std::string commands_file;
  bool check_no_conflicts = false, check_trail_monotonicity = false, check_implied_levels = false,
       check_no_missed_implications = false, check_topological_order = false,
       check_assignment_coherence = false, check_weak_watched_literals = false,
       check_strong_watched_literals = false;
  Options() = default;
  explicit Options(std::vector<std::string>& tokens) {
    for (unsigned i = 0; i + 1 < tokens.size(); i++)
      if (tokens[i] == "-commands" || tokens[i] == "--commands") commands_file = tokens[i + 1];
  }
  static std::string get_help_text() { return std::string(); }
};
}
