From 04ca14de082dd0cc1062cc9aaa2182bff9766742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 01/40] fix: bitset::empty() walks all metadata words

---
 src/utils/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bitset.cpp b/src/utils/bitset.cpp
index 12b7d1b..3ed90ad 100644
--- a/src/utils/bitset.cpp
+++ b/src/utils/bitset.cpp
@@ -162,7 +162,7 @@ bool bitset::empty() const {
   assert(it != _bits.cend());
   do {
     if (*it & M_DATA_MSK) return false;
-  } while (*(it++) & M_DATA_MSK);
+  } while (*(it++) & M_NEXT_MSK);
   return true;
 }
 
-- 
2.43.0


From 4ae7f3f803bf1294480c3876fc54b444c794633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:57 +0000
Subject: [PATCH 02/40] fix: heap::remove restores the order above the moved
 element

---
 src/utils/heap.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/heap.cpp b/src/utils/heap.cpp
index be1a26e..360b39a 100644
--- a/src/utils/heap.cpp
+++ b/src/utils/heap.cpp
@@ -85,8 +85,12 @@ void heap::remove(Tvar key)
   swap(i, _heap.size() - 1);
   _heap.pop_back();
   _index[key] = LOCATION_UNDEF;
-  if (i < _heap.size())
-    heapify_down(i);
+  if (i < _heap.size()) {
+    // the element moved to i may come from another branch, above or below its new parent
+    Tvar moved = _heap[i];
+    heapify_up(i);
+    heapify_down(_index[moved]);
+  }
 }
 
 void napsat::utils::heap::update(Tvar key, double activity)
-- 
2.43.0


From 9148b29014539bc64de5c970a1e9dd6cb8a88f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 03/40] fix: graph backtracking also excludes lazy strong
 chronological backtracking

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index 45c4822..f79e233 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -326,6 +326,7 @@ napsat::options::options(vector<string>& tokens)
     LOG_WARNING("graph backtracking subsumes chronological backtracking.");
     LOG_WARNING("The solver will run with graph backtracking.");
     chronological_backtracking = false;
+    lazy_strong_chronological_backtracking = false;
   }
 
   interactive |= !sentinel_options.commands_file.empty();
-- 
2.43.0


From 1a57dad951a058ae9c272125f19e878883801d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 04/40] fix: the value of a global flag is consumed with the
 flag

---
 src/solver/SAT-options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/SAT-options.cpp b/src/solver/SAT-options.cpp
index f79e233..a11f5b7 100644
--- a/src/solver/SAT-options.cpp
+++ b/src/solver/SAT-options.cpp
@@ -92,6 +92,7 @@ vector<string> env::extract_environment_variables(vector<string>& tokens) {
           LOG_WARNING("Default value " << (*bool_options[token] ? "on" : "off") << " is used.");
           continue;
         }
+        i++;
       }
       else
         *bool_options[token] = true;
-- 
2.43.0


From 880f95e60c56f035eaf8be45dc99061f75a9f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 05/40] fix: numeric options reject values out of the range of
 double

---
 src/utils/options.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/options.cpp b/src/utils/options.cpp
index 9127845..b85a9b6 100644
--- a/src/utils/options.cpp
+++ b/src/utils/options.cpp
@@ -15,6 +15,7 @@
 
 #include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -156,6 +157,11 @@ namespace napsat
       LOG_WARNING("Default value " << _storage << " is used.");
       return false;
     }
+    catch (const std::out_of_range&) {
+      LOG_WARNING("option " << tokens[i] << " requires a representable floating point number value.");
+      LOG_WARNING("Default value " << _storage << " is used.");
+      return false;
+    }
     i++;
     return true;
   }
-- 
2.43.0


From 2eb91c48cce561a3a357d69ff241cca6a3948073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:37 +0000
Subject: [PATCH 06/40] fix: pretty_integer prints negative numbers

---
 src/utils/printer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 7f23b1e..01595c1 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -69,15 +69,16 @@ string pretty_integer(long long n)
 {
   string s = "";
   if (n == 0) return "0";
-  while (n > 0) {
-    s = to_string(n % 1000) + "," + s;
-    n /= 1000;
-    if (s.size() % 4 != 0 && n > 0)
+  const bool negative = n < 0;
+  unsigned long long m = negative ? 0ull - (unsigned long long)n : n;
+  while (m > 0) {
+    s = to_string(m % 1000) + "," + s;
+    m /= 1000;
+    if (s.size() % 4 != 0 && m > 0)
       s = string(4 - s.size() % 4, '0') + s;
   }
-  if (s.size() > 0)
-    s = s.substr(0, s.size() - 1);
-  return s;
+  s = s.substr(0, s.size() - 1);
+  return negative ? "-" + s : s;
 }
 
 string pretty_float(double f, unsigned n)
-- 
2.43.0


From a4ec9839bf82800e055e2841114a58224ab0d17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:37 +0000
Subject: [PATCH 07/40] fix: pad accepts the whole range of unsigned

---
 src/utils/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/printer.cpp b/src/utils/printer.cpp
index 01595c1..3b21853 100644
--- a/src/utils/printer.cpp
+++ b/src/utils/printer.cpp
@@ -43,7 +43,7 @@ unsigned string_length_escaped(string const str)
   return str.length() - n_escaped;
 }
 
-static inline unsigned log10(int n)
+static inline unsigned log10(unsigned n)
 {
   assert(n > 0);
   unsigned digits = 0;
-- 
2.43.0


From b26a73296b42d46f685358c9a473cf09124edf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 08/40] fix: the summed cost estimate is not an upper bound

The estimate leaves out the literals shared by all possibilities, so it can
be below the exact weight and the debug assertion failed on correct runs.
---
 src/solver/NapSAT-conflict.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 589f4fc..8afd54d 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -1343,8 +1343,6 @@ void NapSAT::graph_repair()
       || analyzed.total_weight - penalty <= calculate_weight(analyzed.chunks) + 1e-6,
                "Analyzed is " + analyzed.chunks.to_string() + " with weight " + to_string(analyzed.total_weight) + " and penalty " + to_string(penalty) +
                " but calculated weight is " + to_string(calculate_weight(analyzed.chunks)));
-    ASSERT(!_options.use_sum_approximate_cost_estimation
-      || analyzed.total_weight - penalty >= calculate_weight(analyzed.chunks) - 1e-6);
 
     if(best.chunks.empty()) {
       best.total_weight = analyzed.total_weight;
-- 
2.43.0


From 981705c7d96c9aae7bea00e249a1b4cd7adccee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 09/40] fix: solving again with unused variables ignored does
 not require a full trail

---
 src/solver/NapSAT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 88cf13d..b631584 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -398,7 +398,7 @@ status NapSAT::solve()
 {
   auto start_time = std::chrono::high_resolution_clock::now();
   if (_status != status::UNKNOWN) {
-    ASSERT(_status != status::SAT || _trail.size() == _vars.size().value - 1);
+    ASSERT(_status != status::SAT || _options.ignore_unused_variables || _trail.size() == _vars.size().value - 1);
     NOTIFY(message, "Solver finished solving. Status: " + status_to_string(_status));
     return _status;
   }
-- 
2.43.0


From 1fedf4d694c443a1029dd1c52240ab5769f767d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 10/40] fix: the conflict limit stops the solver after the
 conflict is repaired

propagate() stopped with unrepaired conflicts and solve() went on deciding:
a debug assertion failed and the release build could report a wrong model.
---
 src/solver/NapSAT.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index b631584..5e0462d 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -369,10 +369,6 @@ bool NapSAT::propagate()
 
     if (!_conflicts.empty()) {
       _conflict_count++;
-      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
-        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
-        return false;
-      }
       repair_conflicts();
 
       if (_status == status::UNSAT) {
@@ -384,6 +380,10 @@ bool NapSAT::propagate()
       if (_options.restarts && _luby_counter.increment()) {
         restart();
       }
+      if (_options.conflict_limit >= 0 && _conflict_count > _options.conflict_limit) {
+        LOG_INFO("Conflict limit reached: " + std::to_string(_options.conflict_limit));
+        return false;
+      }
     }
   }
 
@@ -413,6 +413,9 @@ status NapSAT::solve()
         }
         break;
       }
+      // the conflict limit was reached
+      if (_status == status::UNKNOWN)
+        break;
     }
     ASSERT(_n_propagated_lits == _trail.size());
     NOTIFY(check_invariants);
-- 
2.43.0


From 27e0f40a541066b18f1368567139bddccfac452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:22 +0000
Subject: [PATCH 11/40] fix: the cached chunk set of the cost estimate follows
 the previous literal

The cache kept pointing at an older literal, so a literal with that literal's
chunks was counted for the chunks of the literal in between.
---
 src/solver/NapSAT-conflict.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 8afd54d..6303e10 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -538,9 +538,8 @@ void NapSAT::calculate_bitset_weights_approx(vector<Tweight>& weights)
       lit_chunks_set = lit_chunks(lit);
       lit_chunks_set &= counted_chunks;
       count = lit_chunks_set.count();
-    } else {
-      last_chunks = &lit_chunks(lit);
     }
+    last_chunks = &lit_chunks(lit);
     // if the literal belongs to all, or none of the counted chunks, we can skip it because it will not change the order of the weights
     if (count == 0 || count == counted_chunk_size)
       continue;
-- 
2.43.0


From 8681fd1370beef54e892aa960c87fc32c7203339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 12/40] fix: purging root watch lists does not form a pointer
 before the list

The pointer arithmetic is undefined, and on an empty list starts from null.
---
 src/solver/NapSAT-purge.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 15abf14..22934cd 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -74,10 +74,8 @@ void napsat::NapSAT::purge_root_watch_lists()
     vector<TSwatch>& watch_list = _watches[lit];
     TSwatch* j = watch_list.data();
     TSwatch* k = j;
-    // start one before so that we just need to increment at the start of the loop
-    j--;
     TSwatch* end = j + watch_list.size();
-    while (j++ < end) {
+    for (; j < end; j++) {
       TSwatch &w = *j;
       Tclause cl = w.cl;
       TSclause& clause = _clauses[cl];
-- 
2.43.0


From fbeefb06f662121afa140162067108e81f353c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 13/40] fix: growing the chunk table only frees the new chunks
 and resizes every chunk set

---
 src/solver/NapSAT-utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index f7d3041..7f17e59 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -355,8 +355,8 @@ void NapSAT::allocate_chunks(size_t n_chunks)
   ASSERT(_chunks.size() == _n_allocated_chunks);
   _chunks.resize(n_chunks);
 
-  for (Tchunk i = 1; i <= n_chunks; i++) {
-    _free_chunks.push_back(_n_allocated_chunks + n_chunks - i);
+  for (Tchunk i = n_chunks; i > _n_allocated_chunks; i--) {
+    _free_chunks.push_back(i - 1);
     NOTIFY_STAT(_n_allocated_chunks);
   }
   _n_allocated_chunks = n_chunks;
@@ -366,7 +366,7 @@ void NapSAT::allocate_chunks(size_t n_chunks)
     _vars[i].cross_chunks.resize(_n_allocated_chunks);
   }
 
-  for (Tchunk i = _n_allocated_chunks; i < _chunks.size().value; i++) {
+  for (Tchunk i = 0; i < _chunks.size().value; i++) {
     _chunks[i].missed_implication.resize(_n_allocated_chunks);
   }
 }
-- 
2.43.0


From 04c81474fa6379b24aaae6c0db2c8a920e0100c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 14/40] fix: file names shorter than an archive suffix are
 plain files

---
 src/solver/NapSAT-utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 7f17e59..d990ff8 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -42,6 +42,10 @@ static inline bool is_prefix(const string &s, const string &prefix) {
   return s.compare(0, prefix.size(), prefix) == 0;
 }
 
+static inline bool is_suffix(const string &s, const string &suffix) {
+  return s.size() >= suffix.size() && s.compare(s.size() - suffix.size(), suffix.size(), suffix) == 0;
+}
+
 bool NapSAT::parse_dimacs(const char* filename)
 {
 #if USE_OBSERVER
@@ -51,7 +55,7 @@ bool NapSAT::parse_dimacs(const char* filename)
   // the file is a compressed xz file
   // first decompress it and store it in a temporary file
   istringstream stream;
-  if (string(filename).substr(string(filename).size() - 3) == ".xz") {
+  if (is_suffix(filename, ".xz")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_xz(filename, decompressed_data)) {
@@ -60,7 +64,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       return false;
     }
     stream = istringstream(decompressed_data.str());
-  } else if (string(filename).substr(string(filename).size() - 4) == ".bz2") {
+  } else if (is_suffix(filename, ".bz2")) {
     // create a virtual file and read the content of the compressed file
     ostringstream decompressed_data;
     if (!decompress_bz2(filename, decompressed_data)) {
-- 
2.43.0


From 04962acd4293915317745e21590f1443c2d268ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 15/40] fix: a malformed problem line does not read
 uninitialised numbers

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index d990ff8..59e4dca 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -172,7 +172,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       break;
     if (is_prefix(line, "p cnf")) {
       if (first_line) {
-        unsigned n_var, n_clauses;
+        unsigned n_var = 0, n_clauses = 0;
         sscanf(line.c_str(), "p cnf %u %u", &n_var, &n_clauses);
         if (n_var > _vars.size().value) {
           LOG_INFO("Allocating " << n_var << " variables and " << n_clauses << " clauses.");
-- 
2.43.0


From ed41a529b160e46b96e02844286f743f844d770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 16/40] fix: weights are only accepted for positive variables

---
 src/solver/NapSAT-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index 59e4dca..b07321f 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -146,6 +146,8 @@ bool NapSAT::parse_dimacs(const char* filename)
           Tvar var = stoi(var_string, &pos);
           if (pos != var_string.size())
             throw invalid_argument(var_string);
+          if (var == 0 || var_string[0] == '-')
+            throw invalid_argument(var_string);
           double weight = stod(weight_string, &pos);
           if (pos != weight_string.size())
             throw invalid_argument(weight_string);
-- 
2.43.0


From 09786f211915edfac9a37210a54154ce2a362b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 17/40] fix: the empty clause can be added without a literal
 array

---
 src/solver/NapSAT-clauses.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a3789ac..91f963d 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -108,7 +108,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
                                             bool external,
                                             Tclause id)
 {
-  ASSERT(lits_input != nullptr);
+  ASSERT(lits_input != nullptr || input_size == 0);
   ASSERT(id == CLAUSE_UNDEF || id < _clauses.size());
   ASSERT(id == CLAUSE_UNDEF || _clauses[id].deleted);
   if (external) {
@@ -173,8 +173,10 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
 
 
   // copy the literals to the clause
-  if (n_removed == 0)
-    memcpy(lits, lits_input, input_size * sizeof(Tlit));
+  if (n_removed == 0) {
+    if (input_size > 0)
+      memcpy(lits, lits_input, input_size * sizeof(Tlit));
+  }
   else {
     // cannot use memcpy because we skip the literals falsified at level 0
     for (unsigned i = 0, j = 0; i < input_size; i++) {
-- 
2.43.0


From f030e4aaad7762eac08af26d034e287595148c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 18/40] fix: parsing goes on when the first clauses leave the
 solver satisfied

---
 src/solver/NapSAT-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index b07321f..d8c54ba 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -209,7 +209,7 @@ bool NapSAT::parse_dimacs(const char* filename)
       add_literal(Tlit(abs(lit), lit > 0));
     }
     finalize_clause();
-    if (_status != status::UNKNOWN)
+    if (_status == status::UNSAT)
       return true;
   }
   return true;
-- 
2.43.0


From 45bf44d81c21c77d6fe3fa3ef192d75a3bfd6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 19/40] fix: DIMACS clauses are separated by zeros, not by
 lines

---
 src/solver/NapSAT-utils.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/solver/NapSAT-utils.cpp b/src/solver/NapSAT-utils.cpp
index d8c54ba..5b0b020 100755
--- a/src/solver/NapSAT-utils.cpp
+++ b/src/solver/NapSAT-utils.cpp
@@ -21,6 +21,7 @@
 #include <fstream>
 #include <iomanip>
 #include <algorithm>
+#include <limits>
 
 #define ORANGE "\033[0;33m"
 #define GREEN "\033[0;32m"
@@ -85,6 +86,8 @@ bool NapSAT::parse_dimacs(const char* filename)
 
   string line;
   bool first_line = true;
+  // clauses end with a zero, they may span lines and share a line
+  vector<Tlit> clause;
   while (getline(stream, line)) {
     ltrim(line);
     if (line.empty())
@@ -189,29 +192,31 @@ bool NapSAT::parse_dimacs(const char* filename)
 
     string token;
     istringstream ss(line);
-    start_clause();
-    while(getline(ss, token, ' ')) {
-      if (token.empty())
-        continue;
+    while (ss >> token) {
       int lit;
       try {
         size_t pos;
         lit = stoi(token, &pos);
-        if (pos != token.size())
+        if (pos != token.size() || lit == numeric_limits<int>::min())
           throw invalid_argument(token);
       } catch (const exception &e) {
         LOG_ERROR("The token " << token << " is not a number.");
         _status = status::ERROR;
         return false;
       }
-      if (lit == 0)
-        break;
-      add_literal(Tlit(abs(lit), lit > 0));
+      if (lit != 0) {
+        clause.push_back(Tlit(abs(lit), lit > 0));
+        continue;
+      }
+      add_clause(clause.data(), clause.size());
+      clause.clear();
+      if (_status == status::UNSAT)
+        return true;
     }
-    finalize_clause();
-    if (_status == status::UNSAT)
-      return true;
   }
+  // the last clause of the file may lack its terminating zero
+  if (!clause.empty())
+    add_clause(clause.data(), clause.size());
   return true;
 }
 
-- 
2.43.0


From da2a151f6a045bcf958a402f8cdd943c12d896ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:18 +0000
Subject: [PATCH 20/40] fix: an added clause with a true literal at a low
 enough level changes nothing

---
 src/solver/NapSAT-imply.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 3590e2d..a86bc0a 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -283,6 +283,10 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
   ASSERT(lit_true(c2));
   ASSERT(lit_false(c1));
 
+  // The levels are ok. Nothing to do here.
+  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
+    return;
+
   if (!_options.lazy_strong_chronological_backtracking && !_options.graph_backtracking) {
     // Non-chronological backtracking
     ASSERT(clause.external);
@@ -294,9 +298,6 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  // The levels are ok. Nothing to do here.
-  if (!_options.graph_backtracking && lit_level(c2) <= lit_level(c1))
-      return;
   if (_options.lazy_strong_chronological_backtracking) {
     ASSERT(lit_is_max_literal(lits[1], lits + 2, clause.size - 2));
     if (lit_lazy_level(c2)  <= lit_level(c1)) {
-- 
2.43.0


From d8ce5a059b3671eb52ed5162757fc79625db6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 21/40] fix: a decision that becomes implied at root leaves no
 lazy reason nor stale chunks

---
 src/solver/NapSAT-imply.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index a86bc0a..ff5352d 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -161,6 +161,7 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
     _chunks[ck].decision = Tvar();
     _chunks[ck].missed_implication.clear();
     _chunks[ck].is_reimplied = false;
+    lit_lazy_reason(lit) = CLAUSE_UNDEF;
     _decision_index.resize(_decision_index.size() - 1);
   }
 
@@ -264,6 +265,16 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
         }
       }
     }
+
+    // the missed implications no longer depend on the chunks of the literal
+    for (TSchunk& chunk : _chunks) {
+      if (!chunk.is_reimplied)
+        continue;
+      Tclause missed = _vars[chunk.decision].missed_lower_implication;
+      chunk.missed_implication.clear();
+      for (unsigned i = 1; i < clause_size(missed); i++)
+        chunk.missed_implication |= lit_chunks(clause_lits(missed)[i]);
+    }
   }
 
   ASSERT(check_decision_index_consistency());
-- 
2.43.0


From 21881319dfccf34037bec5d9b5c7a811b6834689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 22/40] fix: the lazy level of an implication in GB is the
 level of its reason

---
 src/solver/NapSAT.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index 0107b07..f48082a 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1421,6 +1421,9 @@ public:
       ASSERT(lit_level(lit) > LEVEL_ROOT);
       ASSERT(check_clause_implying(l_reason));
       ASSERT(clause_size(l_reason) > 1);
+      // in GB, the second literal is maximal for the chunks, not for the levels
+      if (_options.graph_backtracking)
+        return implication_level(l_reason);
       ASSERT(lit_is_max_literal(lits[1], lits + 1, clause_size(l_reason) - 1));
       return lit_level(lits[1]);
     }
-- 
2.43.0


From e1f178e1373ca77d0ca5c202510d957ac4c7a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:46 +0000
Subject: [PATCH 23/40] fix: a clause learned with others may contain literals
 that became root literals

---
 src/solver/NapSAT-clauses.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 91f963d..69df8c0 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -127,10 +127,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   for (unsigned i = 0; !satisfied_at_root && i < input_size; i++) {
     Tlit l = lits_input[i];
     if (lit_level(l) == LEVEL_ROOT) {
-      // the solver should not introduce redundant literals, so the literal must be false at level 0
-      ASSERT(external,
-        "The clause: " + clause_to_string(lits_input, input_size) + "\nLiteral: " + lit_to_string(l) + "\nLevel: " + std::to_string(lit_level(l)) + "\nThis should not happen since the solver should not introduce redundant literals.");
-      // The solver should not generate redundant literals and clauses
+      // when several clauses are learned together, adding the first ones may
+      // assign literals of the next ones at level 0
       satisfied_at_root |= lit_true(l);
       n_removed++;
     }
@@ -226,15 +224,17 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = new_size;
   }
 
-  if (_proof && external) {
-    _proof->input_clause(id, lits_input, input_size);
+  if (_proof) {
+    if (external)
+      _proof->input_clause(id, lits_input, input_size);
     // Remove the literals falsified at level 0 in the proof
     if (n_removed > 0) {
       _proof->remove_root_literals(id);
     }
   }
-  if (_dependency_tracker && external) {
-    _dependency_tracker->add_input(id);
+  if (_dependency_tracker) {
+    if (external)
+      _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
     if (n_removed > 0) {
       for (unsigned i = 0; i < input_size; i++) {
-- 
2.43.0


From 87c00d4cd6b98a706934597cb784389a2b16dbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 24/40] fix: added clauses that are empty at root level are
 derived in the proof

---
 src/solver/NapSAT-clauses.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 69df8c0..a1d68e1 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -189,13 +189,8 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
     clause.size = input_size - n_removed;
   }
 
-  if (clause_size == 0) {
-    _status = status::UNSAT;
-    return id;
-  }
-
   // Remove duplicate literals
-  if (input_size > 1) {
+  if (clause_size > 1) {
     unsigned new_size = cleanup_duplicate_literals(lits, clause.size);
 
     // if the size is 0, it means that the clause was a tautology.
@@ -229,7 +224,17 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       _proof->input_clause(id, lits_input, input_size);
     // Remove the literals falsified at level 0 in the proof
     if (n_removed > 0) {
-      _proof->remove_root_literals(id);
+      vector<Tlit> removed;
+      for (unsigned i = 0; i < input_size; i++) {
+        if (lit_level(lits_input[i]) == LEVEL_ROOT)
+          removed.push_back(lits_input[i]);
+      }
+      _proof->start_resolution_chain();
+      _proof->link_resolution(LIT_UNDEF, id);
+      prove_root_literal_removal(removed.data(), removed.size());
+      // we need to deactivate the clause to be able to replace it
+      _proof->deactivate_clause(id);
+      _proof->finalize_resolution(id, lits, clause.size);
     }
   }
   if (_dependency_tracker) {
@@ -244,6 +249,12 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       }
     }
   }
+
+  if (clause.size == 0) {
+    _status = status::UNSAT;
+    return id;
+  }
+
   // sort the literals
   sort(lits, lits + clause.size);
   // print the clause
-- 
2.43.0


From c54fa65735fce6f4789836bba71a241c7495c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 25/40] fix: the empty clause of a root conflict gets a clause
 identifier of its own

---
 src/solver/NapSAT-conflict.cpp | 2 +-
 src/solver/NapSAT.cpp          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 6303e10..69d90d9 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -434,7 +434,7 @@ bool NapSAT::root_level_conflict()
         _proof->start_resolution_chain();
         _proof->link_resolution(LIT_UNDEF, conflict);
         prove_root_literal_removal(clause_lits(conflict), clause_size(conflict));
-        _proof->finalize_resolution(_clauses.size(), nullptr, 0);
+        _proof->finalize_resolution(next_clause_id(0), nullptr, 0);
       }
       return true;
     }
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 5e0462d..257128e 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -40,8 +40,9 @@ void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
 
   unsigned i = _trail.size() - 1;
   while (count != 0) {
+    // the literals of a reason may be above the implied literal in the trail
     while (!lit_marked(_trail[i]))
-      i--;
+      i = i == 0 ? _trail.size() - 1 : i - 1;
     Tlit lit = _trail[i];
     ASSERT(lit_level(lit) == LEVEL_ROOT);
     ASSERT(lit_reason(lit) != CLAUSE_UNDEF);
-- 
2.43.0


From 69262421b7b8e4ed64d603ea31455a619e2d6106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 26/40] fix: the proof derives the empty clause of conflicts at
 root level through lazy merges

---
 src/solver/NapSAT-conflict.cpp | 56 ++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 69d90d9..2ac15ba 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -444,7 +444,58 @@ bool NapSAT::root_level_conflict()
 
 void NapSAT::prove_root_conflict_with_lazy_merging()
 {
-  ASSERT(false);
+  ASSERT(_proof);
+  // chunks whose decision is implied at root level by missed implications
+  bitset root_chunks(_n_allocated_chunks);
+  bool changed = true;
+  while (changed) {
+    changed = false;
+    for (Tchunk c = 0; c < _n_allocated_chunks; c++) {
+      if (_chunks[c].is_reimplied && !root_chunks.get(c)
+       && _chunks[c].missed_implication <= root_chunks) {
+        root_chunks.set(c, true);
+        changed = true;
+      }
+    }
+  }
+
+  for (Tclause conflict : _conflicts) {
+    if (!(clause_chunks(conflict) <= root_chunks))
+      continue;
+
+    _proof->start_resolution_chain();
+    _proof->link_resolution(LIT_UNDEF, conflict);
+    unsigned count = 0;
+    const Tlit* lits = clause_lits(conflict);
+    for (unsigned i = 0; i < clause_size(conflict); i++) {
+      ASSERT(lit_false(lits[i]));
+      lit_mark(lits[i]);
+      count++;
+    }
+
+    size_t i = _trail.size() - 1;
+    while (count != 0) {
+      // the missed implications may depend on literals above the decision in the trail
+      while (!lit_marked(_trail[i]))
+        i = i == 0 ? _trail.size() - 1 : i - 1;
+      Tlit lit = _trail[i];
+      Tclause reason = lit_decision(lit) ? lit_lazy_reason(lit) : lit_reason(lit);
+      ASSERT(reason != CLAUSE_UNDEF);
+      _proof->link_resolution(~lit, reason);
+      const Tlit* reason_lits = clause_lits(reason);
+      for (unsigned j = 0; j < clause_size(reason); j++) {
+        if (reason_lits[j] == lit || lit_marked(reason_lits[j]))
+          continue;
+        ASSERT(lit_false(reason_lits[j]));
+        lit_mark(reason_lits[j]);
+        count++;
+      }
+      count--;
+      lit_unmark(lit);
+    }
+    _proof->finalize_resolution(next_clause_id(0), nullptr, 0);
+    return;
+  }
 }
 
 void NapSAT::calculate_bitset_weights(vector<Tweight>& weights)
@@ -1260,7 +1311,8 @@ void NapSAT::graph_repair()
 
   if (possibilities.empty()) {
     // we cannot repair the conflicts
-    // TODO: We still need to generate the empty clause for the proof
+    if (_proof)
+      prove_root_conflict_with_lazy_merging();
     _status = status::UNSAT;
     return;
   }
-- 
2.43.0


From e04c2d6deee1ba096b76d4d974ce5b004f665cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 27/40] fix: printing a proof visits the premises of each
 clause once

---
 src/proof/proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index 7a8b38e..a7e250b 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -371,7 +371,8 @@ void resolution_proof::print_proof(void)
     clause &c = clauses[index];
     c.marked = true;
     for (pair<Tlit, unsigned> link : c.resolution_chain)
-      clauses_to_check.push_back(link.second);
+      if (!clauses[link.second].marked)
+        clauses_to_check.push_back(link.second);
   }
 
   for (unsigned index = 0; index < clauses.size(); index++) {
-- 
2.43.0


From d619ad76c40f8a30b3e7a7f0d6cca131b3962deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 28/40] fix: the proof checker resolves exactly as documented
 and rejects impossible resolutions

---
 src/proof/proof.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index a7e250b..c609f73 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -167,24 +167,18 @@ bool napsat::proof::resolution_proof::check_resolution_chain(TclauseID index)
     Tlit pivot = link.first;
     assert(link.second < clauses.size());
     clause &cl = clauses[link.second];
+    if (pivot != LIT_UNDEF) {
+      unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
+      if (pivot_index == tmp_lits.size()
+       || binary_search(cl.lits, cl.size, ~pivot) == cl.size) {
+        LOG_ERROR("The clauses of the resolution chain cannot be resolved on " + pivot.to_string());
+        return false;
+      }
+      tmp_lits.erase(pivot_index + tmp_lits.begin());
+    }
     for (unsigned i = 0; i < cl.size; i++)
-      binary_insert(tmp_lits, cl.lits[i]);
-
-    // remove duplicates
-    unsigned j = 1;
-    for (unsigned i = 1; i < tmp_lits.size(); i++)
-      if (tmp_lits[i] != tmp_lits[i-1])
-        tmp_lits[j++] = tmp_lits[i];
-
-    if (pivot == LIT_UNDEF)
-      continue;
-
-    unsigned pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), pivot);
-    assert (pivot_index != tmp_lits.size());
-    tmp_lits.erase(pivot_index + tmp_lits.begin());
-    unsigned neg_pivot_index = binary_search(tmp_lits.data(), tmp_lits.size(), ~pivot);
-    assert (neg_pivot_index != tmp_lits.size());
-    tmp_lits.erase(neg_pivot_index + tmp_lits.begin());
+      if (pivot == LIT_UNDEF || cl.lits[i] != ~pivot)
+        binary_insert(tmp_lits, cl.lits[i]);
   }
 
   if(tmp_lits.size() != c.size) {
-- 
2.43.0


From b939baa128e175452acabbbcb3d29b76bfea62c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 29/40] fix: removing root literals follows the literals of
 their reasons; a proof without the empty clause is rejected

---
 src/proof/proof.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index c609f73..e72d474 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -242,16 +242,14 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
   assert(clause_matches[id] != 0xFFFFFFFF);
   clause &c = clauses[clause_matches[id]];
 
-  Tlit* end = c.lits + c.size;
-
-  vector<Tlit> simplified_clause(c.lits, end);
+  vector<Tlit> simplified_clause(c.lits, c.lits + c.size);
 
   start_resolution_chain();
   link_resolution(LIT_UNDEF, id);
 
   unsigned i = root_lit.size();
   while (i > 0) {
-    while (i > 0 && find(c.lits, end, ~root_lit[i-1]) == end) // TODO can use binary search if too slow
+    while (i > 0 && find(simplified_clause.begin(), simplified_clause.end(), ~root_lit[i-1]) == simplified_clause.end()) // TODO can use binary search if too slow
       i--;
     if (i == 0)
       break;
@@ -260,6 +258,11 @@ void resolution_proof::remove_root_literals(napsat::Tclause id)
     apply_resolution(simplified_clause, clause_matches[root_reason[i-1]], ~root_lit[i-1]);
     i--;
   }
+  if (current_resolution_chain.size() == 1) {
+    // there is nothing to remove
+    cancel_resolution_chain();
+    return;
+  }
   // this is tricky because we want to replace the clause id with the new one.
   // this is why we need to delete it
   deactivate_clause(id);
@@ -275,7 +278,10 @@ void resolution_proof::deactivate_clause(napsat::Tclause id)
 
 bool resolution_proof::check_proof(void)
 {
-  assert(empty_clause_id != 0xFFFFFFFF);
+  if (empty_clause_id == 0xFFFFFFFF) {
+    LOG_ERROR("The proof does not contain the empty clause");
+    return false;
+  }
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
   while(!clauses_to_check.empty()) {
-- 
2.43.0


From 226984a08388a8cbbb1a2062822d94388bb8f9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 30/40] fix: lazy chunk merging keeps backtrack possibilities
 that already undo a missed implication

With several conflicts, a possibility containing a reimplied chunk and a chunk
of its missed implication was dropped, so that UNSAT was answered for
satisfiable clause sets (-gb -lcm, clauses added to a solved set).
---
 src/solver/NapSAT-conflict.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 2ac15ba..7798389 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -102,12 +102,14 @@ void NapSAT::compute_lazy_merge_chunk_combination(vector<bitset>& combinations,
       merged_chunks -= _locked_chunks;
     }
 
+    if (current.has_intersection(merged_chunks)) {
+      // the missed implication is already undone, nothing to add for this chunk
+      compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, current, next_process);
+      return;
+    }
+
     for (auto j = merged_chunks.cbegin(); j != merged_chunks.cend(); ++j) {
       Tchunk c2 = *j;
-      if (current.get(c2)) {
-        // we already have this chunk, any further combination will be subsumed
-        continue;
-      }
       bitset next_current = current;
       next_current.set(c2, true);
       compute_lazy_merge_chunk_combination(combinations, mergeable_chunks, next_current, next_process);
-- 
2.43.0


From 9f6d0b457faef11e2b6c6f68b5a2c773d9e578bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 31/40] fix: restarts keep the assumptions

restart() undid the decisions of the assumptions (while they stayed locked), so
that models contradicting the assumptions were reported.
---
 src/solver/NapSAT.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 257128e..0490c6b 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -68,7 +68,17 @@ void NapSAT::restart()
   NOTIFY_STAT(_n_restart);
   if (_options.graph_backtracking) {
     unsigned tmp = _n_propagated_lits;
-    backtrack(LEVEL_ROOT);
+    if (_n_assumptions > 0) {
+      // the assumptions cannot be backtracked
+      bitset chunks(_n_allocated_chunks);
+      for (Tlevel level = 1; level <= solver_level(); level++)
+        chunks |= lit_chunks(decision_lit(level));
+      chunks -= _locked_chunks;
+      if (!chunks.empty())
+        backtrack(chunks);
+    } else {
+      backtrack(LEVEL_ROOT);
+    }
     _n_propagated_lits = min(tmp, _n_propagated_lits);
     size_t i = _trail.size();
     while (i > 0) {
-- 
2.43.0


From 636cc20b7eecdf2c54cd2c611d765b26ff01d888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 32/40] fix: assumptions stay decisions under eager chunk
 merging and are released when they become root literals

---
 src/solver/NapSAT-imply.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index ff5352d..8108f96 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -153,6 +153,8 @@ void napsat::NapSAT::reimply_literal_root(Tlit lit, Tclause reason)
   // if the literal is a decision, we will need to update the decision index
   bool squash_level = lit_decision(lit);
   if (squash_level && _options.graph_backtracking) {
+    if (lit_locked(lit))
+      lit_unlock(lit);
     // we need to free the chunk of the decision
     ASSERT(lit_chunks(lit).count() == 1);
     Tchunk ck = *lit_chunks(lit).cbegin();
@@ -331,7 +333,8 @@ void NapSAT::reimply_literal(Tlit c2, Tclause reason)
     return;
   }
 
-  if (_options.eager_chunk_merging) {
+  // assumptions stay decisions
+  if (_options.eager_chunk_merging && !lit_locked(c2)) {
     ASSERT(lit_lazy_reason(c2) == CLAUSE_UNDEF);
     eager_decision_reimplication(c2, reason);
     return;
-- 
2.43.0


From 0e5bd14aaad048a8a917b1ceae6bdfdbc4d3a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 33/40] fix: adding, failing and forgetting assumptions

An implied literal that is assumed becomes a decision at its position with a
consistent decision index, levels, chunks and cross chunks; conflicts pending
from added clauses are repaired before assuming; rejecting an assumption does
not reset the status; forgetting repairs conflicts only when the assumptions
caused the failure; forgetting the negation of an assumption is refused; the
core lists the assumptions (not their negations) and follows reasons and missed
implications; add_assumption(vector) is implemented; no debug output.
---
 src/solver/NapSAT-assumptions.cpp | 127 +++++++++++++++++-------------
 src/solver/NapSAT-clauses.cpp     |   1 +
 src/solver/NapSAT-conflict.cpp    |   5 +-
 src/solver/NapSAT.hpp             |   6 ++
 4 files changed, 85 insertions(+), 54 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index 41c3801..fa2958a 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -26,6 +26,12 @@ bool NapSAT::assume(Tlit assumption)
     ASSERT(false);
   }
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  // clauses added since the last propagation may be in conflict with the trail
+  if (!_conflicts.empty() && _status != status::UNSAT)
+    repair_conflicts();
+  // nothing can be added to a contradictory set of clauses and assumptions
+  if (_status == status::UNSAT)
+    return false;
   // In CB and NCB, assumptions are added as decisions at the bottom of the trail.
   bool success = true;
   if (_options.graph_backtracking) {
@@ -42,14 +48,17 @@ bool NapSAT::assume(Tlit assumption)
 
 bool NapSAT::add_assumption(const std::vector<Tlit>& assumptions)
 {
-  return false;
+  for (Tlit assumption : assumptions)
+    if (!assume(assumption))
+      return false;
+  return true;
 }
 
 bool NapSAT::forget_assumption(Tlit assumption)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   if (_options.graph_backtracking) {
-    if (!lit_locked(assumption)) {
+    if (!lit_locked(assumption) || !lit_true(assumption)) {
       // the assumption was not added
       return false;
     }
@@ -59,7 +68,8 @@ bool NapSAT::forget_assumption(Tlit assumption)
     _locked_chunks -= lit_chunks(assumption);
     lit_unlock(assumption);
   }
-  if (_status == status::UNSAT) {
+  if (_failed_assumptions) {
+    _failed_assumptions = false;
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -79,7 +89,8 @@ void NapSAT::forget_assumption()
     }
     _locked_chunks.clear();
   }
-  if (_status == status::UNSAT) {
+  if (_failed_assumptions) {
+    _failed_assumptions = false;
     _status = status::UNKNOWN;
     repair_conflicts();
   }
@@ -89,27 +100,34 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
+  vector<Tlit> failed;
+  if (!_failed_assumptions) {
+    // the clauses are contradictory without any assumption
+    return failed;
+  }
   // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding literals.
-  std::vector<Tlit> failed;
-  bitset conflict_chunks(_n_allocated_chunks);
+  // chunks only. Return the corresponding literals. A chunk whose decision is
+  // lazily reimplied stands for the chunks of its missed implication.
   for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
+    bitset conflict_chunks = clause_chunks(conflict);
+    bitset replaced(_n_allocated_chunks);
+    bitset open = conflict_chunks - _locked_chunks;
+    while (!open.empty()) {
+      Tchunk c = *open.cbegin();
+      if (!_chunks[c].is_reimplied)
+        break;
+      replaced.set(c, true);
+      conflict_chunks |= _chunks[c].missed_implication;
+      conflict_chunks -= replaced;
+      open = conflict_chunks - _locked_chunks;
     }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
-      for (unsigned i = 0; i < size; i++) {
-        Tlit lit = lits[i];
-        if (lit_decision(lit) && lit_locked(lit)) {
-          failed.push_back(lit);
-        }
-      }
-      return failed;
+    if (!open.empty())
+      continue;
+    for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
+      Tvar var = _chunks[*it].decision;
+      failed.push_back(Tlit(var, var_value(var)));
     }
+    return failed;
   }
   ASSERT(false);
   return failed;
@@ -237,56 +255,61 @@ void NapSAT::add_assumption_GB_true(Tlit lit)
   _decision_index.resize(_decision_index.size() + 1);
   _decision_index[level] = pos;
 
-  lit_lazy_reason(lit) = lit_reason(lit);
+  if (_options.lazy_chunk_merging)
+    lit_lazy_reason(lit) = lit_reason(lit);
   lit_reason(lit) = CLAUSE_UNDEF;
   NOTIFY(update_reason, lit, CLAUSE_UNDEF);
   lit_level(lit) = level+1;
   NOTIFY(update_level, lit, level+1);
 
-  lit_chunks(lit).clear();
+  if (_free_chunks.empty())
+    allocate_chunks(2 * _n_allocated_chunks);
   unsigned ck = _free_chunks.back();
   _free_chunks.pop_back();
 
+  lit_chunks(lit).clear();
   lit_chunks(lit).set(ck, true);
   _chunks[ck].decision = lit.var();
-  _chunks[ck].missed_implication = lit_chunk;
-  _locked_chunks.set(ck, true);
+  if (_options.lazy_chunk_merging) {
+    _chunks[ck].missed_implication = lit_chunk;
+    _chunks[ck].is_reimplied = true;
+  }
+  _locked_chunks |= lit_chunks(lit);
+
+  // whatever was inspected thanks to the literal (or to its consequences) now
+  // depends on the new chunk
+  for (Tlit l : _trail)
+    if (lit_cross_chunks(l) >= lit_chunk)
+      lit_cross_chunks(l).set(ck, true);
 
   lit_lock(lit);
 
   // update the chunks and levels of all literals above `pos` in the trail
   for (size_t i = pos + 1; i < _trail.size(); i++) {
     Tlit l = _trail[i];
-    // decisions should be updated in the index
-    // we do not need to compute -1 because we are going to increment the level right after
+    Tlevel old_level = lit_level(l);
     if (lit_decision(l)) {
-      _decision_index[lit_level(l)] = i;
-    }
-    // update level
-    if (lit_level(l) >= level) {
       lit_level(l)++;
-      NOTIFY(update_level, l, lit_level(l));
+      _decision_index[lit_level(l) - 1] = i;
+    } else {
+      lit_level(l) = implication_level(lit_reason(l));
+      recompute_chunks(l);
     }
-    // update chunks if necessary
-    if (lit_chunk >= lit_chunks(l)) {
-      Tlevel recomputed_level = LEVEL_ROOT;
-      lit_chunks(l).clear();
-      const Tclause reason = lit_reason(l);
-      ASSERT(reason != CLAUSE_UNDEF);
-      const Tlit* lits = clause_lits(reason);
-      const unsigned size = clause_size(reason);
-      for (unsigned j = 1; j < size; j++) {
-        Tlit rl = lits[j];
-        lit_chunks(l) |= lit_chunks(rl);
-        recomputed_level = std::max(recomputed_level, lit_level(rl));
-      }
-      if (lit_level(l) != recomputed_level) {
-        NOTIFY(update_level, l, recomputed_level);
-      }
-      lit_level(l) = recomputed_level;
-      NOTIFY(update_level, l, recomputed_level);
+    if (lit_level(l) != old_level) {
+      NOTIFY(update_level, l, lit_level(l));
     }
   }
+
+  // the missed implications may depend on the chunk of the literal
+  for (TSchunk& chunk : _chunks) {
+    if (!chunk.is_reimplied)
+      continue;
+    Tclause missed = _vars[chunk.decision].missed_lower_implication;
+    chunk.missed_implication.clear();
+    for (unsigned i = 1; i < clause_size(missed); i++)
+      chunk.missed_implication |= lit_chunks(clause_lits(missed)[i]);
+  }
+  ASSERT(check_decision_index_consistency());
 }
 
 bool NapSAT::add_assumption_GB_false(Tlit lit)
@@ -303,7 +326,6 @@ bool NapSAT::add_assumption_GB_false(Tlit lit)
 bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
 {
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
-  _status = status::UNKNOWN;
   ASSERT(!lits.empty());
   ASSERT(_options.graph_backtracking);
   ASSERT(all_of(lits.begin(), lits.end(),
@@ -320,7 +342,6 @@ bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
   }
   vector<bitset> possibilities;
   compute_backtrack_possibilities(possibilities);
-  cout << "Found " << possibilities.size() << " possibilities to backtrack to in order to add assumptions." << endl;
   if (possibilities.empty()) {
     return false;
   }
@@ -337,7 +358,7 @@ bool NapSAT::add_assumption_GB_false(std::vector<Tlit>& lits)
   calculate_bitset_weights(weights);
   const Tweight& best = weights.back();
 
-  cout << "Removing chunks " << best.chunks.to_string() << " to add assumptions with weight " << best.total_weight << endl;
+  _status = status::UNKNOWN;
   backtrack(best.chunks);
 
   for (Tlit l : lits) {
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index a1d68e1..028fa65 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -251,6 +251,7 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
   }
 
   if (clause.size == 0) {
+    _failed_assumptions = false;
     _status = status::UNSAT;
     return id;
   }
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 7798389..4ae5c18 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -431,6 +431,7 @@ bool NapSAT::root_level_conflict()
   for (Tclause conflict : _conflicts) {
     if (clause_level(conflict) == LEVEL_ROOT) {
       // the conflict cannot be repaired
+      _failed_assumptions = false;
       _status = status::UNSAT;
       if (_proof) {
         _proof->start_resolution_chain();
@@ -1303,6 +1304,7 @@ void NapSAT::graph_repair()
     if (_n_assumptions > 0) {
       _conflicts_chunks.back() -= _locked_chunks;
       if (_conflicts_chunks.back().empty()) { // conflict cannot be solved
+        _failed_assumptions = true;
         _status = status::UNSAT;
         return;
       }
@@ -1313,7 +1315,8 @@ void NapSAT::graph_repair()
 
   if (possibilities.empty()) {
     // we cannot repair the conflicts
-    if (_proof)
+    _failed_assumptions = _n_assumptions > 0;
+    if (_proof && !_failed_assumptions)
       prove_root_conflict_with_lazy_merging();
     _status = status::UNSAT;
     return;
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index f48082a..f60e2ae 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1033,6 +1033,12 @@ public:
      */
     bitset _locked_chunks;
 
+    /**
+     * @brief True when the status is UNSAT because of the assumptions. The
+     * conflicts are kept, and are repaired when assumptions are forgotten.
+     */
+    bool _failed_assumptions = false;
+
     /**  PROOFS  **/
     /**
      * @brief Proof builder of the solver. If _proof is not nullptr, the solver
-- 
2.43.0


From e743c63346bf2b811a152663b19832580cef9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 34/40] fix: a rejected proof stays rejected when it is checked
 again

---
 src/proof/proof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/proof/proof.cpp b/src/proof/proof.cpp
index e72d474..1b54272 100644
--- a/src/proof/proof.cpp
+++ b/src/proof/proof.cpp
@@ -284,12 +284,12 @@ bool resolution_proof::check_proof(void)
   }
   vector<unsigned> clauses_to_check;
   clauses_to_check.push_back(empty_clause_id);
-  while(!clauses_to_check.empty()) {
+  bool valid = true;
+  while(valid && !clauses_to_check.empty()) {
     unsigned index = clauses_to_check.back();
     clauses[index].marked = true;
     clauses_to_check.pop_back();
-    if (!check_resolution_chain(index))
-      return false;
+    valid = check_resolution_chain(index);
     clause &c = clauses[index];
     for (pair<Tlit, unsigned> link : c.resolution_chain)
       if (!clauses[link.second].marked)
@@ -297,7 +297,7 @@ bool resolution_proof::check_proof(void)
   }
   for (unsigned i = 0; i < clauses.size(); i++)
     clauses[i].marked = false;
-  return true;
+  return valid;
 }
 
 bool resolution_proof::check_tautology(Tlit* lits, unsigned size)
-- 
2.43.0


From 558d799124de4801c8bc9c4c972643a19f108198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 35/40] fix: suggested polarities are followed by decisions

---
 src/solver/NapSAT-imply.cpp | 1 +
 src/solver/NapSAT.cpp       | 2 ++
 src/solver/NapSAT.hpp       | 9 ++++++++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-imply.cpp b/src/solver/NapSAT-imply.cpp
index 8108f96..deb6c29 100644
--- a/src/solver/NapSAT-imply.cpp
+++ b/src/solver/NapSAT-imply.cpp
@@ -58,6 +58,7 @@ void NapSAT::imply_literal(Tlit lit, Tclause reason)
 
   if (reason == CLAUSE_UNDEF) {
     // Decision
+    svar.suggested = Tval::UNDEF;
     _decision_index.push_back(_trail.size() - 1);
     svar.level = solver_level();
     NOTIFY(assign, lit);
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index 0490c6b..cdce1f1 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -509,6 +509,8 @@ bool NapSAT::decide()
   // Tlit lit = literal(var, value);
   // Tlit lit = literal(var, false);
   Tlit lit = Tlit(var, _vars[var].synced);
+  if (_vars[var].suggested != Tval::UNDEF)
+    lit = Tlit(var, _vars[var].suggested);
   imply_literal(lit, CLAUSE_UNDEF);
   return true;
 }
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index f60e2ae..c6b5bbe 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -479,7 +479,7 @@ namespace napsat
     {
       Tvar var = lit.var();
       ASSERT(var < _vars.size());
-      _vars[var].phase_cache = polarity ? 1 : 0;
+      _vars[var].suggested = polarity ? Tval::TRUE : Tval::FALSE;
     }
 
     void set_weight_function(std::function<double(Tlit)> func) {
@@ -538,6 +538,7 @@ public:
         state(Tval::UNDEF),
         phase_cache(0),
         synced(0),
+        suggested(Tval::UNDEF),
         constrained(0),
         locked(0)
       {}
@@ -602,6 +603,12 @@ public:
        */
       unsigned synced : 1;
 
+      /**
+       * @brief Suggested polarity of the next decision on the variable, or
+       * UNDEF if there is none.
+       */
+      Tval suggested : 2;
+
       /**
        * @brief True if at least one clause constraints this variable.
        */
-- 
2.43.0


From 0d0073333e800b89fae0d6e89a816f19b46de07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 36/40] fix: undone decisions on ignored variables do not
 become candidates

---
 src/solver/NapSAT-backtrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/NapSAT-backtrack.cpp b/src/solver/NapSAT-backtrack.cpp
index fbe9ffa..1559290 100644
--- a/src/solver/NapSAT-backtrack.cpp
+++ b/src/solver/NapSAT-backtrack.cpp
@@ -30,7 +30,7 @@ void NapSAT::var_unassign(Tvar var)
   if (v.missed_lower_implication != CLAUSE_UNDEF) {
     v.missed_lower_implication = CLAUSE_UNDEF;
   }
-  if (!_variable_heap.contains(var))
+  if (var_constrained(var) && !_variable_heap.contains(var))
     _variable_heap.insert(var, v.activity);
 
   if (_options.graph_backtracking) {
-- 
2.43.0


From 09c1e6813813bb3625c4c4fb39db86536f176dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 37/40] fix: clauses added to a contradictory set do not turn
 it into failed assumptions

---
 src/solver/NapSAT-conflict.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index 4ae5c18..b01e026 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -959,6 +959,10 @@ void NapSAT::fix_watched_literals(Tclause conflict)
 
 void NapSAT::repair_conflicts()
 {
+  if (_status == status::UNSAT && !_failed_assumptions) {
+    // the clauses are contradictory without any assumption
+    return;
+  }
   synchronize();
   NOTIFY_STAT(_n_conflict_repair);
   auto start = chrono::high_resolution_clock::now();
-- 
2.43.0


From 7ed48818acc2c25b92dd6d1133dc35d2f0519e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 38/40] fix: clause cores with --record-dependencies

---
 src/solver/NapSAT-assumptions.cpp | 113 ++++++++++++++----------------
 src/solver/NapSAT-clauses.cpp     |  17 ++---
 src/solver/NapSAT-conflict.cpp    |  17 ++---
 src/solver/NapSAT-purge.cpp       |   5 +-
 src/solver/NapSAT.cpp             |  17 +++++
 src/solver/NapSAT.hpp             |  25 +++++++
 6 files changed, 115 insertions(+), 79 deletions(-)

diff --git a/src/solver/NapSAT-assumptions.cpp b/src/solver/NapSAT-assumptions.cpp
index fa2958a..e3e8af1 100644
--- a/src/solver/NapSAT-assumptions.cpp
+++ b/src/solver/NapSAT-assumptions.cpp
@@ -96,6 +96,26 @@ void NapSAT::forget_assumption()
   }
 }
 
+bool napsat::NapSAT::conflict_cannot_be_solved(Tclause conflict, bitset& conflict_chunks) const
+{
+  bitset locked(_n_allocated_chunks);
+  if (_failed_assumptions)
+    locked |= _locked_chunks;
+  conflict_chunks = clause_chunks(conflict);
+  bitset replaced(_n_allocated_chunks);
+  bitset open = conflict_chunks - locked;
+  while (!open.empty()) {
+    Tchunk c = *open.cbegin();
+    if (!_chunks[c].is_reimplied)
+      return false;
+    replaced.set(c, true);
+    conflict_chunks |= _chunks[c].missed_implication;
+    conflict_chunks -= replaced;
+    open = conflict_chunks - locked;
+  }
+  return true;
+}
+
 std::vector<Tlit> napsat::NapSAT::unsat_core() const
 {
   ASSERT(_status == status::UNSAT);
@@ -108,20 +128,9 @@ std::vector<Tlit> napsat::NapSAT::unsat_core() const
   // look at each conflict clause, and find the ones that are failed by locked
   // chunks only. Return the corresponding literals. A chunk whose decision is
   // lazily reimplied stands for the chunks of its missed implication.
+  bitset conflict_chunks(_n_allocated_chunks);
   for (const Tclause conflict : _conflicts) {
-    bitset conflict_chunks = clause_chunks(conflict);
-    bitset replaced(_n_allocated_chunks);
-    bitset open = conflict_chunks - _locked_chunks;
-    while (!open.empty()) {
-      Tchunk c = *open.cbegin();
-      if (!_chunks[c].is_reimplied)
-        break;
-      replaced.set(c, true);
-      conflict_chunks |= _chunks[c].missed_implication;
-      conflict_chunks -= replaced;
-      open = conflict_chunks - _locked_chunks;
-    }
-    if (!open.empty())
+    if (!conflict_cannot_be_solved(conflict, conflict_chunks))
       continue;
     for (auto it = conflict_chunks.cbegin(); it != conflict_chunks.cend(); ++it) {
       Tvar var = _chunks[*it].decision;
@@ -138,66 +147,50 @@ std::vector<Tclause> napsat::NapSAT::clause_unsat_core()
   ASSERT(_status == status::UNSAT);
   ASSERT(_options.graph_backtracking, "Only implemented for graph backtracking.");
   ASSERT(_dependency_tracker, "Clause unsat core requires a dependency tracker.");
-  // look at each conflict clause, and find the ones that are failed by locked
-  // chunks only. Return the corresponding clauses.
-  std::set<Tclause> failed;
+  std::set<Tclause> core;
+
+  if (_empty_clause != CLAUSE_UNDEF) {
+    // the empty clause was derived
+    core = _dependency_tracker->get_dependencies(_empty_clause);
+    return std::vector<Tclause>(core.begin(), core.end());
+  }
 
   // search the conflict that is responsible for the UNSAT
   bitset conflict_chunks(_n_allocated_chunks);
   Tclause conflict_clause = CLAUSE_UNDEF;
   for (const Tclause conflict : _conflicts) {
-    const Tlit* lits = clause_lits(conflict);
-    const unsigned size = clause_size(conflict);
-    conflict_chunks.clear();
-    for (unsigned i = 0; i < size; i++) {
-      conflict_chunks |= lit_chunks(lits[i]);
-    }
-    if (conflict_chunks <= _locked_chunks) {
-      // all chunks in the conflict are locked, the assumption failed
+    if (conflict_cannot_be_solved(conflict, conflict_chunks)) {
       conflict_clause = conflict;
       break;
     }
   }
-
-  // now perform some sort of conflict analysis to find all clauses in the unsat core
-  const set<Tclause>& dependecies = _dependency_tracker->get_dependencies(conflict_clause);
-  failed.insert(dependecies.begin(), dependecies.end());
-
-  // mark all literals in the conflict clause
-  ASSERT(all_of(_vars.begin(), _vars.end(), [](const TSvar& var) { return !var.marked; }));
-  const Tlit* lits = clause_lits(conflict_clause);
-  const unsigned size = clause_size(conflict_clause);
-  for (unsigned i = 0; i < size; i++)
-    lit_mark(lits[i]);
-
-  // perform a reverse traversal of the trail
-  for (size_t i = _trail.size(); i-- > 0;) {
-    Tlit lit = _trail[i];
-    if (!lit_marked(lit)) {
+  ASSERT(conflict_clause != CLAUSE_UNDEF);
+
+  // collect the conflict and the reasons of its literals. A decision that is
+  // not an assumption is implied by its missed implication.
+  std::set<Tclause> visited;
+  std::vector<Tclause> to_visit = {conflict_clause};
+  while (!to_visit.empty()) {
+    Tclause cl = to_visit.back();
+    to_visit.pop_back();
+    if (!visited.insert(cl).second)
       continue;
+    const set<Tclause>& deps = _dependency_tracker->get_dependencies(cl);
+    core.insert(deps.begin(), deps.end());
+    const Tlit* lits = clause_lits(cl);
+    for (unsigned i = 0; i < clause_size(cl); i++) {
+      Tclause reason = lit_reason(lits[i]);
+      if (lit_decision(lits[i])) {
+        if (_failed_assumptions && lit_locked(lits[i]))
+          continue;
+        reason = lit_lazy_reason(lits[i]);
+      }
+      ASSERT(reason != CLAUSE_UNDEF);
+      to_visit.push_back(reason);
     }
-    lit_unmark(lit);
-    Tclause reason = lit_reason(lit);
-    ASSERT(reason != CLAUSE_UNDEF || lit_locked(lit));
-
-    if (lit_locked(lit)) {
-      // the literal is an assumption, nothing to do
-      continue;
-    }
-
-    // add the reason clause to the unsat core
-    const set<Tclause>& deps = _dependency_tracker->get_dependencies(reason);
-    failed.insert(deps.begin(), deps.end());
-    // mark all literals in the reason clause
-    const Tlit* rlits = clause_lits(reason);
-    const unsigned rsize = clause_size(reason);
-    for (unsigned j = 0; j < rsize; j++)
-      lit_mark(rlits[j]);
   }
 
-  std::vector<Tclause> to_return(failed.begin(), failed.end());
-  std::sort(to_return.begin(), to_return.end());
-  return to_return;
+  return std::vector<Tclause>(core.begin(), core.end());
 }
 
 bool NapSAT::add_assumption_N_CB(Tlit lit)
diff --git a/src/solver/NapSAT-clauses.cpp b/src/solver/NapSAT-clauses.cpp
index 028fa65..8140234 100644
--- a/src/solver/NapSAT-clauses.cpp
+++ b/src/solver/NapSAT-clauses.cpp
@@ -242,16 +242,14 @@ Tclause napsat::NapSAT::internal_add_clause(const Tlit* lits_input,
       _dependency_tracker->add_input(id);
     // Remove the literals falsified at level 0 in the dependencies
     if (n_removed > 0) {
-      for (unsigned i = 0; i < input_size; i++) {
-        if (lit_level(lits_input[i]) == LEVEL_ROOT) {
-          _dependency_tracker->link_dependencies(id, lit_reason(lits_input[i]));
-        }
-      }
+      for (Tclause reason : root_reasons(lits_input, input_size))
+        _dependency_tracker->link_dependencies(id, reason);
     }
   }
 
   if (clause.size == 0) {
     _failed_assumptions = false;
+    _empty_clause = id;
     _status = status::UNSAT;
     return id;
   }
@@ -352,17 +350,20 @@ void napsat::NapSAT::delete_clause(Tclause cl)
   // If the clause is the reason for a literal, it cannot be deleted
   ASSERT(cl < _clauses.size());
   ASSERT(!_clauses[cl].deleted);
-  ASSERT(!_dependency_tracker || !_clauses[cl].external);
   TSclause &clause = _clauses[cl];
   ASSERT(!is_protected(cl));
   _n_learned_clauses -= _clauses[cl].learned;
   clause.deleted = true;
   clause.watched = false;
-  _deleted_clauses.push_back(cl);
+  // learned clauses may depend on the input clauses, so their identifiers cannot
+  // be reused if the dependencies are tracked
+  bool keep_id = _dependency_tracker && clause.external;
+  if (!keep_id)
+    _deleted_clauses.push_back(cl);
   NOTIFY(delete_clause, cl);
   if(_proof)
     _proof->deactivate_clause(cl);
-  if (_dependency_tracker)
+  if (_dependency_tracker && !keep_id)
     _dependency_tracker->delete_clause(cl);
 }
 
diff --git a/src/solver/NapSAT-conflict.cpp b/src/solver/NapSAT-conflict.cpp
index b01e026..4133a4d 100644
--- a/src/solver/NapSAT-conflict.cpp
+++ b/src/solver/NapSAT-conflict.cpp
@@ -850,12 +850,8 @@ void NapSAT::analyze_conflict_impl(T level) {
   if (_proof)
     prove_root_literal_removal(_lit_buffer, _lit_buffer_size);
   if (_dependency_tracker) {
-    for (unsigned i = 0; i < _lit_buffer_size; i++) {
-      Tlit lit = _lit_buffer[i];
-      if (lit_level(lit) == LEVEL_ROOT) {
-        _dependency_tracker->track_dependency(lit_reason(lit));
-      }
-    }
+    for (Tclause reason : root_reasons(_lit_buffer, _lit_buffer_size))
+      _dependency_tracker->track_dependency(reason);
   }
 
   unsigned k = 0;
@@ -1197,8 +1193,10 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
       _proof->start_resolution_chain();
       _proof->link_resolution(LIT_UNDEF, conflict);
     }
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
       _dependency_tracker->start_tracking();
+      _dependency_tracker->track_dependency(conflict);
+    }
 
     T bt_save = bt;
     do {
@@ -1279,10 +1277,13 @@ void NapSAT::try_and_learn_impl(T bt, vector<pair<Tclause, vector<Tlit>>>& learn
     learned_clauses.push_back({id, learned_clause});
     if (_proof)
       _proof->finalize_resolution(id, learned_clause.data(), learned_clause.size());
-    if (_dependency_tracker)
+    if (_dependency_tracker) {
+      _dependency_tracker->add_learned(id);
       _dependency_tracker->finalize_tracking(id);
+    }
 
     if (_lit_buffer_size == 0) {
+      _empty_clause = id;
       _status = status::UNSAT;
       return;
     }
diff --git a/src/solver/NapSAT-purge.cpp b/src/solver/NapSAT-purge.cpp
index 22934cd..46e31ca 100644
--- a/src/solver/NapSAT-purge.cpp
+++ b/src/solver/NapSAT-purge.cpp
@@ -218,9 +218,8 @@ void napsat::NapSAT::purge_clauses()
       _proof->finalize_resolution(cl, lits, clause.size);
     }
     if (_dependency_tracker && previous_size != clause.size) {
-      for (unsigned j = clause.size; j < previous_size; j++) {
-        _dependency_tracker->link_dependencies(cl, lit_reason(clause.lits[j]));
-      }
+      for (Tclause reason : root_reasons(clause.lits + clause.size, previous_size - clause.size))
+        _dependency_tracker->link_dependencies(cl, reason);
     }
 
     if (clause.size == 2) {
diff --git a/src/solver/NapSAT.cpp b/src/solver/NapSAT.cpp
index cdce1f1..2b347e6 100644
--- a/src/solver/NapSAT.cpp
+++ b/src/solver/NapSAT.cpp
@@ -22,6 +22,23 @@
 using namespace napsat;
 using namespace std;
 
+std::set<Tclause> napsat::NapSAT::root_reasons(const Tlit* lits, unsigned size) const
+{
+  std::set<Tclause> reasons;
+  std::vector<Tlit> to_visit(lits, lits + size);
+  while (!to_visit.empty()) {
+    Tlit lit = to_visit.back();
+    to_visit.pop_back();
+    if (lit_level(lit) != LEVEL_ROOT)
+      continue;
+    Tclause reason = lit_reason(lit);
+    ASSERT(reason != CLAUSE_UNDEF);
+    if (reasons.insert(reason).second)
+      to_visit.insert(to_visit.end(), clause_lits(reason), clause_lits(reason) + clause_size(reason));
+  }
+  return reasons;
+}
+
 void napsat::NapSAT::prove_root_literal_removal(Tlit* lits, unsigned size)
 {
   ASSERT(_proof);
diff --git a/src/solver/NapSAT.hpp b/src/solver/NapSAT.hpp
index c6b5bbe..1a1bc36 100644
--- a/src/solver/NapSAT.hpp
+++ b/src/solver/NapSAT.hpp
@@ -1060,6 +1060,11 @@ public:
      */
     napsat::proof::dependency_tracker* _dependency_tracker = nullptr;
 
+    /**
+     * @brief Identifier of the empty clause if it was derived.
+     */
+    Tclause _empty_clause = CLAUSE_UNDEF;
+
     /**  SMT SYNCHRONIZATION  **/
     /**
      * @brief Position of the last literal on the trail that was left unchanged
@@ -2379,6 +2384,26 @@ public:
      */
     void prove_root_literal_removal(Tlit* lits, unsigned size);
 
+    /**
+     * @brief Returns the clauses that imply the literals of the list assigned
+     * at level 0, that is, their reasons and, transitively, the reasons of the
+     * literals of these.
+     * @param lits a list of literals
+     * @param size size of the list
+     */
+    std::set<Tclause> root_reasons(const Tlit* lits, unsigned size) const;
+
+    /**
+     * @brief Returns true if undoing decisions that are not assumptions cannot
+     * solve the conflict.
+     * @param conflict a falsified clause
+     * @param conflict_chunks set to the chunks of the assumptions that falsify
+     * the clause if the function returns true. A chunk whose decision is lazily
+     * reimplied stands for the chunks of its missed implication.
+     * @pre graph backtracking is enabled
+     */
+    bool conflict_cannot_be_solved(Tclause conflict, bitset& conflict_chunks) const;
+
     /**
      * @brief Restarts the solver by resetting the trail
      * @post The trail only contains literals that are assigned at level 0
-- 
2.43.0


From 944355b23bb6b96a2ea8fd5a3b1d6a92885f3dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:11 +0000
Subject: [PATCH 39/40] fix: truncated xz files are refused and the decoder is
 released

A file that ends before the end of the stream was accepted as the clauses
read so far; the memory of the decoder was never released.
---
 src/utils/decoder.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index ba96cc4..74d87fd 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -108,6 +108,7 @@ bool decompress_xz(const char* filename, ostringstream& output)
   ifstream file(filename, ios::binary);
   if (!file.is_open()) {
     LOG_ERROR("could not open file " << filename);
+    lzma_end(&strm);
     return false;
   }
   unsigned const buff_size = 256;
@@ -116,21 +117,23 @@ bool decompress_xz(const char* filename, ostringstream& output)
 
   do {
     strm.avail_in = file.readsome(buffer_in, sizeof(buffer_in));
-    if (strm.avail_in == 0)
-      break;
+    // at the end of the file, the decoder has to tell whether the data is complete
+    lzma_action action = strm.avail_in == 0 ? LZMA_FINISH : LZMA_RUN;
     strm.next_in = reinterpret_cast<const uint8_t*>(buffer_in);
     do {
       strm.avail_out = sizeof(buffer_out);
       strm.next_out = reinterpret_cast<uint8_t*>(buffer_out);
-      ret = lzma_code(&strm, LZMA_RUN);
+      ret = lzma_code(&strm, action);
       if (ret != LZMA_OK && ret != LZMA_STREAM_END) {
         print_error_message(ret);
+        lzma_end(&strm);
         return false;
       }
       output.write(buffer_out, sizeof(buffer_out) - strm.avail_out);
-    } while (strm.avail_out == 0);
+    } while (strm.avail_out == 0 && ret != LZMA_STREAM_END);
   } while (ret != LZMA_STREAM_END);
   LOG_INFO("Total Decompressed " << byte_size_to_string(strm.total_in) << " to " << byte_size_to_string(strm.total_out));
+  lzma_end(&strm);
 
   return true;
 }
-- 
2.43.0


From e116896fef1f18f18716ae5f07c73707fd8f9e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 40/40] fix: compressed files of several streams are read
 completely

bzip2 (pbzip2, concatenated files) and xz files may consist of several
streams; only the first one was read and the clauses of the others were lost.
---
 src/utils/decoder.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utils/decoder.cpp b/src/utils/decoder.cpp
index 74d87fd..ab93bba 100644
--- a/src/utils/decoder.cpp
+++ b/src/utils/decoder.cpp
@@ -100,7 +100,7 @@ static string byte_size_to_string(uint64_t n_bytes) {
 bool decompress_xz(const char* filename, ostringstream& output)
 {
   lzma_stream strm = LZMA_STREAM_INIT;
-  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, 0);
+  lzma_ret ret = lzma_stream_decoder(&strm, UINT64_MAX, LZMA_CONCATENATED);
   if (ret != LZMA_OK) {
     LOG_ERROR("failed to initialize the decompression stream");
     return false;
@@ -161,6 +161,24 @@ bool decompress_bz2(const char* filename, std::ostringstream& output)
         if (bytesRead > 0) {
             output.write(buffer, bytesRead);
         }
+        if (bzError != BZ_STREAM_END)
+            continue;
+        // another stream may follow, starting with the bytes already read from the file
+        void* unused = nullptr;
+        int nUnused = 0;
+        BZ2_bzReadGetUnused(&bzError, bzFile, &unused, &nUnused);
+        string next(static_cast<const char*>(unused), nUnused);
+        if (next.empty()) {
+            int c = fgetc(file);
+            if (c == EOF) {
+                bzError = ferror(file) ? BZ_IO_ERROR : BZ_STREAM_END;
+                break;
+            }
+            next.push_back(static_cast<char>(c));
+        }
+        int closeError;
+        BZ2_bzReadClose(&closeError, bzFile);
+        bzFile = BZ2_bzReadOpen(&bzError, file, 0, 0, next.data(), next.size());
     }
 
     bool success = (bzError == BZ_STREAM_END);
-- 
2.43.0

