// Interface between a harness and the symbolic executor (engine/nsx.cpp) or the
// native replay runtime (runtime/native.cpp).
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t nsx_sym(const char* name, uint64_t lo, uint64_t hi);   // fresh unknown in [lo,hi]
void nsx_assume(int c);
void nsx_assert(int c, const char* what);
void nsx_reach(const char* tag);                                // reachability witness
void nsx_observe(const char* tag, uint64_t v);                  // compared between engine and native run
uint64_t nsx_concretize(uint64_t v);                            // case split on every feasible value
uint64_t nsx_param(const char* name, uint64_t dflt);            // bound chosen by the driver
int nsx_engine(void);                                           // 1 under the symbolic executor
void nsx_set_file(const char* text);                            // text returned for any opened file
void nsx_capture(int on);                                       // start (empty) / stop collecting the text written to std::cout
const char* nsx_captured(void);
uint64_t nsx_leaks(void);                                       // live heap blocks (engine only; 0 natively)
#ifdef __cplusplus
}
#endif
