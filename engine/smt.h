#pragma once
#include "expr.h"
struct SolveStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, us = 0; };
extern SolveStats gStats;
// 1 sat (model updated for the symbols of the slice), 0 unsat, -1 unknown
int smtCheck(const std::vector<Expr*>& cons, Expr* cond, std::vector<u64>& model);
void smtInit();
