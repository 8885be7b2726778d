#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <vector>

typedef std::unordered_map<u32, u128> Model; // symbol id -> value (absent = 0)

struct SolverStats {
  u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0;
  double time = 0, maxq = 0;
};
extern SolverStats g_ss;
extern bool g_solverUnknown;

enum Res { SAT, UNSAT, UNKNOWN };
// Is the conjunction of the (sliced) constraints and q satisfiable?
Res solve(const std::vector<E> &constraints, E q, Model *out);
// A model of the constraints that share symbols (transitively) with e.
Res solveSlice(const std::vector<E> &constraints, E e, Model *out);
u128 evalE(E e, const Model &m);
Model fullModel(const std::vector<E> &constraints, E extra);
void solverInit(unsigned timeoutMs);
