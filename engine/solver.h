// Z3 back end: satisfiability of (slice of path condition) && extra.
#pragma once
#include "expr.h"
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { uint64_t queries, sat, unsat, unknown, us; };
extern SolverStats SST;
extern unsigned SOLVER_TIMEOUT_MS;
Res solve(const std::vector<E> &cs, Model &out); // conjunction of all cs; out updated for the vars occurring
std::string toSmt(E e);
