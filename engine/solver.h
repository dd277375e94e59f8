// SMT back end: z3 in process, with z3-new / cvc5 as external fall-backs.
#pragma once
#include "expr.h"
#include <string>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, external = 0, unknown = 0, sat = 0, unsat = 0; double time = 0, maxTime = 0; };
extern SolverStats gSS;
struct SolverCfg { unsigned rlimit1 = 400000; unsigned rlimit2 = 20000000; int extTimeout = 60; std::string dumpDir; double dumpT = 5; bool verbose = false; bool crossCheck = false; };
extern SolverCfg gSC;
// Decide the conjunction. On Sat, out maps every variable occurring in cs.
Res solveConj(const std::vector<Expr *> &cs, Model &out);
std::string toSmt2(const std::vector<Expr *> &cs);
std::string toInt2(const std::vector<Expr *> &cs);
