#pragma once
#include "expr.hpp"
typedef std::shared_ptr<Model> ModelPtr;
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, domainHits=0, modelHits=0; double time=0, maxTime=0; };
extern SolverStats SS;
extern int queryTimeoutMs;
extern std::string dumpDir;
// Decide the conjunction; on SAT fills values for the variables that occur in it.
Res z3check(const std::vector<E>& cs, std::vector<std::pair<u32,u128>>* out);
