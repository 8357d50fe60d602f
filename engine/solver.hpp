#pragma once
#include "expr.hpp"
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct Shared; // global shared counters, in main
struct Model { std::vector<u8> v; }; // value per variable id
extern Model model; extern u32 modelVer;
extern std::vector<E> PC; // path condition (1-bit exprs)
void solverInit(unsigned timeoutMs);
u128 evalModel(E e);
// is PC & c satisfiable? on SAT fills out (full model, vars outside the slice keep the current model values)
Res checkSat(E c, Model* out);
void addPC(E c);
extern u64 statQueries, statQueriesSat, statQueriesUnsat, statQueriesUnknown, statCacheHits; extern double statSolverTime, statMaxQuery;

extern bool useSat; extern u64 satBudget, crossEvery, statCross, statSatCalls, statSatFallback; extern u32 verCounter;

void solverRollback(u32 oldN, u32 newN); void blastRollback(u32 oldN, u32 newN);
