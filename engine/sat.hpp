// Small incremental CDCL SAT solver and bit-blaster used for the many small branch-feasibility queries.
// SAT answers are re-evaluated on the expressions; UNSAT answers are cross-checked against z3 (see solver.cpp).
#pragma once
#include "expr.hpp"
typedef int Lit; // 2*var + sign ; var 0 is the constant TRUE
struct Sat {
  struct Cl { u32 off; };
  std::vector<u32> db;                       // clause arena: [size | learnt<<31][activity/lbd][lits...]
  std::vector<u32> learnts; std::vector<std::vector<std::pair<u32, Lit>>> watches; // per literal: (clause ref, blocker)
  std::vector<signed char> assign;           // per var: 0 unassigned, 1 true, -1 false
  std::vector<signed char> phase; std::vector<int> level; std::vector<u32> reason; std::vector<Lit> trail; std::vector<int> trailLim; size_t qhead = 0;
  std::vector<double> act; double inc = 1.0; std::vector<int> heap, hpos; std::vector<u8> seen; std::vector<u32> relevant; u32 relStamp = 0; bool okay = true; u64 conflicts = 0, props = 0;
  int newVar(); bool addClause(std::vector<Lit> ls); int val(Lit l) const { signed char a = assign[l >> 1]; return (l & 1) ? -a : a; }
  int solve(const std::vector<Lit>& assumps, u64 budget); // 1 sat, 0 unsat, 2 unknown ; assignment is left in place until cancel(0)
  void cancel(int lvl);
private:
  void attach(u32 c); void enqueue(Lit l, u32 r); u32 propagate(); void analyze(u32 c, std::vector<Lit>& out, int& bt); void bump(int v); void heapUp(int i); void heapDown(int i); void heapInsert(int v); int heapPop(); void reduceDB();
};
extern Sat sat;
Lit blastBool(E e); const std::vector<Lit>& blast(E e); bool blastable(E e);
void markCone(const std::vector<E>& roots); // marks the relevant decision variables and sets phases from the current model
extern u64 statSatCalls, statSatFallback; 
