// Path condition, byte-domain propagation and Z3 queries.
#pragma once
#include "expr.h"
#include <bitset>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

struct SolverStats { u64 z3Queries, domQueries, modelHits, z3Micros, z3Unknown, z3MaxMicros, certified; };

struct Solver {
  struct VarInfo { std::bitset<256> dom; int ndom; std::vector<Expr*> cons; bool bound; };
  std::vector<VarInfo> vars; std::vector<u8> model;
  std::vector<Expr*> multi; Mask multiMask{};
  std::unordered_map<Expr*, bool> known;
  Mask boundMask{}; u32 epoch = 1, evEpoch = 1;
  unsigned rlimit = 0; bool certify = true; std::unordered_set<u64> done;
  SolverStats* st;
  Solver();
  u32 newVar();
  Expr* simp(Expr* e);                 // substitute bound variables
  u128 eval(Expr* e);                  // value under the current model
  u128 evalWith(Expr* e, u32 var, u8 v); // single-variable expression
  Res check(Expr* c, std::vector<std::pair<u32,u8>>* newModel, bool forceZ3 = false); // pc && c satisfiable?
  void add(Expr* c);                   // c must be implied feasible; model must satisfy it afterwards
  void interval(Expr* e, u128& lo, u128& hi); // unsigned bounds from the byte domains
  void setModel(const std::vector<std::pair<u32,u8>>& m);
  Z3_ast bv(Expr* e); Z3_ast bl(Expr* e);
  bool refutedByIntervals(Expr* c); Expr* normSingle(Expr* e);
  void certified(Expr* c);
private:
  struct Iv { int n; u128 lo, hi; }; std::unordered_map<Expr*, Iv> ivMemo; void intervalRec(Expr* e, u128& lo, u128& hi, int& budget);
  Res z3check(Expr* c, std::vector<std::pair<u32,u8>>* nm);
  void bindIfSingleton(u32 v);
  void addOne(Expr* c);
};
