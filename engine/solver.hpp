#pragma once
#include "expr.hpp"
#include <unordered_map>
#include <vector>

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, slicedCons = 0;
  double time = 0, maxTime = 0;
};
enum Res { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };
class Solver {
 public:
  SolverStats st;
  unsigned timeoutMs = 60000;
  // is cons /\ cond satisfiable? base satisfies cons; on SAT out = a full model.
  Res check(const std::vector<E>& cons, E cond, const Model& base, Model& out);
 private:
  struct Key { std::vector<E> v; uint64_t h; bool operator==(const Key& o) const { return v == o.v; } };
  struct KH { size_t operator()(const Key& k) const { return k.h; } };
  struct Entry { bool sat; std::vector<std::pair<uint32_t, uint8_t>> m; };
  std::unordered_map<Key, Entry, KH> cache;
  std::vector<Model> recent;
  size_t recentPos = 0;
  Z3_solver s = nullptr;
  uint64_t sinceReset = 0;
};
