#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>

static bool inter(const SymSet& a, const SymSet& b) {
  size_t n = std::min(a.size(), b.size());
  for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true;
  return false;
}
static bool orInto(SymSet& d, const SymSet& s) {
  bool ch = false;
  if (d.size() < s.size()) d.resize(s.size(), 0);
  for (size_t i = 0; i < s.size(); i++) { uint64_t n = d[i] | s[i]; if (n != d[i]) { d[i] = n; ch = true; } }
  return ch;
}

Res Solver::check(const std::vector<E>& cons, E cond, const Model& base, Model& out) {
  if (isConst(cond)) { if (cond->val) { out = base; return R_SAT; } return R_UNSAT; }
  SymSet ss = *symsOf(cond);
  std::vector<E> slice;
  std::vector<char> used(cons.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = cons.size(); i-- > 0;)
      if (!used[i] && inter(ss, *symsOf(cons[i]))) {
        used[i] = 1; slice.push_back(cons[i]);
        if (orInto(ss, *symsOf(cons[i]))) ch = true;
      }
  }
  for (E c : slice) if (mkNot(c) == cond) return R_UNSAT;
  Key k;
  k.v = slice;
  std::sort(k.v.begin(), k.v.end());
  k.v.push_back(cond);
  uint64_t h = 1469598103934665603ull;
  for (E e : k.v) { h ^= e->hash; h *= 1099511628211ull; }
  k.h = h;
  auto apply = [&](const std::vector<std::pair<uint32_t, uint8_t>>& m) {
    out = base;
    for (auto& p : m) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; }
  };
  auto it = cache.find(k);
  if (it != cache.end()) {
    st.cacheHits++;
    if (!it->second.sat) return R_UNSAT;
    apply(it->second.m);
    return R_SAT;
  }
  // model reuse
  auto extractVals = [&](const Model& m, Entry& en) {
    for (size_t i = 0; i < ss.size(); i++)
      for (int b = 0; b < 64; b++)
        if (ss[i] >> b & 1) { uint32_t id = i * 64 + b; en.m.push_back({id, id < m.size() ? m[id] : (uint8_t)0}); }
  };
  for (auto& m : recent) {
    evalNewEpoch();
    if (!evalExpr(cond, m)) continue;
    bool ok = true;
    for (E c : slice) if (!evalExpr(c, m)) { ok = false; break; }
    if (ok) {
      st.modelHits++;
      Entry en; en.sat = true; extractVals(m, en);
      apply(en.m);
      cache.emplace(std::move(k), std::move(en));
      return R_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_context c = zctx();
  if (!s || ++sinceReset > 2000) {
    if (s) Z3_solver_dec_ref(c, s);
    s = Z3_mk_simple_solver(c);
    Z3_solver_inc_ref(c, s);
    Z3_params p = Z3_mk_params(c);
    Z3_params_inc_ref(c, p);
    Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), timeoutMs);
    Z3_solver_set_params(c, s, p);
    Z3_params_dec_ref(c, p);
    sinceReset = 0;
  }
  Z3_solver_push(c, s);
  for (E e : slice) Z3_solver_assert(c, s, toBool(e));
  Z3_solver_assert(c, s, toBool(cond));
  Z3_lbool r = Z3_solver_check(c, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  Entry en;
  en.sat = res == R_SAT;
  st.queries++;
  st.slicedCons += slice.size();
  if (res == R_SAT) {
    st.sat++;
    Z3_model m = Z3_solver_get_model(c, s);
    Z3_model_inc_ref(c, m);
    for (size_t i = 0; i < ss.size(); i++)
      for (int b = 0; b < 64; b++)
        if (ss[i] >> b & 1) {
          uint32_t id = i * 64 + b;
          Z3_ast v = nullptr;
          unsigned val = 0;
          if (Z3_model_eval(c, m, toBV(mkSym(id)), true, &v) && v) {
            Z3_inc_ref(c, v);
            uint64_t u = 0;
            if (Z3_get_ast_kind(c, v) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(c, v, &u);
            val = (unsigned)u;
            Z3_dec_ref(c, v);
          }
          en.m.push_back({id, (uint8_t)val});
        }
    Z3_model_dec_ref(c, m);
    apply(en.m);
    if (recent.size() < 24) recent.push_back(out);
    else { recent[recentPos] = out; recentPos = (recentPos + 1) % recent.size(); }
  } else if (res == R_UNSAT) st.unsat++;
  else st.unknown++;
  Z3_solver_pop(c, s, 1);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.time += dt;
  if (dt > st.maxTime) st.maxTime = dt;
  if (res != R_UNKNOWN) cache.emplace(std::move(k), std::move(en));
  return res;
}
