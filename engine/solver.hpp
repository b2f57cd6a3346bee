#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>

struct Stats {
  uint64_t instrs = 0, forks = 0, paths = 0, killed = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, repaired = 0, cacheHits = 0, checksSolver = 0, checksSimplified = 0, bytesCompared = 0, bytesNontrivial = 0, audits = 0;
  double solverSec = 0;
};

struct Solver {
  Z3_context ctx; Z3_solver s; Z3_sort bv8; Stats *st;
  struct Entry { int res; std::vector<std::pair<uint32_t, uint8_t>> model; };
  std::unordered_map<std::string, Entry> cache;
  unsigned timeoutMs = 20000;
  Solver(Stats *st_) : st(st_) { init(); }
  void init() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, nullptr);
    s = getenv("VP_SMT") ? Z3_mk_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    bv8 = Z3_mk_bv_sort(ctx, 8);
  }
  std::unordered_map<uint32_t, Z3_ast> asBv; // width-1 terms used as bit-vectors
  Z3_ast one1() { return Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)); }
  Z3_ast zero1() { return Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1)); }
  // bit-vector term for e; width-1 expressions are Booleans in e->z3 and get wrapped here
  Z3_ast trV(Ex e) {
    if (e->w != 1) return tr(e);
    auto it = asBv.find(e->id); if (it != asBv.end()) return it->second;
    Z3_ast r;
    if (e->k == K_CONST) r = e->c ? one1() : zero1();
    else if (e->k == K_EXTRACT) r = Z3_mk_extract(ctx, e->lo, e->lo, trV(e->kid[0]));
    else r = Z3_mk_ite(ctx, tr(e), one1(), zero1());
    asBv[e->id] = r; return r;
  }
  // Boolean for width 1, bit-vector otherwise
  Z3_ast tr(Ex e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r; std::vector<Z3_ast> ks;
    if (e->w == 1) {
      switch (e->k) {
      case K_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case K_EXTRACT: r = Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->lo, e->lo, trV(e->kid[0])), one1()); break;
      case K_NOT: r = Z3_mk_not(ctx, tr(e->kid[0])); break;
      case K_AND: for (unsigned i = 0; i < e->n; i++) ks.push_back(tr(e->kid[i])); r = Z3_mk_and(ctx, e->n, ks.data()); break;
      case K_OR: for (unsigned i = 0; i < e->n; i++) ks.push_back(tr(e->kid[i])); r = Z3_mk_or(ctx, e->n, ks.data()); break;
      case K_XOR: r = Z3_mk_xor(ctx, tr(e->kid[0]), tr(e->kid[1])); break;
      case K_EQ: r = Z3_mk_eq(ctx, tr(e->kid[0]), tr(e->kid[1])); break;
      case K_ULT: r = Z3_mk_bvult(ctx, trV(e->kid[0]), trV(e->kid[1])); break;
      case K_SLT: r = Z3_mk_bvslt(ctx, trV(e->kid[0]), trV(e->kid[1])); break;
      case K_ITE: r = Z3_mk_ite(ctx, tr(e->kid[0]), tr(e->kid[1]), tr(e->kid[2])); break;
      default: abort();
      }
      e->z3 = r; return r;
    }
    auto V = [&](unsigned i) { return trV(e->kid[i]); };
    switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
    case K_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->c), bv8); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, V(0)); break;
    case K_CONCAT: r = V(0); for (unsigned i = 1; i < e->n; i++) r = Z3_mk_concat(ctx, V(i), r); break;
    case K_NOT: r = Z3_mk_bvnot(ctx, V(0)); break;
    case K_AND: r = Z3_mk_bvand(ctx, V(0), V(1)); break;
    case K_OR: r = Z3_mk_bvor(ctx, V(0), V(1)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, V(0), V(1)); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, V(0), V(1)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, V(0), V(1)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, V(0), V(1)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, V(0), V(1)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, V(0), V(1)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, V(0), V(1)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, V(0), V(1)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, V(0), V(1)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, V(0), V(1)); break;
    case K_ITE: r = Z3_mk_ite(ctx, tr(e->kid[0]), V(1), V(2)); break;
    default: abort();
    }
    e->z3 = r; return r; // a context without reference counting keeps all terms alive
  }
  // 1 sat, 0 unsat, -1 unknown
  int query(const std::vector<Ex> &cs, std::vector<uint8_t> &model, bool useCache = true) {
    std::vector<uint32_t> ids; for (Ex c : cs) ids.push_back(c->id);
    std::sort(ids.begin(), ids.end());
    std::string key((const char *)ids.data(), ids.size() * 4);
    auto it = useCache ? cache.find(key) : cache.end();
    if (it != cache.end()) {
      st->cacheHits++;
      for (auto &p : it->second.model) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
      return it->second.res;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(ctx, s);
    for (Ex c : cs) Z3_solver_assert(ctx, s, tr(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    Entry en; en.res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    st->queries++; (en.res == 1 ? st->sat : en.res == 0 ? st->unsat : st->unknown)++;
    if (en.res == 1) {
      Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      std::vector<uint32_t> vs;
      for (Ex c : cs) { auto &v = varsOf(c); vs.insert(vs.end(), v.begin(), v.end()); }
      std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
      for (uint32_t v : vs) {
        Z3_ast out; uint64_t val = 0;
        if (Z3_model_eval(ctx, m, tr(mkVar(v)), true, &out)) Z3_get_numeral_uint64(ctx, out, &val);
        en.model.push_back({v, (uint8_t)val});
        if (model.size() <= v) model.resize(v + 1, 0);
        model[v] = (uint8_t)val;
      }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_pop(ctx, s, 1);
    st->solverSec += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (useCache) cache.emplace(std::move(key), en);
    return en.res;
  }
};
