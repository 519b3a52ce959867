// z3 back end: decides conjunctions of boolean (1-bit) expressions.
#pragma once
#include "expr.hpp"
#include <z3.h>
#include <chrono>
#include <map>

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double time = 0, maxTime = 0; };

enum class Res { Sat, Unsat, Unknown };

class Solver {
  ExprPool& P;
  Z3_context ctx;
  Z3_solver slv;
  struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003u ^ x; return h; } };
  struct Entry { Res r; std::vector<std::pair<uint32_t, uint64_t>> model; };
  std::unordered_map<std::vector<uint32_t>, Entry, VH> cache;

  Z3_ast tr(Expr* e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    auto B = [&](Z3_ast c) { return Z3_mk_ite(ctx, c, bv1(1), bv1(0)); };
    switch (e->op) {
    case Op::Const:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, e->w));
      else {
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(ctx, e->w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, 64));
        r = Z3_mk_concat(ctx, hi, lo);
      }
      break;
    case Op::Sym: { std::string n = "s" + std::to_string(e->off); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w)); break; }
    case Op::Add: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case Op::URem: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case Op::And: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case Op::Or: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case Op::Xor: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case Op::Extract: r = Z3_mk_extract(ctx, e->off + e->w - 1, e->off, tr(e->a)); break;
    case Op::Concat: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case Op::Eq: r = B(Z3_mk_eq(ctx, tr(e->a), tr(e->b))); break;
    case Op::Ult: r = B(Z3_mk_bvult(ctx, tr(e->a), tr(e->b))); break;
    case Op::Ule: r = B(Z3_mk_bvule(ctx, tr(e->a), tr(e->b))); break;
    case Op::Slt: r = B(Z3_mk_bvslt(ctx, tr(e->a), tr(e->b))); break;
    case Op::Sle: r = B(Z3_mk_bvsle(ctx, tr(e->a), tr(e->b))); break;
    case Op::Ite: r = Z3_mk_ite(ctx, trb(e->a), tr(e->b), tr(e->c)); break;
    }
    Z3_inc_ref(ctx, r);
    e->z3 = r;
    return r;
  }
  Z3_ast bv1(int v) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, 1)); }
  // boolean translation of a width-1 expression
  Z3_ast trb(Expr* e) {
    switch (e->op) {
    case Op::Const: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case Op::Eq:
      if (e->a->w == 1) return Z3_mk_iff(ctx, trb(e->a), trb(e->b));
      return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case Op::Ult: return Z3_mk_bvult(ctx, tr(e->a), tr(e->b));
    case Op::Ule: return Z3_mk_bvule(ctx, tr(e->a), tr(e->b));
    case Op::Slt: return Z3_mk_bvslt(ctx, tr(e->a), tr(e->b));
    case Op::Sle: return Z3_mk_bvsle(ctx, tr(e->a), tr(e->b));
    case Op::And: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case Op::Or: { Z3_ast x[2] = {trb(e->a), trb(e->b)}; return Z3_mk_or(ctx, 2, x); }
    case Op::Xor: if (ExprPool::isC(e->b, 1)) return Z3_mk_not(ctx, trb(e->a)); return Z3_mk_xor(ctx, trb(e->a), trb(e->b));
    default: return Z3_mk_eq(ctx, tr(e), bv1(1));
    }
  }

public:
  SolverStats st;
  uint64_t rlimit = 40000000;
  FILE* dump = nullptr; // SMT-LIB dump of the decided queries (cross-checking)
  uint64_t dumpEvery = 0;

  explicit Solver(ExprPool& p) : P(p) {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
  }

  // cs: conjunction; on Sat writes values of occurring symbols to out
  Res check(const std::vector<Expr*>& cs, std::vector<uint64_t>* out) {
    std::vector<uint32_t> key;
    key.reserve(cs.size());
    for (auto* e : cs) { if (ExprPool::isC(e, 0)) return Res::Unsat; if (e->op != Op::Const) key.push_back(e->id); }
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
      st.cacheHits++;
      if (it->second.r == Res::Sat && out)
        for (auto& kv : it->second.model) { if (out->size() <= kv.first) out->resize(kv.first + 1, 0); (*out)[kv.first] = kv.second; }
      return it->second.r;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(ctx, slv);
    for (auto* e : cs) if (e->op != Op::Const) Z3_solver_assert(ctx, slv, trb(e));
    {
      Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
      Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "rlimit"), (unsigned)std::min<uint64_t>(rlimit, 0xFFFFFFF0u));
      Z3_solver_set_params(ctx, slv, ps); Z3_params_dec_ref(ctx, ps);
    }
    Z3_lbool l = Z3_solver_check(ctx, slv);
    Entry en;
    en.r = l == Z3_L_TRUE ? Res::Sat : l == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    st.queries++;
    if (dump && dumpEvery && en.r != Res::Unknown && st.queries % dumpEvery == 0) {
      fprintf(dump, "(set-info :status %s)\n%s(check-sat)\n(reset)\n", en.r == Res::Sat ? "sat" : "unsat", Z3_solver_to_string(ctx, slv));
      fflush(dump);
    }
    if (en.r == Res::Sat) {
      st.sat++;
      Z3_model m = Z3_solver_get_model(ctx, slv);
      Z3_model_inc_ref(ctx, m);
      // collect symbols
      std::vector<bool> seen(P.symbols.size(), false);
      std::unordered_set<Expr*> vis;
      std::vector<Expr*> todo(cs.begin(), cs.end());
      while (!todo.empty()) {
        Expr* e = todo.back(); todo.pop_back();
        if (!e || e->op == Op::Const || !vis.insert(e).second) continue;
        if (e->op == Op::Sym) seen[e->off] = true;
        else { todo.push_back(e->a); todo.push_back(e->b); todo.push_back(e->c); }
      }
      for (uint32_t i = 0; i < seen.size(); i++) if (seen[i]) {
        Z3_ast v = nullptr; uint64_t u = 0;
        if (Z3_model_eval(ctx, m, tr(P.sym(i)), true, &v)) Z3_get_numeral_uint64(ctx, v, &u);
        en.model.push_back({i, u});
        if (out) { if (out->size() <= i) out->resize(i + 1, 0); (*out)[i] = u; }
      }
      Z3_model_dec_ref(ctx, m);
    } else if (en.r == Res::Unsat) st.unsat++;
    else st.unknown++;
    Z3_solver_pop(ctx, slv, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.time += dt; st.maxTime = std::max(st.maxTime, dt);
    if (en.r != Res::Unknown) cache.emplace(std::move(key), std::move(en)); else return Res::Unknown;
    return l == Z3_L_TRUE ? Res::Sat : Res::Unsat;
  }
};
