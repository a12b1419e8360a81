#include "solver.h"
#include <chrono>
#include <z3.h>
#include <algorithm>
SolverStats SST;
unsigned SOLVER_TIMEOUT_MS = 20000;
static Z3_context C;
static Z3_solver inc;
static std::vector<Z3_ast> memo;
static std::unordered_map<E, Z3_ast> lits;
static std::vector<Z3_func_decl> vdecl;
static std::vector<uint8_t> fpM; // 0 unknown 1 no 2 yes
static size_t incCount = 0;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_set_error_handler(C, errh);
}
static void setTimeout(Z3_solver s, unsigned ms) {
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
}
static bool hasFP(E e) {
  if (fpM.size() < NN.size()) fpM.resize(NN.size() * 2, 0);
  if (fpM[e]) return fpM[e] == 2;
  Node n = NN[e];
  bool r = n.op >= O_FADD || (n.a && hasFP(n.a)) || (n.b && hasFP(n.b)) || (n.c && hasFP(n.c));
  fpM[e] = r ? 2 : 1;
  return r;
}
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast b2bv(Z3_ast b) {
  return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, bv(1)), Z3_mk_unsigned_int64(C, 0, bv(1)));
}
static Z3_ast tr(E e);
static std::vector<Z3_ast> memoB;
static Z3_ast trB(E e) { // width-1 node as Bool
  if (memoB.size() < NN.size()) memoB.resize(NN.size() * 2, nullptr);
  if (memoB[e]) return memoB[e];
  Node n = NN[e];
  Z3_ast r;
  auto f = [&](E x) { unsigned w = W(x); return Z3_mk_fpa_to_fp_bv(C, tr(x), w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C)); };
  switch (n.op) {
  case O_CONST: r = n.k ? Z3_mk_true(C) : Z3_mk_false(C); break;
  case O_EQ: if (W(n.a) == 1) r = Z3_mk_iff(C, trB(n.a), trB(n.b)); else r = Z3_mk_eq(C, tr(n.a), tr(n.b)); break;
  case O_ULT: r = Z3_mk_bvult(C, tr(n.a), tr(n.b)); break;
  case O_ULE: r = Z3_mk_bvule(C, tr(n.a), tr(n.b)); break;
  case O_SLT: r = Z3_mk_bvslt(C, tr(n.a), tr(n.b)); break;
  case O_SLE: r = Z3_mk_bvsle(C, tr(n.a), tr(n.b)); break;
  case O_AND: { Z3_ast t[2] = {trB(n.a), trB(n.b)}; r = Z3_mk_and(C, 2, t); break; }
  case O_OR: { Z3_ast t[2] = {trB(n.a), trB(n.b)}; r = Z3_mk_or(C, 2, t); break; }
  case O_XOR: if (isC(n.b)) r = cval(n.b) ? Z3_mk_not(C, trB(n.a)) : trB(n.a); else r = Z3_mk_xor(C, trB(n.a), trB(n.b)); break;
  case O_ITE: r = Z3_mk_ite(C, trB(n.a), trB(n.b), trB(n.c)); break;
  case O_FOEQ: r = Z3_mk_fpa_eq(C, f(n.a), f(n.b)); break;
  case O_FOLT: r = Z3_mk_fpa_lt(C, f(n.a), f(n.b)); break;
  case O_FOLE: r = Z3_mk_fpa_leq(C, f(n.a), f(n.b)); break;
  case O_FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(C, f(n.a)), Z3_mk_fpa_is_nan(C, f(n.b))}; r = Z3_mk_or(C, 2, t); break; }
  default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, bv(1)));
  }
  if (memoB.size() < NN.size()) memoB.resize(NN.size() * 2, nullptr);
  memoB[e] = r;
  return r;
}
static Z3_ast tr(E e) {
  if (memo.size() < NN.size()) memo.resize(NN.size() * 2, nullptr);
  if (memo[e]) return memo[e];
  Node n = NN[e];
  Z3_ast r = nullptr;
  auto f = [&](E x) { unsigned w = W(x); return Z3_mk_fpa_to_fp_bv(C, tr(x), w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C)); };
  auto rne = [&]() { return Z3_mk_fpa_rne(C); };
  auto back = [&](Z3_ast x) { return Z3_mk_fpa_to_ieee_bv(C, x); };
  auto fs = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); };
  switch (n.op) {
  case O_CONST: {
    if (n.w <= 64) r = Z3_mk_unsigned_int64(C, (uint64_t)n.k, bv(n.w));
    else r = Z3_mk_concat(C, Z3_mk_unsigned_int64(C, (uint64_t)(n.k >> 64), bv(n.w - 64)), Z3_mk_unsigned_int64(C, (uint64_t)n.k, bv(64)));
    break;
  }
  case O_VAR: {
    std::string nm = "v" + std::to_string((uint64_t)n.k);
    r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), bv(n.w));
    break;
  }
  case O_ADD: r = Z3_mk_bvadd(C, tr(n.a), tr(n.b)); break;
  case O_SUB: r = Z3_mk_bvsub(C, tr(n.a), tr(n.b)); break;
  case O_MUL: r = Z3_mk_bvmul(C, tr(n.a), tr(n.b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(C, tr(n.a), tr(n.b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(C, tr(n.a), tr(n.b)); break;
  case O_UREM: r = Z3_mk_bvurem(C, tr(n.a), tr(n.b)); break;
  case O_SREM: r = Z3_mk_bvsrem(C, tr(n.a), tr(n.b)); break;
  case O_SHL: r = Z3_mk_bvshl(C, tr(n.a), tr(n.b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(C, tr(n.a), tr(n.b)); break;
  case O_ASHR: r = Z3_mk_bvashr(C, tr(n.a), tr(n.b)); break;
  case O_CONCAT: r = Z3_mk_concat(C, tr(n.a), tr(n.b)); break;
  case O_EXTRACT: r = Z3_mk_extract(C, (unsigned)n.k + n.w - 1, (unsigned)n.k, tr(n.a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(C, n.w - W(n.a), tr(n.a)); break;
  case O_ITE: r = n.w == 1 ? b2bv(trB(e)) : Z3_mk_ite(C, trB(n.a), tr(n.b), tr(n.c)); break;
  case O_AND: r = n.w == 1 ? b2bv(trB(e)) : Z3_mk_bvand(C, tr(n.a), tr(n.b)); break;
  case O_OR: r = n.w == 1 ? b2bv(trB(e)) : Z3_mk_bvor(C, tr(n.a), tr(n.b)); break;
  case O_XOR: r = n.w == 1 ? b2bv(trB(e)) : Z3_mk_bvxor(C, tr(n.a), tr(n.b)); break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO: r = b2bv(trB(e)); break;
  case O_FADD: r = back(Z3_mk_fpa_add(C, rne(), f(n.a), f(n.b))); break;
  case O_FSUB: r = back(Z3_mk_fpa_sub(C, rne(), f(n.a), f(n.b))); break;
  case O_FMUL: r = back(Z3_mk_fpa_mul(C, rne(), f(n.a), f(n.b))); break;
  case O_FDIV: r = back(Z3_mk_fpa_div(C, rne(), f(n.a), f(n.b))); break;
  case O_FSQRT: r = back(Z3_mk_fpa_sqrt(C, rne(), f(n.a))); break;
  case O_FRND: {
    Z3_ast m = n.k == 0 ? Z3_mk_fpa_rne(C) : n.k == 1 ? Z3_mk_fpa_rna(C) : n.k == 2 ? Z3_mk_fpa_rtp(C) : n.k == 3 ? Z3_mk_fpa_rtn(C) : Z3_mk_fpa_rtz(C);
    r = back(Z3_mk_fpa_round_to_integral(C, m, f(n.a))); break; }
  case O_F2SI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), f(n.a), n.w); break;
  case O_F2UI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), f(n.a), n.w); break;
  case O_SI2F: r = back(Z3_mk_fpa_to_fp_signed(C, rne(), tr(n.a), fs(n.w))); break;
  case O_UI2F: r = back(Z3_mk_fpa_to_fp_unsigned(C, rne(), tr(n.a), fs(n.w))); break;
  case O_FEXT: case O_FTRUNC: r = back(Z3_mk_fpa_to_fp_float(C, rne(), f(n.a), fs(n.w))); break;
  }
  if (memo.size() < NN.size()) memo.resize(NN.size() * 2, nullptr);
  memo[e] = r;
  return r;
}
std::string toSmt(E e) { if (!C) init(); return Z3_ast_to_string(C, tr(e)); }
static std::unordered_map<std::string, std::pair<Res, std::vector<std::pair<uint32_t, uint64_t>>>> qcache;
Res solve(const std::vector<E> &cs0, Model &out) {
  if (!C) init();
  std::vector<E> cs(cs0);
  std::sort(cs.begin(), cs.end());
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::string key((const char *)cs.data(), cs.size() * sizeof(E));
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    for (auto &p : it->second.second) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; }
    return it->second.first;
  }
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false;
  for (E e : cs) fp |= hasFP(e);
  Z3_lbool r;
  Z3_solver s;
  bool tmp = false;
  if (fp) {
    tmp = true;
    s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP"));
    Z3_solver_inc_ref(C, s);
    setTimeout(s, SOLVER_TIMEOUT_MS);
    for (E e : cs) Z3_solver_assert(C, s, trB(e));
    r = Z3_solver_check(C, s);
  } else {
    if (inc && incCount > 4000) { Z3_solver_dec_ref(C, inc); inc = nullptr; lits.clear(); incCount = 0; }
    if (!inc) {
      inc = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, inc);
      setTimeout(inc, std::min(SOLVER_TIMEOUT_MS, 2500u));
    }
    s = inc;
    std::vector<Z3_ast> as;
    for (E e : cs) {
      auto l = lits.find(e);
      if (l == lits.end()) {
        std::string nm = "L" + std::to_string(e);
        Z3_ast p = Z3_mk_const(C, Z3_mk_string_symbol(C, nm.c_str()), Z3_mk_bool_sort(C));
        Z3_solver_assert(C, s, Z3_mk_implies(C, p, trB(e)));
        incCount++;
        l = lits.emplace(e, p).first;
      }
      as.push_back(l->second);
    }
    r = Z3_solver_check_assumptions(C, s, (unsigned)as.size(), as.data());
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (r == Z3_L_UNDEF) { // retry non-incrementally: the full QF_BV tactic preprocesses
      tmp = true;
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, s);
      setTimeout(s, SOLVER_TIMEOUT_MS);
      for (E e : cs) Z3_solver_assert(C, s, trB(e));
      r = Z3_solver_check(C, s);
    }
    if (el > 1.0) incCount = 1 << 20; // do not let a hard formula burden later queries
  }
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  std::vector<std::pair<uint32_t, uint64_t>> vals;
  if (res == R_SAT) {
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    std::vector<uint32_t> vars;
    for (E e : cs) { auto &v = varsOf(e); vars.insert(vars.end(), v.begin(), v.end()); }
    std::sort(vars.begin(), vars.end());
    vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (uint32_t v : vars) {
      Z3_ast o;
      uint64_t x = 0;
      if (Z3_model_eval(C, m, tr(VARS[v].e), true, &o)) Z3_get_numeral_uint64(C, o, &x);
      vals.push_back({v, x});
    }
    Z3_model_dec_ref(C, m);
    for (auto &p : vals) { if (out.size() <= p.first) out.resize(p.first + 1, 0); out[p.first] = p.second; }
  }
  if (tmp) Z3_solver_dec_ref(C, s);
  SST.queries++;
  (res == R_SAT ? SST.sat : res == R_UNSAT ? SST.unsat : SST.unknown)++;
  SST.us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  qcache[key] = {res, vals};
  return res;
}
