// Path-condition queries: independence slicing, model reuse, caching, z3.
#include "symx.h"
#include "solver.h"
#include <chrono>
#include <cmath>
SolverStats g_ss;
unsigned g_queryTimeoutMs = 20000;
static Z3_context Z;
static Z3_sort s_fp;
static Z3_ast zrm, zrtz;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, zerr);
  s_fp = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s_fp));
  zrm = Z3_mk_fpa_rne(Z); Z3_inc_ref(Z, zrm); zrtz = Z3_mk_fpa_rtz(Z); Z3_inc_ref(Z, zrtz);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(unsigned w) { static Z3_sort t[129]; if (!t[w]) { t[w] = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, t[w])); } return t[w]; }
static Z3_ast bvc(u64 v, unsigned w) { static std::map<std::pair<u64, unsigned>, Z3_ast> m; auto &r = m[{v, w}]; if (!r) r = keep(Z3_mk_unsigned_int64(Z, v, bvs(w))); return r; }
static Z3_ast zb(EP e); static Z3_ast zv(EP e); static Z3_ast zf(EP e);
static std::unordered_map<EP, Z3_ast> s_bool, s_absB, s_absV; static bool g_abs; static std::vector<EP> *g_absLeaves;
static Z3_ast zb0(EP e) {
  switch (e->op) {
  case E_CONST: return e->val ? Z3_mk_true(Z) : Z3_mk_false(Z);
  case E_EQ: if (e->a->w == 1) return Z3_mk_iff(Z, zb(e->a), zb(e->b)); return Z3_mk_eq(Z, zv(e->a), zv(e->b));
  case E_ULT: return Z3_mk_bvult(Z, zv(e->a), zv(e->b));
  case E_ULE: return Z3_mk_bvule(Z, zv(e->a), zv(e->b));
  case E_SLT: return Z3_mk_bvslt(Z, zv(e->a), zv(e->b));
  case E_SLE: return Z3_mk_bvsle(Z, zv(e->a), zv(e->b));
  case E_AND: { Z3_ast a[2] = {zb(e->a), zb(e->b)}; return Z3_mk_and(Z, 2, a); }
  case E_OR: { Z3_ast a[2] = {zb(e->a), zb(e->b)}; return Z3_mk_or(Z, 2, a); }
  case E_XOR: if (isC(e->b)) return e->b->val ? Z3_mk_not(Z, zb(e->a)) : zb(e->a); return Z3_mk_xor(Z, zb(e->a), zb(e->b));
  case E_ITE: return Z3_mk_ite(Z, zb(e->a), zb(e->b), zb(e->c));
  case E_FLT: return Z3_mk_fpa_lt(Z, zf(e->a), zf(e->b));
  case E_FLE: return Z3_mk_fpa_leq(Z, zf(e->a), zf(e->b));
  case E_FEQ: return Z3_mk_fpa_eq(Z, zf(e->a), zf(e->b));
  default: return Z3_mk_eq(Z, zv(e), bvc(1, 1));
  }
}
static Z3_ast zb(EP e) { if (g_abs && e->aux2) { auto &r = s_absB[e]; if (r) return r; Z3_ast x; if (e->op == E_FLT || e->op == E_FLE || e->op == E_FEQ) { char b[32]; snprintf(b, sizeof b, "p%u", e->id); x = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), Z3_mk_bool_sort(Z))); } else x = keep(zb0(e)); return s_absB[e] = x; }
  auto it = s_bool.find(e); if (it != s_bool.end()) return it->second; Z3_ast a = keep(zb0(e)); s_bool[e] = a; return a; }
// arithmetic on values known to be small is done at the width they need
static Z3_ast narrow(EP e) {
  unsigned k = 2; auto fits = [&](EP x) { return k >= 64 || (x->slo >= -(1LL << (k - 1)) && x->shi < (1LL << (k - 1))); };
  while (k < e->w && !(fits(e) && fits(e->a) && fits(e->b))) k++;
  if (k >= e->w) return nullptr; auto lo = [&](EP x) -> Z3_ast { if (x->op == E_ZEXT && x->a->w <= k) return x->a->w == k ? zv(x->a) : Z3_mk_zero_ext(Z, k - x->a->w, zv(x->a)); if (x->op == E_SEXT && x->a->w <= k) return x->a->w == k ? zv(x->a) : Z3_mk_sign_ext(Z, k - x->a->w, zv(x->a)); if (isC(x)) return bvc(x->val & maskw(k), k); return Z3_mk_extract(Z, k - 1, 0, zv(x)); };
  auto lk = [&](EP x) { zv(x); return keep(lo(x)); };
  Z3_ast a = lk(e->a), b = lk(e->b), r;
  switch (e->op) { case E_MUL: r = Z3_mk_bvmul(Z, a, b); break; case E_SDIV: r = Z3_mk_bvsdiv(Z, a, b); break; case E_SREM: r = Z3_mk_bvsrem(Z, a, b); break; case E_UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case E_UREM: r = Z3_mk_bvurem(Z, a, b); break; default: return nullptr; }
  r = keep(r); return Z3_mk_sign_ext(Z, e->w - k, r);
}
static Z3_ast zv0(EP e) {
  if (e->w > 8 && (e->op == E_MUL || ((e->op == E_SDIV || e->op == E_SREM) && (e->b->slo > 0 || e->b->shi < 0)) || ((e->op == E_UDIV || e->op == E_UREM) && e->a->slo >= 0 && e->b->slo > 0))) { Z3_ast r = narrow(e); if (r) return r; }
  switch (e->op) {
  case E_CONST: return bvc(e->val, e->w);
  case E_VAR: { char b[32]; snprintf(b, sizeof b, "v%u", e->aux); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(e->w)); }
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: case E_FLT: case E_FLE: case E_FEQ: return Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(0, 1));
  case E_ADD: return Z3_mk_bvadd(Z, zv(e->a), zv(e->b)); case E_SUB: return Z3_mk_bvsub(Z, zv(e->a), zv(e->b)); case E_MUL: return Z3_mk_bvmul(Z, zv(e->a), zv(e->b));
  case E_UDIV: return Z3_mk_bvudiv(Z, zv(e->a), zv(e->b)); case E_SDIV: return Z3_mk_bvsdiv(Z, zv(e->a), zv(e->b)); case E_UREM: return Z3_mk_bvurem(Z, zv(e->a), zv(e->b)); case E_SREM: return Z3_mk_bvsrem(Z, zv(e->a), zv(e->b));
  case E_SHL: return Z3_mk_bvshl(Z, zv(e->a), zv(e->b)); case E_LSHR: return Z3_mk_bvlshr(Z, zv(e->a), zv(e->b)); case E_ASHR: return Z3_mk_bvashr(Z, zv(e->a), zv(e->b));
  case E_AND: if (e->w == 1) return Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(0, 1)); return Z3_mk_bvand(Z, zv(e->a), zv(e->b));
  case E_OR: if (e->w == 1) return Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(0, 1)); return Z3_mk_bvor(Z, zv(e->a), zv(e->b));
  case E_XOR: if (e->w == 1) return Z3_mk_ite(Z, zb(e), bvc(1, 1), bvc(0, 1)); return Z3_mk_bvxor(Z, zv(e->a), zv(e->b));
  case E_ZEXT: return Z3_mk_zero_ext(Z, e->w - e->a->w, zv(e->a)); case E_SEXT: return Z3_mk_sign_ext(Z, e->w - e->a->w, zv(e->a));
  case E_EXTRACT: return Z3_mk_extract(Z, e->aux + e->w - 1, e->aux, zv(e->a)); case E_CONCAT: return Z3_mk_concat(Z, zv(e->a), zv(e->b));
  case E_ITE: return Z3_mk_ite(Z, zb(e->a), zv(e->b), zv(e->c));
  case E_FBITS: return Z3_mk_fpa_to_ieee_bv(Z, zf(e->a));
  case E_F2SI: return Z3_mk_fpa_to_sbv(Z, zrtz, zf(e->a), 64);
  default: fprintf(stderr, "symx: zv: bad op %d\n", e->op); exit(3);
  }
}
static Z3_ast zv(EP e) { if (g_abs && e->aux2) { auto &r = s_absV[e]; if (r) return r; Z3_ast x; if (e->op == E_FBITS || e->op == E_F2SI) { char b[32]; snprintf(b, sizeof b, "f%u", e->id); x = keep(Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(64))); } else x = keep(zv0(e)); return s_absV[e] = x; }
  if (e->z3) return (Z3_ast)e->z3; Z3_ast a = keep(zv0(e)); e->z3 = a; return a; }
static Z3_ast zf0(EP e) {
  switch (e->op) {
  case E_FCONST: return Z3_mk_fpa_to_fp_bv(Z, bvc(e->val, 64), s_fp);
  case E_FI2D: return Z3_mk_fpa_to_fp_signed(Z, zrm, zv(e->a), s_fp);
  case E_FQUOT: return Z3_mk_fpa_div(Z, zrm, keep(Z3_mk_fpa_to_fp_signed(Z, zrm, zv(e->a), s_fp)), keep(Z3_mk_fpa_to_fp_signed(Z, zrm, zv(e->b), s_fp)));
  case E_FHALF: return Z3_mk_fpa_mul(Z, zrm, keep(Z3_mk_fpa_to_fp_signed(Z, zrm, zv(e->a), s_fp)), keep(Z3_mk_fpa_numeral_double(Z, ldexp(1.0, -(int)e->aux), s_fp)));
  case E_FITE: return Z3_mk_ite(Z, zb(e->a), zf(e->b), zf(e->c));
  case E_FADD: return Z3_mk_fpa_add(Z, zrm, zf(e->a), zf(e->b)); case E_FSUB: return Z3_mk_fpa_sub(Z, zrm, zf(e->a), zf(e->b));
  case E_FMUL: return Z3_mk_fpa_mul(Z, zrm, zf(e->a), zf(e->b)); case E_FDIV: return Z3_mk_fpa_div(Z, zrm, zf(e->a), zf(e->b));
  case E_FFLOOR: return Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rtn(Z)), zf(e->a)); case E_FCEIL: return Z3_mk_fpa_round_to_integral(Z, keep(Z3_mk_fpa_rtp(Z)), zf(e->a)); case E_FTRUNC: return Z3_mk_fpa_round_to_integral(Z, zrtz, zf(e->a));
  default: fprintf(stderr, "symx: zf: bad op %d\n", e->op); exit(3);
  }
}
static Z3_ast zf(EP e) { if (e->z3) return (Z3_ast)e->z3; Z3_ast a = keep(zf0(e)); e->z3 = a; return a; }

// variables of an expression
static std::unordered_map<EP, std::vector<u32>> s_vars;
static std::unordered_set<EP> s_hasFp;
static void collect(EP e, std::unordered_set<EP> &seen, std::vector<u32> &out, bool &fp) {
  if (!e || e->op == E_CONST || !seen.insert(e).second) return;
  if (e->fp || e->op == E_FBITS || e->op == E_F2SI || e->op == E_FLT || e->op == E_FLE || e->op == E_FEQ) fp = true;
  if (e->op == E_VAR) { out.push_back(e->aux); return; }
  collect(e->a, seen, out, fp); collect(e->b, seen, out, fp); collect(e->c, seen, out, fp);
}
const std::vector<u32> &varsOf(EP e) {
  auto it = s_vars.find(e); if (it != s_vars.end()) return it->second;
  std::vector<u32> v; std::unordered_set<EP> seen; bool fp = false; collect(e, seen, v, fp); std::sort(v.begin(), v.end());
  if (fp) s_hasFp.insert(e); return s_vars[e] = v;
}

struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
static std::map<std::vector<u32>, CacheEnt> s_cache;
static std::vector<std::vector<u64>> s_recent; static size_t s_recentPos;

static bool allTrue(const std::vector<EP> &q, const std::vector<u64> &m) { g_evalEpoch++; for (EP e : q) { extern u64 evalShared(EP, const std::vector<u64> &); if (!evalShared(e, m)) return false; } return true; }

Res solve(State &s, EP extra, std::vector<u64> &out) {
  if (isC(extra)) { if (!extra->val) return UNSAT; out = s.model; return SAT; }
  // independence slice
  std::vector<EP> q; q.push_back(extra); u64 m0 = extra->sup0, m1 = extra->sup1;
  static thread_local std::vector<EP> all; all.clear();
  for (Cons *c = s.pc.get(); c; c = c->prev.get()) all.push_back(c->e);
  bool ch = true; size_t nleft = all.size();
  while (ch) { ch = false; size_t k = 0;
    for (size_t i = 0; i < nleft; i++) { EP c = all[i]; if ((c->sup0 & m0) || (c->sup1 & m1)) { u64 a = m0 | c->sup0, b = m1 | c->sup1; if (a != m0 || b != m1) ch = true; m0 = a; m1 = b; q.push_back(c); } else all[k++] = c; }
    nleft = k; }
  g_ss.queries++;
  // trivially contradictory with a known constraint?
  EP ne = mkNot(extra); for (size_t i = 1; i < q.size(); i++) { if (q[i] == extra) { g_ss.trivial++; out = s.model; return SAT; } if (q[i] == ne) { g_ss.trivial++; return UNSAT; } }
  std::vector<u32> key; for (EP e : q) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = s_cache.find(key);
  std::vector<u32> vars; for (EP e : q) { auto &v = varsOf(e); vars.insert(vars.end(), v.begin(), v.end()); }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  auto apply = [&](const std::vector<std::pair<u32, u64>> &mm) { out = s.model; if (out.size() < g_vars.size()) { size_t o = out.size(); out.resize(g_vars.size()); for (size_t i = o; i < out.size(); i++) out[i] = g_vars[i].lo; } for (auto &p : mm) out[p.first] = p.second; };
  if (it != s_cache.end()) { g_ss.cached++; if (it->second.r == SAT) apply(it->second.m); return it->second.r; }
  for (size_t i = 0; i < s_recent.size(); i++) { auto &rm = s_recent[i]; if (allTrue(q, rm)) { g_ss.reused++; CacheEnt ce; ce.r = SAT; for (u32 v : vars) ce.m.push_back({v, v < rm.size() ? rm[v] & maskw(g_vars[v].w) : g_vars[v].lo}); s_cache[key] = ce; apply(ce.m); return SAT; } }
  bool fp = false; for (EP e : q) if (s_hasFp.count(e)) fp = true;
  auto t0 = std::chrono::steady_clock::now(); Res res = UNKNOWN; CacheEnt ce;
  for (int attempt = fp ? -1 : 0; attempt < 2 && res == UNKNOWN; attempt++) {
    Z3_solver sol; bool ab = attempt < 0; // first treat the results of rounding operations as arbitrary values within their bounds
    std::vector<EP> leaves; if (ab) { std::unordered_set<EP> seen; std::vector<EP> st(q); while (!st.empty()) { EP e = st.back(); st.pop_back(); if (!e || !e->aux2 || !seen.insert(e).second) continue; if (e->op == E_F2SI) { leaves.push_back(e); continue; } if (e->op == E_FBITS || e->op == E_FLT || e->op == E_FLE || e->op == E_FEQ) continue; st.push_back(e->a); st.push_back(e->b); st.push_back(e->c); } }
    if (ab || (attempt == 0 && !fp)) sol = Z3_mk_simple_solver(Z);
    else { const char *names[] = {"simplify", "propagate-values", "solve-eqs", "bit-blast", "sat"}; Z3_tactic t = nullptr;
      if (fp) { t = Z3_mk_tactic(Z, "qffp"); Z3_tactic_inc_ref(Z, t); }
      else for (const char *n : names) { Z3_tactic x = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, x); t = t ? Z3_tactic_and_then(Z, t, x) : x; Z3_tactic_inc_ref(Z, t); }
      sol = Z3_mk_solver_from_tactic(Z, t); }
    Z3_solver_inc_ref(Z, sol);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), (ab || (attempt == 0 && !fp)) ? 1500 : g_queryTimeoutMs); Z3_solver_set_params(Z, sol, p);
    g_abs = ab; for (EP e : q) Z3_solver_assert(Z, sol, zb(e));
    for (EP e : leaves) if (e->slo > INT64_MIN) { Z3_solver_assert(Z, sol, Z3_mk_bvsle(Z, bvc((u64)e->slo, 64), zv(e))); Z3_solver_assert(Z, sol, Z3_mk_bvsle(Z, zv(e), bvc((u64)e->shi, 64))); }
    g_abs = false;
    for (u32 v : vars) { VarInfo &vi = g_vars[v]; if (vi.lo > 0) Z3_solver_assert(Z, sol, Z3_mk_bvuge(Z, zv(vi.e), bvc(vi.lo, vi.w))); if (vi.hi < maskw(vi.w)) Z3_solver_assert(Z, sol, Z3_mk_bvule(Z, zv(vi.e), bvc(vi.hi, vi.w))); }
    Z3_lbool r = Z3_solver_check(Z, sol); g_ss.z3calls++;
    if (r == Z3_L_FALSE) { res = UNSAT; g_ss.unsat++; }
    else if (r == Z3_L_TRUE) { res = SAT; g_ss.sat++; Z3_model m = Z3_solver_get_model(Z, sol); Z3_model_inc_ref(Z, m);
      for (u32 v : vars) { Z3_ast a; u64 x = 0; if (Z3_model_eval(Z, m, zv(g_vars[v].e), true, &a)) { Z3_inc_ref(Z, a); uint64_t xx = 0; Z3_get_numeral_uint64(Z, a, &xx); x = xx; Z3_dec_ref(Z, a); } ce.m.push_back({v, x}); }
      Z3_model_dec_ref(Z, m); }
    if (ab && res == SAT) { // believe it only if the real operations agree
      apply(ce.m); if (!allTrue(q, out)) { res = UNKNOWN; g_ss.sat--; ce.m.clear(); u64 rs = 88172645463325252ULL; for (int k = 0; k < 300 && res == UNKNOWN; k++) { ce.m.clear(); for (u32 v : vars) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; u64 span = g_vars[v].hi - g_vars[v].lo; ce.m.push_back({v, g_vars[v].lo + (span == ~0ULL ? rs : (rs >> 8) % (span + 1))}); } apply(ce.m); if (allTrue(q, out)) { res = SAT; g_ss.sat++; } } if (res == UNKNOWN) ce.m.clear(); } }
    Z3_params_dec_ref(Z, p); Z3_solver_dec_ref(Z, sol);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt; if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) { fprintf(stderr, "slow %.2fs res %d n=%zu: %s\n", dt, (int)res, q.size(), exprStr(extra, 14).c_str()); if (!s.pr.empty()) { fprintf(stderr, "   at"); int k = 0; for (auto i = s.pr.back().fr.rbegin(); i != s.pr.back().fr.rend() && k < 6; ++i, ++k) fprintf(stderr, " %s", i->fn->name.c_str()); fprintf(stderr, "\n"); } } if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (res == UNKNOWN) { g_ss.unknown++; return UNKNOWN; }
  ce.r = res;
  if (res == SAT) { apply(ce.m); if (!allTrue(q, out)) { fprintf(stderr, "symx: model does not satisfy its query (evaluator/translation mismatch)\n"); for (EP e : q) fprintf(stderr, "  %s\n", exprStr(e, 12).c_str()); exit(3); }
    if (s_recent.size() < 24) s_recent.push_back(out); else { s_recent[s_recentPos++ % 24] = out; } }
  s_cache[key] = ce; return res;
}
