#include "solver.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <unordered_set>

SolverStats gSolverStats;
unsigned gSolverTimeoutMs = 60000;

static Z3_context ctx = nullptr;
static Z3_ast tBool(E e);
static std::vector<Z3_ast> cBV, cBool, cFP;
static Z3_ast rne, rtz, rtp, rtn, rna;
static Z3_sort fp32, fp64;
static Z3_solver sBV = nullptr; static unsigned sUses = 0;
static void dropBV() { if (sBV) { Z3_solver_dec_ref(ctx, sBV); sBV = nullptr; } sUses = 0; }
static bool z3err = false;
static void onErr(Z3_context c, Z3_error_code e) { z3err = true; fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

static void initCtx() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, onErr);
  auto keep = [&](Z3_ast a) { Z3_inc_ref(ctx, a); return a; };
  rne = keep(Z3_mk_fpa_round_nearest_ties_to_even(ctx));
  rna = keep(Z3_mk_fpa_round_nearest_ties_to_away(ctx));
  rtz = keep(Z3_mk_fpa_round_toward_zero(ctx));
  rtp = keep(Z3_mk_fpa_round_toward_positive(ctx));
  rtn = keep(Z3_mk_fpa_round_toward_negative(ctx));
  fp32 = Z3_mk_fpa_sort_32(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp32));
  fp64 = Z3_mk_fpa_sort_64(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp64));
}
static Z3_ast tBV(E e); static Z3_ast tBool(E e); static Z3_ast tFP(E e, unsigned w);
static Z3_sort bvs(unsigned w) {
  static Z3_sort t[257]; if (w > 256) return Z3_mk_bv_sort(ctx, w);
  if (!t[w]) { t[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, t[w])); }
  return t[w];
}
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(ctx, a); return a; } // intermediate results must be referenced
static Z3_ast bvconst(u128 v, unsigned w) {
  if (w <= 64) return hold(Z3_mk_unsigned_int64(ctx, (u64)v, bvs(w)));
  Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), bvs(w - 64)), l = Z3_mk_unsigned_int64(ctx, (u64)v, bvs(64));
  Z3_inc_ref(ctx, h); Z3_inc_ref(ctx, l);
  return hold(Z3_mk_concat(ctx, h, l));
}
static void grow(std::vector<Z3_ast>& v) { if (v.size() < numExprs()) v.resize(numExprs() * 2 + 1024, nullptr); }
static bool isFpResult(K k) { return k == K::FAdd || k == K::FSub || k == K::FMul || k == K::FDiv || k == K::FSqrt || k == K::FRound || k == K::SIToF || k == K::UIToF || k == K::FExt || k == K::FTrunc || k == K::FMa || k == K::FRem; }
static bool isBoolKind(E e) {
  if (e->w != 1) return false;
  switch (e->k) { case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::FOEq: case K::FOLt: case K::FOLe: case K::FUno: case K::And: case K::Or: case K::Xor: case K::Ite: case K::Const: return true; default: return false; }
}

static Z3_ast tBool(E e) {
  grow(cBool);
  if (cBool[e->id]) return cBool[e->id];
  Z3_ast r = nullptr;
  switch (e->k) {
    case K::Const: r = e->lo ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K::Eq: if (e->a->w == 1) r = Z3_mk_iff(ctx, tBool(e->a), tBool(e->b)); else r = Z3_mk_eq(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Ult: r = Z3_mk_bvult(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(ctx, tBV(e->a), tBV(e->b)); break;
    case K::FOEq: r = Z3_mk_fpa_eq(ctx, tFP(e->a, e->a->w), tFP(e->b, e->b->w)); break;
    case K::FOLt: r = Z3_mk_fpa_lt(ctx, tFP(e->a, e->a->w), tFP(e->b, e->b->w)); break;
    case K::FOLe: r = Z3_mk_fpa_leq(ctx, tFP(e->a, e->a->w), tFP(e->b, e->b->w)); break;
    case K::FUno: { Z3_ast x[2] = {hold(Z3_mk_fpa_is_nan(ctx, tFP(e->a, e->a->w))), hold(Z3_mk_fpa_is_nan(ctx, tFP(e->b, e->b->w)))}; r = Z3_mk_or(ctx, 2, x); break; }
    case K::And: if (e->w == 1) { Z3_ast x[2] = {tBool(e->a), tBool(e->b)}; r = Z3_mk_and(ctx, 2, x); } break;
    case K::Or: if (e->w == 1) { Z3_ast x[2] = {tBool(e->a), tBool(e->b)}; r = Z3_mk_or(ctx, 2, x); } break;
    case K::Xor: if (isTrue(e->b)) r = Z3_mk_not(ctx, tBool(e->a)); else r = Z3_mk_xor(ctx, tBool(e->a), tBool(e->b)); break;
    case K::Ite: r = Z3_mk_ite(ctx, tBool(e->a), tBool(e->b), tBool(e->c)); break;
    default: r = Z3_mk_eq(ctx, tBV(e), bvconst(1, 1)); break;
  }
  Z3_inc_ref(ctx, r); grow(cBool); cBool[e->id] = r;
  return r;
}
static Z3_ast tFP(E e, unsigned w) {
  grow(cFP);
  if (cFP[e->id]) return cFP[e->id];
  Z3_ast r = nullptr;
  Z3_sort s = w == 64 ? fp64 : fp32;
  switch (e->k) {
    case K::FAdd: r = Z3_mk_fpa_add(ctx, rne, tFP(e->a, w), tFP(e->b, w)); break;
    case K::FSub: r = Z3_mk_fpa_sub(ctx, rne, tFP(e->a, w), tFP(e->b, w)); break;
    case K::FMul: r = Z3_mk_fpa_mul(ctx, rne, tFP(e->a, w), tFP(e->b, w)); break;
    case K::FDiv: r = Z3_mk_fpa_div(ctx, rne, tFP(e->a, w), tFP(e->b, w)); break;
    case K::FRem: r = Z3_mk_fpa_rem(ctx, tFP(e->a, w), tFP(e->b, w)); break;
    case K::FMa: r = Z3_mk_fpa_fma(ctx, rne, tFP(e->a, w), tFP(e->b, w), tFP(e->c, w)); break;
    case K::FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, tFP(e->a, w)); break;
    case K::FRound: { Z3_ast m = e->aux == 0 ? rtn : e->aux == 1 ? rtp : e->aux == 2 ? rtz : e->aux == 3 ? rne : rna; r = Z3_mk_fpa_round_to_integral(ctx, m, tFP(e->a, w)); break; }
    case K::SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rne, tBV(e->a), s); break;
    case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, tBV(e->a), s); break;
    case K::FExt: case K::FTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rne, tFP(e->a, e->a->w), s); break;
    case K::Ite: r = Z3_mk_ite(ctx, tBool(e->a), tFP(e->b, w), tFP(e->c, w)); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, tBV(e), s); break;
  }
  Z3_inc_ref(ctx, r); grow(cFP); cFP[e->id] = r;
  return r;
}
static Z3_ast tBV(E e) {
  grow(cBV);
  if (cBV[e->id]) return cBV[e->id];
  Z3_ast r = nullptr;
  if (isBoolKind(e) && e->k != K::Const) r = Z3_mk_ite(ctx, tBool(e), bvconst(1, 1), bvconst(0, 1));
  else switch (e->k) {
    case K::Const: r = bvconst(cval(e), e->w); break;
    case K::Var: { std::string n = "v" + std::to_string(e->aux); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvs(e->w)); break; }
    case K::Add: r = Z3_mk_bvadd(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(ctx, tBV(e->a), tBV(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(ctx, tBV(e->a), tBV(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(ctx, tBV(e->a), tBV(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(ctx, tBV(e->a), tBV(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(ctx, tBV(e->a), tBV(e->b)); break;
    case K::And: r = Z3_mk_bvand(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Or: r = Z3_mk_bvor(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Xor: r = isC(e->b) && cval(e->b) == maskw(e->w) ? Z3_mk_bvnot(ctx, tBV(e->a)) : Z3_mk_bvxor(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(ctx, tBV(e->a), tBV(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(ctx, tBV(e->a), tBV(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Concat: r = Z3_mk_concat(ctx, tBV(e->a), tBV(e->b)); break;
    case K::Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, tBV(e->a)); break;
    case K::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tBV(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tBV(e->a)); break;
    case K::Ite: r = Z3_mk_ite(ctx, tBool(e->a), tBV(e->b), tBV(e->c)); break;
    case K::FToSI: case K::FToUI: {
      unsigned w = e->w, fw = e->a->w; Z3_ast x = tFP(e->a, fw); Z3_sort s = fw == 64 ? fp64 : fp32;
      if (e->k == K::FToSI) {
        double lo = -__builtin_ldexp(1.0, w - 1), hi = __builtin_ldexp(1.0, w - 1);
        Z3_ast c[2] = {hold(Z3_mk_fpa_geq(ctx, x, hold(Z3_mk_fpa_numeral_double(ctx, lo, s)))), hold(Z3_mk_fpa_lt(ctx, x, hold(Z3_mk_fpa_numeral_double(ctx, hi, s))))};
        r = Z3_mk_ite(ctx, hold(Z3_mk_and(ctx, 2, c)), hold(Z3_mk_fpa_to_sbv(ctx, rtz, x, w)), bvconst((u128)1 << (w - 1), w));
      } else {
        double hi = __builtin_ldexp(1.0, w);
        Z3_ast c[2] = {hold(Z3_mk_fpa_gt(ctx, x, hold(Z3_mk_fpa_numeral_double(ctx, -1.0, s)))), hold(Z3_mk_fpa_lt(ctx, x, hold(Z3_mk_fpa_numeral_double(ctx, hi, s))))};
        r = Z3_mk_ite(ctx, hold(Z3_mk_and(ctx, 2, c)), hold(Z3_mk_fpa_to_ubv(ctx, rtz, x, w)), bvconst((u128)1 << (w - 1), w));
      }
      break; }
    default:
      if (isFpResult(e->k)) r = Z3_mk_fpa_to_ieee_bv(ctx, tFP(e, e->w));
      else { fprintf(stderr, "solver: unhandled expr kind %d\n", (int)e->k); abort(); }
  }
  Z3_inc_ref(ctx, r); grow(cBV); cBV[e->id] = r;
  return r;
}

static std::vector<char> fpFlag; // 0 unknown 1 no 2 yes
static bool hasFP(E e) {
  if (fpFlag.size() < numExprs()) fpFlag.resize(numExprs() * 2 + 1024, 0);
  if (fpFlag[e->id]) return fpFlag[e->id] == 2;
  bool r = e->k >= K::FAdd || (e->a && hasFP(e->a)) || (e->b && hasFP(e->b)) || (e->c && hasFP(e->c));
  fpFlag[e->id] = r ? 2 : 1;
  return r;
}

struct VHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CacheEnt { Res r; std::shared_ptr<Assignment> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> qcache;

// unsat cores, indexed by their newest constraint: a query containing a known core is unsatisfiable
static std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores;
static bool knownUnsat(const std::vector<uint32_t>& key) {
  for (size_t i = key.size(); i-- > 0;) {
    auto it = cores.find(key[i]); if (it == cores.end()) continue;
    for (auto& c : it->second) if (std::includes(key.begin(), key.begin() + i + 1, c.begin(), c.end())) return true;
  }
  return false;
}

Res solve(const std::vector<E>& csIn, Assignment* model) {
  std::vector<E> cs; std::vector<uint32_t> key;
  for (E e : csIn) { if (isTrue(e)) continue; if (isFalse(e)) return Res::Unsat; cs.push_back(e); }
  if (cs.empty()) return Res::Sat;
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  for (E e : cs) key.push_back(e->id);
  auto it = qcache.find(key);
  if (it != qcache.end()) {
    gSolverStats.cacheHits++;
    if (it->second.r == Res::Sat && model) for (auto& p : it->second.m->m) model->m[p.first] = p.second;
    return it->second.r;
  }
  if (knownUnsat(key)) { gSolverStats.cacheHits++; return Res::Unsat; }
  if (!ctx) initCtx();
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false; for (E e : cs) if (hasFP(e)) { fp = true; break; }
  Res res = Res::Unknown; std::shared_ptr<Assignment> m;
  for (int attempt = 0; attempt < 2 && res == Res::Unknown; attempt++) {
    Z3_solver s;
    bool own = false;
    if (fp || attempt == 1) {
      s = attempt == 0 ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP")) : Z3_mk_solver(ctx);
      Z3_solver_inc_ref(ctx, s); own = true;
    } else {
      if (sBV && sUses > 2000) dropBV();
      if (!sBV) { sBV = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sBV); }
      sUses++; s = sBV; Z3_solver_reset(ctx, s);
    }
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gSolverTimeoutMs);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    bool track = !own && !getenv("SYMX_NOCORE");
    static std::unordered_map<unsigned, E> lit2e;
    if (track) {
      lit2e.clear();
      for (E e : cs) {
        static Z3_sort bs = nullptr; if (!bs) { bs = Z3_mk_bool_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bs)); }
        static std::unordered_map<uint32_t, Z3_ast> lits; Z3_ast& l = lits[e->id];
        if (!l) { std::string n = "a" + std::to_string(e->id); l = hold(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bs)); }
        Z3_ast la = l; Z3_solver_assert_and_track(ctx, s, tBool(e), la); lit2e[Z3_get_ast_id(ctx, la)] = e;
      }
    } else for (E e : cs) Z3_solver_assert(ctx, s, tBool(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (z3err) { z3err = false; r = Z3_L_UNDEF; }
    if (r == Z3_L_TRUE) {
      res = Res::Sat; m = std::make_shared<Assignment>();
      Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      std::unordered_set<uint32_t> vs; for (E e : cs) for (auto v : e->vars->v) vs.insert(v);
      for (uint32_t v : vs) {
        unsigned w = varInfo(v).w; std::string n = "v" + std::to_string(v);
        Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bvs(w)); Z3_inc_ref(ctx, c);
        Z3_ast val = nullptr; u128 x = 0;
        if (Z3_model_eval(ctx, zm, c, true, &val)) {
          Z3_inc_ref(ctx, val);
          if (w <= 64) { uint64_t u = 0; Z3_get_numeral_uint64(ctx, val, &u); x = u; }
          else { const char* str = Z3_get_numeral_string(ctx, val); for (; *str; str++) x = x * 10 + (*str - '0'); }
          Z3_dec_ref(ctx, val);
        }
        Z3_dec_ref(ctx, c);
        m->m[v] = x;
      }
      Z3_model_dec_ref(ctx, zm);
      // validate the model against our own semantics: a mismatch means the encoding is wrong
      for (E e : cs) if (evalExpr(e, *m) != 1) {
        if (!fp) fprintf(stderr, "solver: model does not satisfy %s\n", exprStr(e).c_str());
        res = Res::Unknown;
      }
    } else if (r == Z3_L_FALSE) {
      res = Res::Unsat;
      if (track) {
        Z3_ast_vector v = Z3_solver_get_unsat_core(ctx, s); Z3_ast_vector_inc_ref(ctx, v);
        std::vector<uint32_t> c; unsigned n = Z3_ast_vector_size(ctx, v); bool ok = n > 0;
        for (unsigned i = 0; i < n; i++) { auto f = lit2e.find(Z3_get_ast_id(ctx, Z3_ast_vector_get(ctx, v, i))); if (f == lit2e.end()) { ok = false; break; } c.push_back(f->second->id); }
        Z3_ast_vector_dec_ref(ctx, v);
        if (ok) { std::sort(c.begin(), c.end()); auto& lst = cores[c.back()]; if (lst.size() < 64) lst.push_back(c); }
      }
    }
    if (own) Z3_solver_dec_ref(ctx, s);
    if (res == Res::Unknown && !fp) { if (sBV) dropBV(); }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  static const char* slow = getenv("SYMX_SLOW");
  if (slow && dt > atof(slow)) { fprintf(stderr, "slow query %.3fs res=%d\n", dt, (int)res); for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e).substr(0, 600).c_str()); }
  gSolverStats.queries++; gSolverStats.seconds += dt; if (dt > gSolverStats.maxq) gSolverStats.maxq = dt; if (dt > 2 && getenv("SYMX_SLOW")) { fprintf(stderr, "SLOW %.1fs:\n", dt); for (E e : cs) fprintf(stderr, "   %s\n", exprStr(e, 14).c_str()); }
  if (res == Res::Sat) gSolverStats.sat++; else if (res == Res::Unsat) gSolverStats.unsat++; else gSolverStats.unknown++;
  if (res != Res::Unknown) qcache[key] = {res, m};
  if (res == Res::Sat && model) for (auto& p : m->m) model->m[p.first] = p.second;
  return res;
}
