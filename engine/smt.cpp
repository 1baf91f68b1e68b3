#include "smt.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
SolveStats gStats;
static Z3_context C; static Z3_solver S;
static void err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void smtInit() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(C, err);
  S = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  const char* rl = getenv("NSX_RLIMIT");
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), rl ? atoi(rl) : 40000000);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
}
static Z3_ast keep(Z3_ast a) { return a; }   // context without reference counting: terms live as long as it
static Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static Z3_ast tr(Expr* e);
static Z3_ast bv(Expr* e) { Z3_ast a = tr(e); return e->w == 1 ? Z3_mk_ite(C, a, num(1, 1), num(0, 1)) : a; }
static Z3_ast bo(Z3_ast bv1) { return Z3_mk_eq(C, bv1, num(1, 1)); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(C) : Z3_mk_fpa_sort_32(C); }
static Z3_ast fp(Expr* e) { return Z3_mk_fpa_to_fp_bv(C, bv(e), fps(e->w)); }
static Z3_ast tr(Expr* e) {
  if (e->z) return (Z3_ast)e->z;
  Z3_ast r = nullptr; Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  bool B = e->w == 1;
  switch (e->op) {
    case CONST_: r = B ? (e->c ? Z3_mk_true(C) : Z3_mk_false(C)) : num(e->c, e->w); break;
    case SYM: { char nm[32]; snprintf(nm, sizeof nm, "s%u_%u", e->aux, e->w); r = Z3_mk_const(C, Z3_mk_string_symbol(C, nm), B ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break; }
    case ADD: r = B ? Z3_mk_xor(C, tr(a), tr(b)) : Z3_mk_bvadd(C, tr(a), tr(b)); break;
    case SUB: r = B ? Z3_mk_xor(C, tr(a), tr(b)) : Z3_mk_bvsub(C, tr(a), tr(b)); break;
    case MUL: if (B) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvmul(C, tr(a), tr(b)); break;
    case UDIV: r = Z3_mk_bvudiv(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case SDIV: r = Z3_mk_bvsdiv(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case UREM: r = Z3_mk_bvurem(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case SREM: r = Z3_mk_bvsrem(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case AND: if (B) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_and(C, 2, x); } else r = Z3_mk_bvand(C, tr(a), tr(b)); break;
    case OR: if (B) { Z3_ast x[2] = {tr(a), tr(b)}; r = Z3_mk_or(C, 2, x); } else r = Z3_mk_bvor(C, tr(a), tr(b)); break;
    case XOR: if (B) r = isC(b) && b->c ? Z3_mk_not(C, tr(a)) : Z3_mk_xor(C, tr(a), tr(b)); else r = Z3_mk_bvxor(C, tr(a), tr(b)); break;
    case SHL: r = Z3_mk_bvshl(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case LSHR: r = Z3_mk_bvlshr(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case ASHR: r = Z3_mk_bvashr(C, bv(a), bv(b)); if (B) r = bo(r); break;
    case EQ: r = a->w == 1 ? Z3_mk_iff(C, tr(a), tr(b)) : Z3_mk_eq(C, tr(a), tr(b)); break;
    case ULT: r = Z3_mk_bvult(C, bv(a), bv(b)); break;
    case ULE: r = Z3_mk_bvule(C, bv(a), bv(b)); break;
    case SLT: r = Z3_mk_bvslt(C, bv(a), bv(b)); break;
    case SLE: r = Z3_mk_bvsle(C, bv(a), bv(b)); break;
    case ITE: r = Z3_mk_ite(C, tr(a), tr(b), tr(c)); break;
    case ZEXT: r = a->w == 1 ? Z3_mk_ite(C, tr(a), num(1, e->w), num(0, e->w)) : Z3_mk_zero_ext(C, e->w - a->w, tr(a)); break;
    case SEXT: r = a->w == 1 ? Z3_mk_ite(C, tr(a), num(~0ull & maskw(e->w), e->w), num(0, e->w)) : Z3_mk_sign_ext(C, e->w - a->w, tr(a)); break;
    case EXTRACT: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, bv(a)); if (B) r = bo(r); break;
    case CONCAT: r = Z3_mk_concat(C, bv(a), bv(b)); break;
    case FADD: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_add(C, Z3_mk_fpa_rne(C), fp(a), fp(b))); break;
    case FSUB: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_sub(C, Z3_mk_fpa_rne(C), fp(a), fp(b))); break;
    case FMUL: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_mul(C, Z3_mk_fpa_rne(C), fp(a), fp(b))); break;
    case FDIV: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_div(C, Z3_mk_fpa_rne(C), fp(a), fp(b))); break;
    case FCMP: { Z3_ast x = fp(a), y = fp(b); Z3_ast u2[2] = {Z3_mk_fpa_is_nan(C, x), Z3_mk_fpa_is_nan(C, y)}; Z3_ast un = Z3_mk_or(C, 2, u2); Z3_ast o;
      switch (e->aux & 7) { case 1: o = Z3_mk_fpa_eq(C, x, y); break; case 2: o = Z3_mk_fpa_gt(C, x, y); break; case 3: o = Z3_mk_fpa_geq(C, x, y); break; case 4: o = Z3_mk_fpa_lt(C, x, y); break;
        case 5: o = Z3_mk_fpa_leq(C, x, y); break; case 6: { Z3_ast q[2] = {Z3_mk_not(C, Z3_mk_fpa_eq(C, x, y)), Z3_mk_not(C, un)}; o = Z3_mk_and(C, 2, q); break; } case 7: o = Z3_mk_not(C, un); break; default: o = Z3_mk_false(C); }
      if (e->aux >= 8) { Z3_ast q[2] = {o, un}; o = Z3_mk_or(C, 2, q); } r = o; break; }
    case FPTOSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fp(a), e->w); break;
    case FPTOUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fp(a), e->w); break;
    case SITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_signed(C, Z3_mk_fpa_rne(C), bv(a), fps(e->w))); break;
    case UITOFP: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_unsigned(C, Z3_mk_fpa_rne(C), bv(a), fps(e->w))); break;
    case FPEXT: case FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(C, Z3_mk_fpa_to_fp_float(C, Z3_mk_fpa_rne(C), fp(a), fps(e->w))); break;
    case UADDO: r = Z3_mk_not(C, Z3_mk_bvadd_no_overflow(C, bv(a), bv(b), false)); break;
    case USUBO: r = Z3_mk_bvult(C, bv(a), bv(b)); break;
    case UMULO: r = Z3_mk_not(C, Z3_mk_bvmul_no_overflow(C, bv(a), bv(b), false)); break;
    case SADDO: { Z3_ast q[2] = {Z3_mk_bvadd_no_overflow(C, bv(a), bv(b), true), Z3_mk_bvadd_no_underflow(C, bv(a), bv(b))}; r = Z3_mk_not(C, Z3_mk_and(C, 2, q)); break; }
    case SSUBO: { Z3_ast q[2] = {Z3_mk_bvsub_no_overflow(C, bv(a), bv(b)), Z3_mk_bvsub_no_underflow(C, bv(a), bv(b), true)}; r = Z3_mk_not(C, Z3_mk_and(C, 2, q)); break; }
    case SMULO: { Z3_ast q[2] = {Z3_mk_bvmul_no_overflow(C, bv(a), bv(b), true), Z3_mk_bvmul_no_underflow(C, bv(a), bv(b))}; r = Z3_mk_not(C, Z3_mk_and(C, 2, q)); break; }
    case CTPOP: { Z3_ast x = bv(a); std::vector<std::pair<Z3_ast, unsigned>> q; for (unsigned i = 0; i < a->w; i++) q.push_back({Z3_mk_extract(C, i, i, x), 1});
      while (q.size() > 1) { std::vector<std::pair<Z3_ast, unsigned>> n; for (size_t i = 0; i + 1 < q.size(); i += 2) { unsigned wd = std::max(q[i].second, q[i + 1].second) + 1; n.push_back({Z3_mk_bvadd(C, Z3_mk_zero_ext(C, wd - q[i].second, q[i].first), Z3_mk_zero_ext(C, wd - q[i + 1].second, q[i + 1].first)), wd}); } if (q.size() & 1) n.push_back(q.back()); q.swap(n); }
      r = q[0].second < e->w ? Z3_mk_zero_ext(C, e->w - q[0].second, q[0].first) : Z3_mk_extract(C, e->w - 1, 0, q[0].first); break; }
    default: fprintf(stderr, "tr op %d\n", e->op); abort();
  }
  e->z = keep(r); return r;
}

struct CacheEnt { int r; std::vector<std::pair<u16, u64>> model; };
struct K128 { u64 a, b; bool operator==(const K128& o) const { return a == o.a && b == o.b; } };
struct KH { size_t operator()(const K128& k) const { return k.a; } };
static std::unordered_map<K128, CacheEnt, KH> cache;

static void collectSyms(Expr* e, std::vector<Expr*>& out, std::vector<Expr*>& stk, u32) {
  // SYM nodes reachable; few, so a simple DFS with a local visited set
  static std::unordered_map<Expr*, char> seen; seen.clear(); stk.push_back(e);
  while (!stk.empty()) { Expr* x = stk.back(); stk.pop_back(); if (x->op == SYM) { if (std::find(out.begin(), out.end(), x) == out.end()) out.push_back(x); continue; }
    for (auto k : x->k) if (k && k->sup.any() && !seen[k]) { seen[k] = 1; stk.push_back(k); } }
}

int smtCheck(const std::vector<Expr*>& cons, Expr* cond, std::vector<u64>& model) {
  if (isC(cond)) return cond->c ? 1 : 0;
  // independent slice
  Sup s = cond->sup; std::vector<Expr*> sl; std::vector<char> in(cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < cons.size(); i++) if (!in[i] && cons[i]->sup.inter(s)) { in[i] = 1; if (!cons[i]->sup.subset(s)) { s.orr(cons[i]->sup); ch = true; } } }
  for (size_t i = 0; i < cons.size(); i++) if (in[i]) sl.push_back(cons[i]);
  std::sort(sl.begin(), sl.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  K128 k{0x1234567, 0x89abcdef};
  auto mix = [&](u64 v) { k.a ^= v + 0x9E3779B97F4A7C15ull + (k.a << 6) + (k.a >> 2); k.a *= 0xff51afd7ed558ccdull; k.a ^= k.a >> 29; k.b = (k.b ^ (v * 0xc4ceb9fe1a85ec53ull)) * 0x2545F4914F6CDD1Dull; k.b ^= k.b >> 31; };
  for (Expr* e : sl) mix(e->id + 1); mix(0); mix(cond->id + 1);
  auto it = cache.find(k);
  if (it != cache.end()) { gStats.cached++; for (auto& p : it->second.model) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; } return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(C, S);
  for (Expr* e : sl) Z3_solver_assert(C, S, tr(e));
  Z3_solver_assert(C, S, tr(cond));
  Z3_lbool r = Z3_solver_check(C, S);
  CacheEnt ent; ent.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (ent.r == 1) {
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    std::vector<Expr*> syms, stk; for (Expr* e : sl) collectSyms(e, syms, stk, 0); collectSyms(cond, syms, stk, 0);
    for (Expr* sy : syms) { Z3_ast v; if (!Z3_model_eval(C, m, tr(sy), true, &v)) abort(); uint64_t x = 0;
      if (sy->w == 1) x = Z3_get_bool_value(C, v) == Z3_L_TRUE; else if (!Z3_get_numeral_uint64(C, v, &x)) abort();
      ent.model.push_back({(u16)sy->aux, x}); }
    Z3_model_dec_ref(C, m);
  }
  if (const char* sq = getenv("NSX_SLOWQ")) { auto us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count(); if (us > atoi(sq) * 1000) fprintf(stderr, "; slow query %ld us result %d\n%s\n", (long)us, ent.r, Z3_solver_to_string(C, S)); }
  Z3_solver_pop(C, S, 1);
  gStats.us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++; (ent.r == 1 ? gStats.sat : ent.r == 0 ? gStats.unsat : gStats.unknown)++;
  if (getenv("NSX_UNKNOWN") && ent.r < 0) fprintf(stderr, "unknown: %s\n", Z3_solver_get_reason_unknown(C, S));
  for (auto& p : ent.model) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
  int rr = ent.r; if (cache.size() > 4000000) cache.clear(); cache.emplace(k, std::move(ent)); return rr;
}
