// z3 translation and queries
#pragma once
#include <algorithm>
#include "expr.h"
#include <chrono>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <z3.h>

typedef std::unordered_map<uint32_t, u128> Model; // leaf expr id -> value (doubles as bits)

enum Res { R_SAT, R_UNSAT, R_UNKNOWN };

struct Solver {
  Pool& P;
  Z3_context c;
  Z3_solver s;
  std::vector<Z3_ast> memo;
  std::vector<uint32_t> stamp;
  uint32_t cur = 0;
  unsigned timeout_ms;
  bool ieee, zexact;
  uint64_t queries = 0, nsat = 0, nunsat = 0, nunk = 0;
  double secs = 0, maxq = 0;
  Solver(Pool& p, unsigned to, bool ie, bool zx) : P(p), timeout_ms(to), ieee(ie), zexact(zx)
  {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(c, nullptr);
    s = nullptr;
  }
  Z3_solver fresh(bool plain, unsigned to)
  {
    Z3_solver x = plain ? Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")) : Z3_mk_solver(c);
    Z3_solver_inc_ref(c, x);
    Z3_params pr = Z3_mk_params(c);
    Z3_params_inc_ref(c, pr);
    Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, "timeout"), to);
    Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, "random_seed"), 1);
    Z3_solver_set_params(c, x, pr);
    Z3_params_dec_ref(c, pr);
    return x;
  }
  bool absMul = false; // products of two unknowns are free variables (UNSAT stays sound)
  std::vector<Z3_ast> memo2;
  std::unordered_map<uint32_t, std::vector<Expr*>> leafCache2;
  void swapAbs() { absMul = !absMul; memo.swap(memo2); leafCache.swap(leafCache2); }
  std::unordered_map<uint32_t, bool> mulMemo;
  bool hasMul(Expr* r)
  {
    auto it = mulMemo.find(r->id);
    if (it != mulMemo.end()) return it->second;
    if (stamp.size() < P.all.size()) stamp.resize(P.all.size() + 1024, 0);
    cur++;
    bool f = false;
    std::vector<Expr*> st{ r };
    stamp[r->id] = cur;
    while (!st.empty() && !f) {
      Expr* e = st.back();
      st.pop_back();
      if (leaf(e)) continue;
      if (e->op == O_MUL && !e->k[0]->isC() && !e->k[1]->isC()) f = true;
      for (unsigned i = 0; i < e->nk; i++)
        if (stamp[e->k[i]->id] != cur) { stamp[e->k[i]->id] = cur; st.push_back(e->k[i]); }
    }
    return mulMemo[r->id] = f;
  }
  uint64_t absProved = 0;
  bool leaf(const Expr* e) const
  {
    switch (e->op) {
      case O_VAR: case O_FVAR: case O_IVAR: case O_OPQ: return true;
      case O_ZADD: case O_ZSUB: case O_ZNEG: case O_ZMUL: case O_ZINV: return !zexact || e->op == O_ZINV;
      case O_FCMP: case O_F2SI: case O_F2UI: case O_FBITS: return !ieee;
      case O_ICMP: case O_ITOBV: return true;
      case O_MUL: return absMul && !e->k[0]->isC() && !e->k[1]->isC();
      default: return false;
    }
  }
  Z3_ast num(u128 v, unsigned w)
  {
    char buf[64];
    int n = 63;
    buf[n] = 0;
    if (!v) buf[--n] = '0';
    while (v) { buf[--n] = '0' + (int)(v % 10); v /= 10; }
    return Z3_mk_numeral(c, buf + n, Z3_mk_bv_sort(c, w));
  }
  Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(c, b, num(1, 1), num(0, 1)); }
  Z3_ast bv2b(Z3_ast b) { return Z3_mk_eq(c, b, num(1, 1)); }
  Z3_sort fps() { return Z3_mk_fpa_sort_double(c); }
  // translate to a z3 term; width-1 BVs are BV1
  Z3_ast tr(Expr* root)
  {
    if (memo.size() < P.all.size()) memo.resize(P.all.size() + 1024, nullptr);
    std::vector<Expr*> st{ root };
    while (!st.empty()) {
      Expr* e = st.back();
      if (memo[e->id]) { st.pop_back(); continue; }
      bool lf = leaf(e), ready = true;
      if (!lf)
        for (unsigned i = 0; i < e->nk; i++)
          if (!memo[e->k[i]->id]) { st.push_back(e->k[i]); ready = false; }
      if (!ready) continue;
      st.pop_back();
      Z3_ast r = lf ? mkleaf(e) : mknode(e);
      Z3_inc_ref(c, r);
      memo[e->id] = r;
    }
    return memo[root->id];
  }
  Z3_ast mkleaf(Expr* e)
  {
    char nm[32];
    snprintf(nm, sizeof nm, "x%u", e->id);
    Z3_sort so = e->sort == S_FP ? (ieee ? fps() : Z3_mk_bv_sort(c, 64)) : Z3_mk_bv_sort(c, e->sort == S_INT ? 64 : e->w);
    return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), so);
  }
  Z3_ast mknode(Expr* e)
  {
    auto K = [&](int i) { return memo[e->k[i]->id]; };
    switch (e->op) {
      case O_CONST: return num(e->val, e->w);
      case O_ADD: return Z3_mk_bvadd(c, K(0), K(1));
      case O_SUB: return Z3_mk_bvsub(c, K(0), K(1));
      case O_MUL: return Z3_mk_bvmul(c, K(0), K(1));
      case O_UDIV: return Z3_mk_bvudiv(c, K(0), K(1));
      case O_SDIV: return Z3_mk_bvsdiv(c, K(0), K(1));
      case O_UREM: return Z3_mk_bvurem(c, K(0), K(1));
      case O_SREM: return Z3_mk_bvsrem(c, K(0), K(1));
      case O_AND: return Z3_mk_bvand(c, K(0), K(1));
      case O_OR: return Z3_mk_bvor(c, K(0), K(1));
      case O_XOR:
        if (e->w == 1 && e->k[1]->isC() && e->k[1]->val) return Z3_mk_bvnot(c, K(0));
        return Z3_mk_bvxor(c, K(0), K(1));
      case O_SHL: return Z3_mk_bvshl(c, K(0), K(1));
      case O_LSHR: return Z3_mk_bvlshr(c, K(0), K(1));
      case O_ASHR: return Z3_mk_bvashr(c, K(0), K(1));
      case O_CONCAT: return Z3_mk_concat(c, K(0), K(1));
      case O_EXTRACT: return Z3_mk_extract(c, e->aux + e->w - 1, e->aux, K(0));
      case O_ZEXT: return Z3_mk_zero_ext(c, e->w - e->k[0]->w, K(0));
      case O_SEXT: return Z3_mk_sign_ext(c, e->w - e->k[0]->w, K(0));
      case O_ITE: return Z3_mk_ite(c, bv2b(K(0)), K(1), K(2));
      case O_EQ: return b2bv(Z3_mk_eq(c, K(0), K(1)));
      case O_ULT: return b2bv(Z3_mk_bvult(c, K(0), K(1)));
      case O_ULE: return b2bv(Z3_mk_bvule(c, K(0), K(1)));
      case O_SLT: return b2bv(Z3_mk_bvslt(c, K(0), K(1)));
      case O_SLE: return b2bv(Z3_mk_bvsle(c, K(0), K(1)));
      case O_ZADD: case O_ZSUB: case O_ZNEG: case O_ZMUL: {
        auto z = [&](int i) { return Z3_mk_zero_ext(c, 16, K(i)); };
        Z3_ast q = num(QMOD, 32), r;
        if (e->op == O_ZADD) r = Z3_mk_bvadd(c, z(0), z(1));
        else if (e->op == O_ZSUB) r = Z3_mk_bvsub(c, Z3_mk_bvadd(c, z(0), q), z(1));
        else if (e->op == O_ZNEG) r = Z3_mk_bvsub(c, q, z(0));
        else r = Z3_mk_bvmul(c, z(0), z(1));
        return Z3_mk_extract(c, 15, 0, Z3_mk_bvurem(c, r, q));
      }
      default: break;
    }
    if (!ieee) { // FP values are uninterpreted leaves here
      char nm[32];
      snprintf(nm, sizeof nm, "f%u", e->id);
      return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_bv_sort(c, 64));
    }
    Z3_ast rne = Z3_mk_fpa_rne(c);
    switch (e->op) {
      case O_FCONST: return Z3_mk_fpa_to_fp_bv(c, num(e->val, 64), fps());
      case O_FADD: return Z3_mk_fpa_add(c, rne, K(0), K(1));
      case O_FSUB: return Z3_mk_fpa_sub(c, rne, K(0), K(1));
      case O_FMUL: return Z3_mk_fpa_mul(c, rne, K(0), K(1));
      case O_FDIV: return Z3_mk_fpa_div(c, rne, K(0), K(1));
      case O_FNEG: return Z3_mk_fpa_neg(c, K(0));
      case O_FABS: return Z3_mk_fpa_abs(c, K(0));
      case O_FSQRT: return Z3_mk_fpa_sqrt(c, rne, K(0));
      case O_F32: return Z3_mk_fpa_to_fp_float(c, rne, Z3_mk_fpa_to_fp_float(c, rne, K(0), Z3_mk_fpa_sort_32(c)), fps());
      case O_FFLOOR: return Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), K(0));
      case O_FCEIL: return Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), K(0));
      case O_FTRUNC: return Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), K(0));
      case O_FRINT: return Z3_mk_fpa_round_to_integral(c, rne, K(0));
      case O_FROUND: return Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), K(0));
      case O_SI2F: return Z3_mk_fpa_to_fp_signed(c, rne, K(0), fps());
      case O_UI2F: return Z3_mk_fpa_to_fp_unsigned(c, rne, K(0), fps());
      case O_F2SI: return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), K(0), e->w);
      case O_F2UI: return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), K(0), e->w);
      case O_FBITS: return Z3_mk_fpa_to_ieee_bv(c, K(0));
      case O_BITS2F: return Z3_mk_fpa_to_fp_bv(c, K(0), fps());
      case O_FITE: return Z3_mk_ite(c, bv2b(K(0)), K(1), K(2));
      case O_FCMP: {
        Z3_ast eq = Z3_mk_fpa_eq(c, K(0), K(1)), gt = Z3_mk_fpa_gt(c, K(0), K(1)), lt = Z3_mk_fpa_lt(c, K(0), K(1));
        Z3_ast un[2] = { Z3_mk_fpa_is_nan(c, K(0)), Z3_mk_fpa_is_nan(c, K(1)) };
        Z3_ast o[4];
        int n = 0;
        if (e->aux & 1) o[n++] = eq;
        if (e->aux & 2) o[n++] = gt;
        if (e->aux & 4) o[n++] = lt;
        if (e->aux & 8) o[n++] = Z3_mk_or(c, 2, un);
        return b2bv(n ? Z3_mk_or(c, n, o) : Z3_mk_false(c));
      }
      default: break;
    }
    char nm[32];
    snprintf(nm, sizeof nm, "o%u", e->id);
    Z3_sort so = e->sort == S_FP ? fps() : Z3_mk_bv_sort(c, e->sort == S_INT ? 64 : e->w);
    return Z3_mk_const(c, Z3_mk_string_symbol(c, nm), so);
  }
  // leaves of a cone (cached)
  std::unordered_map<uint32_t, std::vector<Expr*>> leafCache;
  const std::vector<Expr*>& leaves(Expr* r)
  {
    auto it = leafCache.find(r->id);
    if (it != leafCache.end()) return it->second;
    if (stamp.size() < P.all.size()) stamp.resize(P.all.size() + 1024, 0);
    cur++;
    std::vector<Expr*> st{ r }, out;
    stamp[r->id] = cur;
    while (!st.empty()) {
      Expr* e = st.back();
      st.pop_back();
      if (leaf(e)) { out.push_back(e); continue; }
      for (unsigned i = 0; i < e->nk; i++)
        if (stamp[e->k[i]->id] != cur) { stamp[e->k[i]->id] = cur; st.push_back(e->k[i]); }
    }
    return leafCache[r->id] = out;
  }
  static bool ranged(Expr* e)
  {
    if (e->sort == S_FP) return e->op == O_FVAR && e->fb();
    return e->sort == S_BV && e->w <= 64 && (e->ulo > 0 || e->uhi < (i128)maskw(e->w) ||
           e->slo > -((i128)1 << (e->w - 1)) || e->shi < ((i128)1 << (e->w - 1)) - 1);
  }
  // ---- integer translation (exact up to products of two unknowns, which
  // become fresh variables bounded by their interval): UNSAT is conclusive.
  std::unordered_map<uint32_t, Z3_ast> imemo;
  std::vector<Z3_ast> iside;
  std::unordered_set<uint32_t> isideSeen;
  struct NoInt {};
  Z3_ast inum(i128 v)
  {
    char buf[64];
    int n = 63;
    buf[n] = 0;
    bool ng = v < 0;
    u128 a = ng ? (u128)-v : (u128)v;
    if (!a) buf[--n] = '0';
    while (a) { buf[--n] = '0' + (int)(a % 10); a /= 10; }
    if (ng) buf[--n] = '-';
    return Z3_mk_numeral(c, buf + n, Z3_mk_int_sort(c));
  }
  Z3_ast ipow(unsigned w)
  {
    if (w < 126) return inum((i128)1 << w);
    Z3_ast a[2] = { inum((i128)1 << 64), inum((i128)1 << (w - 64)) };
    return Z3_mk_mul(c, 2, a);
  }
  Z3_ast iop2(int o, Z3_ast x, Z3_ast y)
  {
    Z3_ast a[2] = { x, y };
    return o == 0 ? Z3_mk_add(c, 2, a) : o == 1 ? Z3_mk_sub(c, 2, a) : Z3_mk_mul(c, 2, a);
  }
  Z3_ast isg(Expr* e, Z3_ast x) // signed reading
  {
    if (e->w <= 64) {
      if (e->uhi < ((i128)1 << (e->w - 1))) return x;
      if (e->ulo >= ((i128)1 << (e->w - 1))) return iop2(1, x, ipow(e->w));
    }
    return Z3_mk_ite(c, Z3_mk_ge(c, x, ipow(e->w - 1)), iop2(1, x, ipow(e->w)), x);
  }
  Z3_ast wrap(Z3_ast x, unsigned w) { return Z3_mk_mod(c, x, ipow(w)); }
  Z3_ast ti(Expr* root)
  {
    std::vector<Expr*> st{ root };
    while (!st.empty()) {
      Expr* e = st.back();
      if (imemo.count(e->id)) { st.pop_back(); continue; }
      bool rdy = true;
      if (!leaf(e))
        for (unsigned i = 0; i < e->nk; i++) if (!imemo.count(e->k[i]->id)) { st.push_back(e->k[i]); rdy = false; }
      if (!rdy) continue;
      st.pop_back();
      Z3_ast r = ti1(e);
      Z3_inc_ref(c, r);
      imemo[e->id] = r;
    }
    return imemo[root->id];
  }
  Z3_ast ivarOf(Expr* e, const char* pre, i128 lo, i128 hi)
  {
    char nm[32];
    snprintf(nm, sizeof nm, "%s%u", pre, e->id);
    Z3_ast v = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), Z3_mk_int_sort(c));
    if (isideSeen.insert(e->id).second) {
      Z3_ast a = Z3_mk_ge(c, v, inum(lo)), b = hi >= 0 ? Z3_mk_le(c, v, inum(hi)) : Z3_mk_lt(c, v, ipow(e->w));
      Z3_inc_ref(c, a); Z3_inc_ref(c, b);
      iside.push_back(a);
      iside.push_back(b);
    }
    return v;
  }
  bool icut = false;
  Z3_ast ti1(Expr* e)
  {
    auto K = [&](int i) { return imemo[e->k[i]->id]; };
    auto bl = [&](Z3_ast b) { return Z3_mk_ite(c, b, inum(1), inum(0)); };
    bool rng = e->w <= 64;
    if (leaf(e)) {
      if (e->sort != S_BV) throw NoInt();
      Z3_ast v = ivarOf(e, "ix", rng ? e->ulo : 0, rng ? e->uhi : -1);
      if (rng && e->slo < 0 && e->shi >= 0 && ranged(e)) {
        Z3_ast s = isg(e, v);
        Z3_ast a = Z3_mk_ge(c, s, inum(e->slo)), b = Z3_mk_le(c, s, inum(e->shi));
        Z3_inc_ref(c, a); Z3_inc_ref(c, b);
        iside.push_back(a); iside.push_back(b);
      }
      return v;
    }
    i128 top = e->w < 126 ? (i128)1 << e->w : 0;
    auto fits = [&](i128 hi) { return top && hi < top; };
    bool kr = e->nk > 0 && e->k[0]->w <= 64 && e->k[0]->sort == S_BV;
    switch (e->op) {
      case O_CONST: {
        if (e->val >> 126) return iop2(0, iop2(2, inum((i128)(e->val >> 64)), inum((i128)1 << 64)), inum((i128)(uint64_t)e->val));
        return inum((i128)e->val);
      }
      case O_ADD: {
        Z3_ast s = iop2(0, K(0), K(1));
        if (rng && fits(e->k[0]->uhi + e->k[1]->uhi)) return s;
        // adding a negative constant
        if (rng && e->k[1]->isC() && e->k[0]->ulo + (i128)e->k[1]->val >= top) return iop2(1, s, ipow(e->w));
        return Z3_mk_ite(c, Z3_mk_ge(c, s, ipow(e->w)), iop2(1, s, ipow(e->w)), s);
      }
      case O_SUB: {
        Z3_ast s = iop2(1, K(0), K(1));
        if (rng && e->k[0]->ulo >= e->k[1]->uhi) return s;
        return Z3_mk_ite(c, Z3_mk_lt(c, s, inum(0)), iop2(0, s, ipow(e->w)), s);
      }
      case O_MUL: {
        Z3_ast p;
        bool c0 = e->k[0]->isC(), c1 = e->k[1]->isC();
        if (c0 || c1) p = iop2(2, K(0), K(1));
        else {
          if (!rng) throw NoInt();
          icut = true;
          i128 hi = e->k[0]->uhi * e->k[1]->uhi, lo = e->k[0]->ulo * e->k[1]->ulo;
          if (e->k[0]->uhi >> 62 || e->k[1]->uhi >> 62) throw NoInt();
          p = ivarOf(e, "ip", lo, hi);
          if (fits(hi)) return p;
          return wrap(p, e->w);
        }
        if (rng && !(e->k[0]->uhi >> 62) && !(e->k[1]->uhi >> 62) && fits(e->k[0]->uhi * e->k[1]->uhi)) return p;
        return wrap(p, e->w);
      }
      case O_UDIV: if (!e->k[1]->isC() || !e->k[1]->val) throw NoInt(); return Z3_mk_div(c, K(0), K(1));
      case O_UREM: if (!e->k[1]->isC() || !e->k[1]->val) throw NoInt(); return Z3_mk_mod(c, K(0), K(1));
      case O_SDIV: case O_SREM: {
        if (!e->k[1]->isC() || (e->k[1]->val >> (e->w - 1)) || !e->k[1]->val) throw NoInt();
        Z3_ast s = isg(e->k[0], K(0));
        Z3_ast ab = Z3_mk_ite(c, Z3_mk_lt(c, s, inum(0)), Z3_mk_unary_minus(c, s), s);
        Z3_ast d = e->op == O_SDIV ? Z3_mk_div(c, ab, K(1)) : Z3_mk_mod(c, ab, K(1));
        Z3_ast r = Z3_mk_ite(c, Z3_mk_lt(c, s, inum(0)), Z3_mk_unary_minus(c, d), d);
        return Z3_mk_ite(c, Z3_mk_lt(c, r, inum(0)), iop2(0, r, ipow(e->w)), r);
      }
      case O_AND: {
        if (e->w == 1) return bl(Z3_mk_eq(c, iop2(0, K(0), K(1)), inum(2)));
        for (int i = 0; i < 2; i++) {
          Expr* m = e->k[i];
          if (!m->isC()) continue;
          u128 v = m->val;
          unsigned lo = 0;
          while (v && !(v & 1)) { v >>= 1; lo++; }
          if (v & (v + 1)) continue;
          unsigned hb = lo;
          while (v) { v >>= 1; hb++; }
          Z3_ast x = hb >= e->w ? K(1 - i) : Z3_mk_mod(c, K(1 - i), ipow(hb));
          if (lo) x = iop2(1, x, Z3_mk_mod(c, x, ipow(lo)));
          return x;
        }
        throw NoInt();
      }
      case O_OR:
        if (e->w == 1) return bl(Z3_mk_ge(c, iop2(0, K(0), K(1)), inum(1)));
        throw NoInt();
      case O_XOR:
        if (e->w == 1) return bl(Z3_mk_eq(c, iop2(0, K(0), K(1)), inum(1)));
        if (e->k[1]->isC() && e->k[1]->val == maskw(e->w)) return iop2(1, iop2(1, ipow(e->w), inum(1)), K(0));
        throw NoInt();
      case O_SHL: if (!e->k[1]->isC() || e->k[1]->val >= e->w) throw NoInt(); return wrap(iop2(2, K(0), ipow((unsigned)e->k[1]->val)), e->w);
      case O_LSHR: if (!e->k[1]->isC() || e->k[1]->val >= e->w) throw NoInt(); return Z3_mk_div(c, K(0), ipow((unsigned)e->k[1]->val));
      case O_ASHR: {
        if (!e->k[1]->isC() || e->k[1]->val >= e->w) throw NoInt();
        Z3_ast r = Z3_mk_div(c, isg(e->k[0], K(0)), ipow((unsigned)e->k[1]->val));
        return Z3_mk_ite(c, Z3_mk_lt(c, r, inum(0)), iop2(0, r, ipow(e->w)), r);
      }
      case O_CONCAT: return iop2(0, iop2(2, K(0), ipow(e->k[1]->w)), K(1));
      case O_EXTRACT: {
        Z3_ast x = K(0);
        if (e->aux) x = Z3_mk_div(c, x, ipow(e->aux));
        if (kr && e->k[0]->uhi >> e->aux < top) return x;
        return wrap(x, e->w);
      }
      case O_ZEXT: return K(0);
      case O_SEXT: {
        if (kr && e->k[0]->uhi < ((i128)1 << (e->k[0]->w - 1))) return K(0);
        return Z3_mk_ite(c, Z3_mk_ge(c, K(0), ipow(e->k[0]->w - 1)), iop2(0, K(0), iop2(1, ipow(e->w), ipow(e->k[0]->w))), K(0));
      }
      case O_ITE: return Z3_mk_ite(c, Z3_mk_eq(c, K(0), inum(1)), K(1), K(2));
      case O_EQ: return bl(Z3_mk_eq(c, K(0), K(1)));
      case O_ULT: return bl(Z3_mk_lt(c, K(0), K(1)));
      case O_ULE: return bl(Z3_mk_le(c, K(0), K(1)));
      case O_SLT: return bl(Z3_mk_lt(c, isg(e->k[0], K(0)), isg(e->k[1], K(1))));
      case O_SLE: return bl(Z3_mk_le(c, isg(e->k[0], K(0)), isg(e->k[1], K(1))));
      default: throw NoInt();
    }
  }
  uint64_t iqueries = 0, iproved = 0;
  // true: proved unsatisfiable
  bool checkInt(const std::vector<Expr*>& cs, unsigned to)
  {
    try {
      std::vector<Z3_ast> as;
      iside.clear();
      isideSeen.clear();
      for (auto& kv : imemo) Z3_dec_ref(c, kv.second);
      imemo.clear();
      icut = false;
      for (Expr* x : cs) as.push_back(Z3_mk_eq(c, ti(x), inum(1)));
      Z3_solver s = Z3_mk_solver(c);
      Z3_solver_inc_ref(c, s);
      Z3_params pr = Z3_mk_params(c);
      Z3_params_inc_ref(c, pr);
      Z3_params_set_uint(c, pr, Z3_mk_string_symbol(c, "timeout"), to);
      Z3_solver_set_params(c, s, pr);
      Z3_params_dec_ref(c, pr);
      for (Z3_ast a : as) Z3_solver_assert(c, s, a);
      for (Z3_ast a : iside) Z3_solver_assert(c, s, a);
      Z3_lbool r = Z3_solver_check(c, s);
      Z3_solver_dec_ref(c, s);
      iqueries++;
      if (r == Z3_L_FALSE) iproved++;
      return r == Z3_L_FALSE;
    } catch (NoInt&) {
      return false;
    }
  }
  // conjunction satisfiable? m receives leaf values on SAT
  unsigned quickTo = 1500, quickMiss = 0, intMiss = 0;
  // answers are kept: the same question comes back on many paths
  struct Ans { Res r; Model m; };
  std::unordered_map<std::string, Ans> kept;
  uint64_t nKept = 0;
  Res check(const std::vector<Expr*>& cs, Model* m)
  {
    std::vector<uint32_t> ids;
    for (Expr* x : cs) ids.push_back(x->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    uint64_t h1 = 1469598103934665603ull, h2 = 88172645463325252ull;
    for (uint32_t i : ids) {
      h1 = (h1 ^ i) * 0x100000001b3ull; h1 ^= h1 >> 31;
      h2 = (h2 + i) * 0x9E3779B97F4A7C15ull; h2 ^= h2 >> 29;
    }
    std::string key((char*)&h1, 8);
    key.append((char*)&h2, 8);
    key.append(std::to_string(ids.size()));
    auto it = kept.find(key);
    if (it != kept.end() && (it->second.r == R_UNSAT || it->second.r == R_SAT)) {
      nKept++;
      if (m && it->second.r == R_SAT) for (auto& kv : it->second.m) (*m)[kv.first] = kv.second;
      return it->second.r;
    }
    Model mm;
    Res r = check_(cs, &mm);
    if (r != R_UNKNOWN && kept.size() < 4000000) kept[key] = { r, r == R_SAT ? mm : Model() };
    if (m && r == R_SAT) for (auto& kv : mm) (*m)[kv.first] = kv.second;
    return r;
  }
  Res check_(const std::vector<Expr*>& cs, Model* m)
  {
    bool mu = false;
    if (!ieee) for (Expr* x : cs) mu |= hasMul(x);
    if (mu) {
      swapAbs();
      Res r = checkBV(cs, nullptr, quickTo);
      swapAbs();
      if (r == R_UNSAT) { absProved++; return r; }
    }
    if (ieee || timeout_ms <= quickTo) return checkBV(cs, m, timeout_ms);
    Res r = checkBV(cs, m, quickMiss >= 3 ? std::min(400u, quickTo) : quickTo);
    if (r != R_UNKNOWN) return r;
    quickMiss++;
    auto t0 = std::chrono::steady_clock::now();
    bool u = (intMiss < 3 || intMiss % 16 == 0) && checkInt(cs, std::min(timeout_ms, 4000u));
    intMiss = u ? 0 : intMiss + 1;
    secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (u) { queries++; nunsat++; return R_UNSAT; }
    if (getenv("FSE_DEBUG")) fprintf(stderr, "int %.2f\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    t0 = std::chrono::steady_clock::now();
    int k = kissat(cs, timeout_ms);
    secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (getenv("FSE_DEBUG")) fprintf(stderr, "kissat %d %.2f\n", k, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count());
    if (k == 20) { queries++; nunsat++; kunsat++; return R_UNSAT; }
    if (k == 0) { queries++; nunk++; return R_UNKNOWN; }
    return checkBV(cs, m, timeout_ms);
  }
  uint64_t kqueries = 0, kunsat = 0;
  // bit-blast with z3, decide the CNF with kissat; 20 unsat, 10 sat, 0 unknown
  // z3 numbers clauses and variables loosely: recompute the header
  static std::string fixDimacs(const char* d)
  {
    std::string o;
    long mv = 0, nc = 0;
    for (const char* p = d; *p;) {
      const char* e = strchr(p, '\n');
      if (!e) e = p + strlen(p);
      if (*p == '-' || (*p >= '0' && *p <= '9')) {
        nc++;
        for (const char* q = p; q < e;) {
          char* n;
          long v = strtol(q, &n, 10);
          if (n == q) break;
          if (v < 0) v = -v;
          if (v > mv) mv = v;
          q = n;
          while (q < e && *q == ' ') q++;
        }
        o.append(p, e - p);
        o += '\n';
      }
      p = *e ? e + 1 : e;
    }
    return "p cnf " + std::to_string(mv) + " " + std::to_string(nc) + "\n" + o;
  }
  int kissat(const std::vector<Expr*>& cs, unsigned to)
  {
    kqueries++;
    Z3_goal g = Z3_mk_goal(c, false, false, false);
    Z3_goal_inc_ref(c, g);
    std::unordered_set<Expr*> lv;
    for (Expr* x : cs) for (Expr* l : leaves(x)) lv.insert(l);
    for (Expr* x : cs) Z3_goal_assert(c, g, bv2b(tr(x)));
    for (Expr* l : lv) if (ranged(l)) for (Z3_ast a : rangeAst(l)) Z3_goal_assert(c, g, a);
    Z3_tactic t = nullptr;
    for (const char* nm : { "tseitin-cnf", "bit-blast", "propagate-values", "simplify" }) {
      Z3_tactic u = Z3_mk_tactic(c, nm);
      Z3_tactic_inc_ref(c, u);
      t = t ? Z3_tactic_and_then(c, u, t) : u;
      Z3_tactic_inc_ref(c, t);
    }
    Z3_apply_result ar = Z3_tactic_apply(c, t, g);
    if (!ar) return 0;
    Z3_apply_result_inc_ref(c, ar);
    if (Z3_apply_result_get_num_subgoals(c, ar) != 1) { Z3_apply_result_dec_ref(c, ar); return 0; }
    Z3_goal sg = Z3_apply_result_get_subgoal(c, ar, 0);
    Z3_goal_inc_ref(c, sg);
    int r = 0;
    if (Z3_goal_is_decided_unsat(c, sg)) r = 20;
    else if (Z3_goal_is_decided_sat(c, sg)) r = 10;
    else {
      std::string ds = fixDimacs(Z3_goal_to_dimacs_string(c, sg, false));
      const char* d = ds.c_str();
      char fn[64];
      snprintf(fn, sizeof fn, "/tmp/fse-%d.cnf", (int)getpid());
      if (FILE* f = fopen(fn, "w")) {
        fputs(d, f);
        fclose(f);
        std::string cmd = "kissat -q -n --relaxed --time=" + std::to_string(std::max(1u, to / 1000)) + " " + fn + " >/dev/null 2>&1";
        int rc = system(cmd.c_str()); if (getenv("FSE_DEBUG")) fprintf(stderr, "kissat rc %d len %zu\n", rc, strlen(d));
        r = WIFEXITED(rc) ? WEXITSTATUS(rc) : 0;
        if (r != 10 && r != 20) r = 0;
        unlink(fn);
      }
    }
    Z3_goal_dec_ref(c, sg);
    Z3_apply_result_dec_ref(c, ar);
    Z3_goal_dec_ref(c, g);
    return r;
  }
  std::vector<Z3_ast> rangeAst(Expr* l)
  {
    std::vector<Z3_ast> o;
    Z3_ast x = tr(l);
    if (l->sort == S_FP) {
      if (Z3_get_sort(c, x) != fps()) return o;
      o.push_back(Z3_mk_fpa_leq(c, Z3_mk_fpa_numeral_double(c, l->flo, fps()), x));
      o.push_back(Z3_mk_fpa_leq(c, x, Z3_mk_fpa_numeral_double(c, l->fhi, fps())));
      return o;
    }
    if (l->ulo > 0) o.push_back(Z3_mk_bvuge(c, x, num((u128)l->ulo, l->w)));
    if (l->uhi < (i128)maskw(l->w)) o.push_back(Z3_mk_bvule(c, x, num((u128)l->uhi, l->w)));
    if (l->slo > -((i128)1 << (l->w - 1))) o.push_back(Z3_mk_bvsge(c, x, num((u128)l->slo & maskw(l->w), l->w)));
    if (l->shi < ((i128)1 << (l->w - 1)) - 1) o.push_back(Z3_mk_bvsle(c, x, num((u128)l->shi & maskw(l->w), l->w)));
    return o;
  }
  Res checkBV(const std::vector<Expr*>& cs, Model* m, unsigned to)
  {
    auto t0 = std::chrono::steady_clock::now();
    bool plain = !ieee;
    std::unordered_set<Expr*> lv;
    for (Expr* x : cs) for (Expr* l : leaves(x)) lv.insert(l);
    Z3_solver s = fresh(plain, to);
    for (Expr* x : cs) Z3_solver_assert(c, s, bv2b(tr(x)));
    for (Expr* l : lv) if (ranged(l)) for (Z3_ast a : rangeAst(l)) Z3_solver_assert(c, s, a);
    Z3_lbool r = Z3_solver_check(c, s);
    if (r == Z3_L_TRUE && m) {
      Z3_model md = Z3_solver_get_model(c, s);
      Z3_model_inc_ref(c, md);
      for (Expr* l : lv) {
        Z3_ast v;
        if (l->sort == S_INT) continue;
        Z3_ast q = tr(l);
        if (l->sort == S_FP && ieee) q = Z3_mk_fpa_to_ieee_bv(c, q);
        if (!Z3_model_eval(c, md, q, true, &v)) continue;
        Z3_inc_ref(c, v);
        const char* str = Z3_get_numeral_string(c, v);
        u128 x = 0;
        if (str) for (const char* p = str; *p; p++) if (*p >= '0' && *p <= '9') x = x * 10 + (*p - '0');
        (*m)[l->id] = x;
        Z3_dec_ref(c, v);
      }
      Z3_model_dec_ref(c, md);
    }
    Z3_solver_dec_ref(c, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    secs += dt;
    if (dt > maxq) maxq = dt;
    queries++;
    if (r == Z3_L_TRUE) { nsat++; return R_SAT; }
    if (r == Z3_L_FALSE) { nunsat++; return R_UNSAT; }
    nunk++;
    return R_UNKNOWN;
  }
  // ---- concrete evaluation under a model (leaves default to ulo / 0)
  std::vector<u128> ev;
  std::vector<uint32_t> evs;
  uint32_t evcur = 0;
  u128 leafVal(Expr* e, const Model& m)
  {
    auto it = m.find(e->id);
    if (it != m.end()) return it->second;
    if (e->sort == S_FP && e->fb()) { double x = e->flo <= 0 && e->fhi >= 0 ? 0.0 : e->flo; return db(x); }
    if (e->sort == S_BV && e->w <= 64) return e->slo > 0 || e->shi < 0 ? (u128)e->ulo : (e->ulo > 0 ? (u128)e->ulo : 0);
    return 0;
  }
  u128 eval(Expr* root, const Model& m)
  {
    if (ev.size() < P.all.size()) { ev.resize(P.all.size() + 4096); evs.resize(P.all.size() + 4096, 0); }
    evcur++;
    std::vector<Expr*> st{ root };
    while (!st.empty()) {
      Expr* e = st.back();
      if (evs[e->id] == evcur) { st.pop_back(); continue; }
      if (e->op == O_CONST || e->op == O_FCONST) { ev[e->id] = e->val; evs[e->id] = evcur; st.pop_back(); continue; }
      if (leaf(e) || e->sort == S_INT) { ev[e->id] = leafVal(e, m); evs[e->id] = evcur; st.pop_back(); continue; }
      bool rdy = true;
      for (unsigned i = 0; i < e->nk; i++)
        if (evs[e->k[i]->id] != evcur) { st.push_back(e->k[i]); rdy = false; }
      if (!rdy) continue;
      st.pop_back();
      ev[e->id] = evn(e);
      evs[e->id] = evcur;
    }
    return ev[root->id];
  }
  static double d(u128 v) { uint64_t b = (uint64_t)v; double x; memcpy(&x, &b, 8); return x; }
  static u128 db(double x) { uint64_t b; memcpy(&b, &x, 8); return b; }
  u128 evn(Expr* e)
  {
    auto K = [&](int i) { return ev[e->k[i]->id]; };
    unsigned w = e->w, kw = e->nk ? e->k[0]->w : 0;
    u128 mk = maskw(w);
    switch (e->op) {
      case O_ADD: return (K(0) + K(1)) & mk;
      case O_SUB: return (K(0) - K(1)) & mk;
      case O_MUL: return (K(0) * K(1)) & mk;
      case O_UDIV: return K(1) ? K(0) / K(1) : mk;
      case O_UREM: return K(1) ? K(0) % K(1) : K(0);
      case O_SDIV: { i128 a = sgn(K(0), w), b = sgn(K(1), w); return b ? (u128)(a / b) & mk : (a < 0 ? 1 : mk); }
      case O_SREM: { i128 a = sgn(K(0), w), b = sgn(K(1), w); return b ? (u128)(a % b) & mk : K(0); }
      case O_AND: return K(0) & K(1);
      case O_OR: return K(0) | K(1);
      case O_XOR: return (K(0) ^ K(1)) & mk;
      case O_SHL: return K(1) >= w ? 0 : (K(0) << (unsigned)K(1)) & mk;
      case O_LSHR: return K(1) >= w ? 0 : K(0) >> (unsigned)K(1);
      case O_ASHR: { unsigned s = K(1) >= w ? w - 1 : (unsigned)K(1); return (u128)(sgn(K(0), w) >> s) & mk; }
      case O_CONCAT: return (K(0) << e->k[1]->w) | K(1);
      case O_EXTRACT: return (K(0) >> e->aux) & mk;
      case O_ZEXT: return K(0);
      case O_SEXT: return (u128)sgn(K(0), kw) & mk;
      case O_ITE: case O_FITE: return K(0) ? K(1) : K(2);
      case O_EQ: return K(0) == K(1);
      case O_ULT: return K(0) < K(1);
      case O_ULE: return K(0) <= K(1);
      case O_SLT: return sgn(K(0), kw) < sgn(K(1), kw);
      case O_SLE: return sgn(K(0), kw) <= sgn(K(1), kw);
      case O_ZADD: return (K(0) + K(1)) % QMOD;
      case O_ZSUB: return (K(0) + QMOD - K(1) % QMOD) % QMOD;
      case O_ZNEG: return (QMOD - K(0) % QMOD) % QMOD;
      case O_ZMUL: return (K(0) * K(1)) % QMOD;
      case O_FADD: return db(d(K(0)) + d(K(1)));
      case O_FSUB: return db(d(K(0)) - d(K(1)));
      case O_FMUL: return db(d(K(0)) * d(K(1)));
      case O_FDIV: return db(d(K(0)) / d(K(1)));
      case O_FNEG: return db(-d(K(0)));
      case O_FABS: return db(std::fabs(d(K(0))));
      case O_FFLOOR: return db(std::floor(d(K(0))));
      case O_FCEIL: return db(std::ceil(d(K(0))));
      case O_FROUND: return db(std::round(d(K(0))));
      case O_FTRUNC: return db(std::trunc(d(K(0))));
      case O_FRINT: return db(std::rint(d(K(0))));
      case O_FSQRT: return db(std::sqrt(d(K(0))));
      case O_F32: return db((double)(float)d(K(0)));
      case O_SI2F: return db((double)(int64_t)sgn(K(0), kw));
      case O_UI2F: return db((double)(uint64_t)K(0));
      case O_F2SI: { double x = d(K(0)); return x > -9.3e18 && x < 9.2e18 ? (u128)(i128)(int64_t)x & mk : (u128)1 << (w - 1); }
      case O_F2UI: { double x = d(K(0)); return x >= 0 && x < 1.84e19 ? (u128)(uint64_t)x & mk : 0; }
      case O_FBITS: case O_BITS2F: return K(0);
      case O_FCMP: {
        double x = d(K(0)), y = d(K(1));
        unsigned r = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4;
        return (e->aux & r) != 0;
      }
      default: return 0;
    }
  }
};
