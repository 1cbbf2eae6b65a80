// Hash-consed term DAG with constant folding, light rewriting and interval
// ranges. Sorts: bit-vectors (<=128 bits), IEEE doubles, mathematical integers.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  // floating point (double)
  O_FCONST, O_FVAR, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FFLOOR,
  O_FCEIL, O_FROUND, O_FTRUNC, O_FRINT, O_FSQRT, O_SI2F, O_UI2F, O_F2SI, O_F2UI,
  O_FCMP, O_FBITS, O_BITS2F, O_FITE, O_I2F, O_F32, // F32: rounded to single precision
  // Z_q (16-bit canonical values)
  O_ZADD, O_ZSUB, O_ZNEG, O_ZMUL, O_ZINV,
  // mathematical integers
  O_ICONST, O_IVAR, O_IADD, O_ISUB, O_IMUL, O_INEG, O_ISHL, O_ISHR, O_IDIV, O_IABS,
  O_IFROMS, O_ITOBV, O_ICMP, O_IITE, O_IREM, O_ISQRT, O_IGCD,
  O_OPQ, // opaque application; val = name index, args = kids
  O_NOPS
};
static const char* opnames[] = {
  "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or",
  "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq",
  "ult", "ule", "slt", "sle", "fconst", "fvar", "fadd", "fsub", "fmul", "fdiv",
  "fneg", "fabs", "ffloor", "fceil", "fround", "ftrunc", "frint", "fsqrt", "si2f",
  "ui2f", "f2si", "f2ui", "fcmp", "fbits", "bits2f", "fite", "i2f", "f32", "zadd", "zsub",
  "zneg", "zmul", "zinv", "iconst", "ivar", "iadd", "isub", "imul", "ineg", "ishl",
  "ishr", "idiv", "iabs", "ifroms", "itobv", "icmp", "iite", "irem", "isqrt", "igcd",
  "opq"
};
enum Sort : uint8_t { S_BV, S_FP, S_INT };
static const unsigned QMOD = 12289;

struct Expr {
  uint32_t id;
  Op op;
  Sort sort;
  uint8_t alg; // cone contains Z_q / FP / INT nodes
  uint8_t wide;
  uint16_t w;
  uint16_t aux; // predicate, extract lo
  uint32_t nk;
  Expr** k;
  u128 val;
  i128 ulo, uhi, slo, shi; // valid if w<=64 and BV
  double flo, fhi; // FP: bounds of the value (then it is not a NaN) if finite
  bool fb() const { return sort == 1 && std::isfinite(flo) && std::isfinite(fhi); }
  bool isC() const { return op == O_CONST; }
  bool isFC() const { return op == O_FCONST; }
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sgn(u128 v, unsigned w)
{
  if (w >= 128) return (i128)v;
  v &= maskw(w);
  if ((v >> (w - 1)) & 1) return (i128)v - ((i128)1 << w);
  return (i128)v;
}

struct Pool {
  std::vector<Expr*> all;
  std::vector<std::string> names;
  std::unordered_map<std::string, uint32_t> nameIx;
  std::vector<Expr*> table;
  size_t cnt = 0;
  char* arena = nullptr;
  size_t arenaLeft = 0;
  Pool() { table.assign(1 << 20, nullptr); }
  void* alloc(size_t n)
  {
    n = (n + 15) & ~(size_t)15;
    if (n > arenaLeft) {
      size_t blk = std::max<size_t>(n, 1 << 22);
      arena = (char*)aligned_alloc(16, blk);
      arenaLeft = blk;
    }
    void* p = arena;
    arena += n;
    arenaLeft -= n;
    return p;
  }
  uint32_t name(const std::string& s)
  {
    auto it = nameIx.find(s);
    if (it != nameIx.end()) return it->second;
    uint32_t i = names.size();
    names.push_back(s);
    nameIx[s] = i;
    return i;
  }
  static size_t hsh(Op op, Sort so, unsigned w, unsigned aux, u128 val, Expr** k, unsigned nk)
  {
    size_t h = op * 1000003u + so * 7919u + w * 31u + aux * 131071u;
    h ^= (size_t)val * 0x9E3779B97F4A7C15ull;
    h ^= (size_t)(val >> 64) * 0xC2B2AE3D27D4EB4Full;
    for (unsigned i = 0; i < nk; i++) h = (h ^ k[i]->id) * 0x100000001b3ull + (h >> 29);
    h ^= h >> 32;
    return h;
  }
  Expr* mk(Op op, Sort so, unsigned w, unsigned aux, u128 val, std::initializer_list<Expr*> ks)
  {
    return mkv(op, so, w, aux, val, const_cast<Expr**>(ks.begin()), ks.size());
  }
  Expr* mkv(Op op, Sort so, unsigned w, unsigned aux, u128 val, Expr** k, unsigned nk)
  {
    size_t h = hsh(op, so, w, aux, val, k, nk), m = table.size() - 1;
    for (size_t i = h & m;; i = (i + 1) & m) {
      Expr* e = table[i];
      if (!e) break;
      if (e->op == op && e->sort == so && e->w == w && e->aux == aux && e->val == val &&
          e->nk == nk && !memcmp(e->k, k, nk * sizeof(Expr*)))
        return e;
    }
    Expr* e = (Expr*)alloc(sizeof(Expr));
    e->op = op; e->sort = so; e->w = w; e->aux = aux; e->val = val; e->nk = nk;
    e->k = (Expr**)alloc(std::max<size_t>(1, nk) * sizeof(Expr*));
    memcpy(e->k, k, nk * sizeof(Expr*));
    e->id = all.size();
    e->wide = w > 64;
    e->alg = (so != S_BV) || (op >= O_FCONST && op <= O_IGCD) || op == O_OPQ;
    for (unsigned i = 0; i < nk; i++) e->alg |= k[i]->alg;
    all.push_back(e);
    range(e);
    if (++cnt * 2 > table.size()) {
      std::vector<Expr*> nt(table.size() * 2, nullptr);
      size_t mm = nt.size() - 1;
      for (Expr* x : all) {
        size_t hh = hsh(x->op, x->sort, x->w, x->aux, x->val, x->k, x->nk);
        size_t j = hh & mm;
        while (nt[j]) j = (j + 1) & mm;
        nt[j] = x;
      }
      table.swap(nt);
    } else {
      size_t j = h & m;
      while (table[j]) j = (j + 1) & m;
      table[j] = e;
    }
    return e;
  }
  // ---- ranges
  static void full(Expr* e)
  {
    unsigned w = e->w;
    e->ulo = 0;
    e->uhi = (i128)maskw(w);
    e->slo = -((i128)1 << (w - 1));
    e->shi = ((i128)1 << (w - 1)) - 1;
  }
  static void cross(Expr* e)
  {
    unsigned w = e->w;
    i128 half = (i128)1 << (w - 1), fullv = (i128)1 << w;
    if (e->uhi < half) { // nonneg
      if (e->ulo > e->slo) e->slo = e->ulo;
      if (e->uhi < e->shi) e->shi = e->uhi;
    } else if (e->ulo >= half) {
      if (e->ulo - fullv > e->slo) e->slo = e->ulo - fullv;
      if (e->uhi - fullv < e->shi) e->shi = e->uhi - fullv;
    }
    if (e->slo >= 0) {
      if (e->slo > e->ulo) e->ulo = e->slo;
      if (e->shi < e->uhi) e->uhi = e->shi;
    } else if (e->shi < 0) {
      if (e->slo + fullv > e->ulo) e->ulo = e->slo + fullv;
      if (e->shi + fullv < e->uhi) e->uhi = e->shi + fullv;
    }
  }
  static void setU(Expr* e, i128 lo, i128 hi)
  {
    if (lo < 0 || hi > (i128)maskw(e->w) || lo > hi) return;
    if (lo > e->ulo) e->ulo = lo;
    if (hi < e->uhi) e->uhi = hi;
  }
  static void setS(Expr* e, i128 lo, i128 hi)
  {
    i128 mn = -((i128)1 << (e->w - 1)), mx = ((i128)1 << (e->w - 1)) - 1;
    if (lo < mn || hi > mx || lo > hi) return;
    if (lo > e->slo) e->slo = lo;
    if (hi < e->shi) e->shi = hi;
  }
  // interval of a floating-point term; rounding is monotone
  void frange(Expr* e)
  {
    e->flo = -INFINITY;
    e->fhi = INFINITY;
    if (e->sort != S_FP) return;
    Expr* a = e->nk > 0 ? e->k[0] : nullptr;
    Expr* b = e->nk > 1 ? e->k[1] : nullptr;
    auto set = [&](double lo, double hi) { if (lo <= hi) { e->flo = lo; e->fhi = hi; } };
    switch (e->op) {
      case O_FCONST: { double v = fcv(e); if (std::isfinite(v)) set(v, v); break; }
      case O_FADD: if (a->fb() && b->fb()) set(a->flo + b->flo, a->fhi + b->fhi); break;
      case O_FSUB: if (a->fb() && b->fb()) set(a->flo - b->fhi, a->fhi - b->flo); break;
      case O_FMUL: case O_FDIV:
        if (a->fb() && b->fb() && (e->op == O_FMUL || b->flo > 0 || b->fhi < 0)) {
          double lo = INFINITY, hi = -INFINITY;
          for (double x : { a->flo, a->fhi })
            for (double y : { b->flo, b->fhi }) {
              double r = e->op == O_FMUL ? x * y : x / y;
              if (r < lo) lo = r;
              if (r > hi) hi = r;
            }
          if (a == b && e->op == O_FMUL && lo < 0) lo = 0;
          set(lo, hi);
        }
        break;
      case O_FNEG: if (a->fb()) set(-a->fhi, -a->flo); break;
      case O_FABS: if (a->fb()) set(a->flo >= 0 ? a->flo : a->fhi <= 0 ? -a->fhi : 0, std::max(std::fabs(a->flo), std::fabs(a->fhi))); break;
      case O_FFLOOR: if (a->fb()) set(std::floor(a->flo), std::floor(a->fhi)); break;
      case O_FCEIL: if (a->fb()) set(std::ceil(a->flo), std::ceil(a->fhi)); break;
      case O_FROUND: if (a->fb()) set(std::round(a->flo), std::round(a->fhi)); break;
      case O_FTRUNC: if (a->fb()) set(std::trunc(a->flo), std::trunc(a->fhi)); break;
      case O_FRINT: if (a->fb()) set(std::rint(a->flo), std::rint(a->fhi)); break;
      case O_F32: if (a->fb()) set((double)(float)a->flo, (double)(float)a->fhi); break;
      case O_FSQRT: if (a->fb() && a->flo >= 0) set(std::sqrt(a->flo), std::sqrt(a->fhi)); break;
      case O_SI2F: if (a->w <= 64) set((double)a->slo, (double)a->shi); break;
      case O_UI2F: if (a->w <= 64) set((double)a->ulo, (double)a->uhi); break;
      case O_FITE: if (b->fb() && e->k[2]->fb()) set(std::min(b->flo, e->k[2]->flo), std::max(b->fhi, e->k[2]->fhi)); break;
      default: break;
    }
  }
  Expr* ffold(Expr* e) { return foldF && e->fb() && e->flo == e->fhi && !e->isFC() ? FC(e->flo) : e; }
  bool foldF = true;
  void range(Expr* e)
  {
    frange(e);
    if (e->sort != S_BV || e->w > 64) { e->ulo = e->uhi = e->slo = e->shi = 0; return; }
    full(e);
    unsigned w = e->w;
    Expr* a = e->nk > 0 ? e->k[0] : nullptr;
    Expr* b = e->nk > 1 ? e->k[1] : nullptr;
    bool ab = a && a->sort == S_BV && a->w <= 64;
    bool bb = b && b->sort == S_BV && b->w <= 64;
    switch (e->op) {
      case O_CONST: e->ulo = e->uhi = (i128)e->val; e->slo = e->shi = sgn(e->val, w); return;
      case O_ADD:
        setU(e, a->ulo + b->ulo, a->uhi + b->uhi);
        setS(e, a->slo + b->slo, a->shi + b->shi);
        break;
      case O_SUB:
        setU(e, a->ulo - b->uhi, a->uhi - b->ulo);
        setS(e, a->slo - b->shi, a->shi - b->slo);
        break;
      case O_MUL: {
        if (w <= 62 || (a->uhi < ((i128)1 << 62) && b->uhi < ((i128)1 << 62)))
          setU(e, a->ulo * b->ulo, a->uhi * b->uhi);
        if (w <= 62 || (a->slo > -((i128)1 << 62) && a->shi < ((i128)1 << 62) &&
                        b->slo > -((i128)1 << 62) && b->shi < ((i128)1 << 62))) {
          i128 p[4] = { a->slo * b->slo, a->slo * b->shi, a->shi * b->slo, a->shi * b->shi };
          i128 lo = p[0], hi = p[0];
          for (i128 x : p) { if (x < lo) lo = x; if (x > hi) hi = x; }
          if (a == b) { lo = a->slo > 0 ? a->slo * a->slo : a->shi < 0 ? a->shi * a->shi : 0; }
          setS(e, lo, hi);
        }
        break;
      }
      case O_UDIV: setU(e, b->uhi ? a->ulo / b->uhi : 0, b->ulo > 0 ? a->uhi / b->ulo : a->uhi); break;
      case O_UREM: if (b->uhi > 0) setU(e, 0, std::min(a->uhi, b->uhi - 1)); break;
      case O_SDIV: if (b->slo > 0) {
          i128 lo = a->slo < 0 ? a->slo / b->slo : a->slo / b->shi;
          i128 hi = a->shi < 0 ? a->shi / b->shi : a->shi / b->slo;
          setS(e, lo, hi);
        } break;
      case O_SREM: if (b->slo > 0) setS(e, a->slo < 0 ? -(b->shi - 1) : 0, a->shi > 0 ? std::min(a->shi, b->shi - 1) : 0); break;
      case O_AND: setU(e, 0, std::min(a->uhi, b->uhi)); break;
      case O_OR: {
        i128 m = std::max(a->uhi, b->uhi), p = 1;
        while (p <= m) p <<= 1;
        setU(e, std::max(a->ulo, b->ulo), p - 1);
        break;
      }
      case O_XOR: {
        i128 m = std::max(a->uhi, b->uhi), p = 1;
        while (p <= m) p <<= 1;
        setU(e, 0, p - 1);
        break;
      }
      case O_SHL: if (b->isC() && b->uhi < w) {
          unsigned s = (unsigned)b->uhi;
          if (a->uhi <= ((i128)maskw(w) >> s)) setU(e, a->ulo << s, a->uhi << s);
          if (s < 60) setS(e, a->slo * ((i128)1 << s), a->shi * ((i128)1 << s));
        } break;
      case O_LSHR: if (b->isC() && b->uhi < w) setU(e, a->ulo >> (unsigned)b->uhi, a->uhi >> (unsigned)b->uhi); else setU(e, 0, a->uhi); break;
      case O_ASHR: if (b->isC() && b->uhi < w) setS(e, a->slo >> (unsigned)b->uhi, a->shi >> (unsigned)b->uhi); break;
      case O_CONCAT: if (ab && bb) setU(e, (a->ulo << b->w) + b->ulo, (a->uhi << b->w) + b->uhi); break;
      case O_EXTRACT: if (ab) {
          if (e->aux == 0 && a->uhi <= (i128)maskw(w)) setU(e, a->ulo, a->uhi);
          if (e->aux == 0) setS(e, a->slo, a->shi);
          if (e->aux > 0 && e->aux + w == a->w) setU(e, a->ulo >> e->aux, a->uhi >> e->aux);
          else if (e->aux > 0 && (a->uhi >> e->aux) <= (i128)maskw(w)) setU(e, a->ulo >> e->aux, a->uhi >> e->aux);
        } break;
      case O_ZEXT: setU(e, a->ulo, a->uhi); break;
      case O_SEXT: setS(e, a->slo, a->shi); break;
      case O_ITE: {
        Expr* c = e->k[2];
        setU(e, std::min(b->ulo, c->ulo), std::max(b->uhi, c->uhi));
        setS(e, std::min(b->slo, c->slo), std::max(b->shi, c->shi));
        if (b->op == O_SUB && b->k[1] == c && b->k[0]->isC() && b->k[0]->val == 0 && a->op == O_SLT && a->k[0] == c &&
            a->k[1]->isC() && a->k[1]->val == 0 && c->slo > -((i128)1 << (w - 1)))
          setS(e, 0, std::max(-c->slo, c->shi)); // absolute value
        break;
      }
      case O_ZADD: case O_ZSUB: case O_ZNEG: case O_ZMUL: case O_ZINV: setU(e, 0, QMOD - 1); break;
      case O_F2SI: if (a->fb() && std::fabs(a->flo) < 1e18 && std::fabs(a->fhi) < 1e18) setS(e, (i128)std::trunc(a->flo), (i128)std::trunc(a->fhi)); break;
      case O_F2UI: if (a->fb() && a->flo > -1 && a->fhi < 1e18) setU(e, (i128)std::trunc(a->flo), (i128)std::trunc(a->fhi)); break;
      default: break;
    }
    cross(e);
    cross(e);
  }
  // ---- constructors
  Expr* C(u128 v, unsigned w) { return mk(O_CONST, S_BV, w, 0, v & maskw(w), {}); }
  Expr* T() { return C(1, 1); }
  Expr* F() { return C(0, 1); }
  Expr* B(bool b) { return C(b, 1); }
  Expr* var(const std::string& n, unsigned w) { return mk(O_VAR, S_BV, w, 0, name(n), {}); }
  Expr* fvar(const std::string& n) { return mk(O_FVAR, S_FP, 64, 0, name(n), {}); }
  Expr* ivar(const std::string& n) { return mk(O_IVAR, S_INT, 64, 0, name(n), {}); }
  Expr* iconst(const std::string& n) { return mk(O_ICONST, S_INT, 64, 0, name(n), {}); }
  Expr* FC(double d)
  {
    uint64_t b;
    memcpy(&b, &d, 8);
    return mk(O_FCONST, S_FP, 64, 0, b, {});
  }
  static double fcv(Expr* e)
  {
    double d;
    uint64_t b = (uint64_t)e->val;
    memcpy(&d, &b, 8);
    return d;
  }
  Expr* opq(const std::string& n, Sort so, unsigned w, std::vector<Expr*> a, unsigned aux = 0)
  {
    return mkv(O_OPQ, so, w, aux, name(n), a.data(), a.size());
  }
  Expr* Not(Expr* a)
  {
    if (a->isC()) return B(!a->val);
    if (a->op == O_XOR && a->k[1]->isC() && a->w == 1) return a->k[0];
    if (a->op == O_ULT) return ule(a->k[1], a->k[0]);
    if (a->op == O_ULE) return ult(a->k[1], a->k[0]);
    if (a->op == O_SLT) return sle(a->k[1], a->k[0]);
    if (a->op == O_SLE) return slt(a->k[1], a->k[0]);
    return mk(O_XOR, S_BV, 1, 0, 0, { a, T() });
  }
  Expr* add(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a->isC() && b->isC()) return C(a->val + b->val, w);
    if (a->isC()) std::swap(a, b);
    if (b->isC()) {
      if (b->val == 0) return a;
      if (a->op == O_ADD && a->k[1]->isC()) return add(a->k[0], C(a->k[1]->val + b->val, w));
      if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
        return ite(a->k[0], add(a->k[1], b), add(a->k[2], b));
    } else {
      if (a->op == O_ADD && a->k[1]->isC()) return add(add(a->k[0], b), a->k[1]);
      if (b->op == O_ADD && b->k[1]->isC()) return add(add(a, b->k[0]), b->k[1]);
      if (b->op == O_SUB && b->k[1] == a) return b->k[0];
      if (a->op == O_SUB && a->k[1] == b) return a->k[0];
      if (w > 1 && w <= 64)
        if (Expr* d = disjoint(a, b)) return d;
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(O_ADD, S_BV, w, 0, 0, { a, b });
  }
  Expr* sub(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a == b) return C(0, w);
    if (b->isC()) return add(a, C((u128)0 - b->val, w));
    if (b->op == O_ITE && b->k[1]->isC() && b->k[2]->isC())
      return add(a, ite(b->k[0], C((u128)0 - b->k[1]->val, w), C((u128)0 - b->k[2]->val, w)));
    if (a->op == O_ADD) {
      if (a->k[0] == b) return a->k[1];
      if (a->k[1] == b) return a->k[0];
    }
    Expr* sb = stripz(b);
    if (sb->op == O_MUL)
      for (int i = 0; i < 2; i++) { // a - (a / d) * d
        Expr *q = core(sb->k[i]), *d = sb->k[1 - i];
        if (q->op == O_UDIV && sameVal(q->k[0], a) && sameVal(q->k[1], d)) {
          Expr* r = urem(q->k[0], q->k[1]);
          return r->w <= w ? zext(r, w) : trunc(r, w);
        }
      }
    return mk(O_SUB, S_BV, w, 0, 0, { a, b });
  }
  Expr* neg(Expr* a) { return sub(C(0, a->w), a); }
  // absolute value, two's complement
  Expr* abs_(Expr* a)
  {
    unsigned w = a->w;
    if (w <= 64 && a->slo >= 0) return a;
    Expr* n = a->op == O_SUB && a->k[0]->isC() && a->k[0]->val == 0 ? a->k[1] : nullptr;
    if (n && w <= 64 && n->slo >= 0) return n;
    if (w <= 64 && a->shi <= 0 && a->slo > -((i128)1 << (w - 1))) return neg(a);
    if (a->op == O_ITE) {
      Expr *x = abs_(a->k[1]), *y = abs_(a->k[2]);
      if (x == y) return x;
    }
    return ite(slt(a, C(0, w)), neg(a), a);
  }
  Expr* mul(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a->isC() && b->isC()) return C(a->val * b->val, w);
    if (a->isC()) std::swap(a, b);
    if (b->isC()) {
      if (b->val == 0) return b;
      if (b->val == 1) return a;
      if (a->op == O_ZEXT && a->k[0]->w == 1) return ite(a->k[0], b, C(0, w));
      if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
        return ite(a->k[0], mul(a->k[1], b), mul(a->k[2], b));
      // power of two -> shift (kept as slices)
      u128 v = b->val;
      if ((v & (v - 1)) == 0) {
        unsigned s = 0;
        while (!((v >> s) & 1)) s++;
        return shl(a, C(s, w));
      }
    } else {
      if (a->op == O_ZEXT && a->k[0]->w == 1) return ite(a->k[0], b, C(0, w));
      if (b->op == O_ZEXT && b->k[0]->w == 1) return ite(b->k[0], a, C(0, w));
      if (a->id > b->id) std::swap(a, b);
    }
    if (w == 128 && a->op == O_ZEXT && a->k[0]->w > 32 && a->k[0]->w <= 64 && (b->isC() ? (b->val >> 64) == 0 : b->op == O_ZEXT && b->k[0]->w <= 64)) {
      // full product of two 64-bit values: by 32-bit halves
      Expr *x = zext(a->k[0], 64), *y = b->isC() ? C(b->val, 64) : zext(b->k[0], 64);
      Expr *xl = zext(extract(x, 0, 32), 64), *xh = zext(extract(x, 32, 32), 64);
      Expr *yl = zext(extract(y, 0, 32), 64), *yh = zext(extract(y, 32, 32), 64);
      Expr *hh = mul(xh, yh), *hl = mul(xh, yl), *lh = mul(xl, yh), *ll = mul(xl, yl);
      Expr* mid = add(zext(hl, 128), zext(lh, 128));
      return add(add(concat(hh, C(0, 64)), zext(ll, 128)), shl(mid, C(32, 128)));
    }
    return mk(O_MUL, S_BV, w, 0, 0, { a, b });
  }
  static Expr* core(Expr* e) // same unsigned value, possibly another width
  {
    for (;;) {
      if (e->op == O_ZEXT) e = e->k[0];
      else if (e->op == O_EXTRACT && e->aux == 0 && e->k[0]->w <= 64 && e->k[0]->uhi <= (i128)maskw(e->w)) e = e->k[0];
      else return e;
    }
  }
  static bool sameVal(Expr* a, Expr* b)
  {
    a = core(a);
    b = core(b);
    return a == b || (a->isC() && b->isC() && a->val == b->val);
  }
  static Expr* stripz(Expr* e) { return e->op == O_ZEXT ? e->k[0] : e; }
  static unsigned needBits(i128 u) { unsigned n = 1; while (u > 1) { n++; u >>= 1; } return n; }
  Expr* udiv(Expr* a, Expr* b) // the divisor is checked to be non-zero elsewhere
  {
    if (a->w <= 64 && a->uhi < b->ulo) return C(0, a->w);
    if (!(a->isC() && b->isC()) && a->w <= 64) {
      unsigned n = needBits(std::max(a->uhi, b->uhi));
      if (n < a->w) return zext(udiv(trunc(a, n), trunc(b, n)), a->w);
    }
    if (a->isC() && b->isC() && b->val) return C(a->val / b->val, a->w);
    if (b->isC() && b->val == 1) return a;
    if (b->isC() && b->val && !(b->val & (b->val - 1))) {
      unsigned s = 0;
      while (!((b->val >> s) & 1)) s++;
      return lshr(a, C(s, a->w));
    }
    return mk(O_UDIV, S_BV, a->w, 0, 0, { a, b });
  }
  Expr* urem(Expr* a, Expr* b)
  {
    if (a->w <= 64 && a->uhi < b->ulo) return a;
    if (!(a->isC() && b->isC()) && a->w <= 64) {
      unsigned n = needBits(std::max(a->uhi, b->uhi));
      if (n < a->w && !(b->isC() && !b->val)) return zext(urem(trunc(a, n), trunc(b, n)), a->w);
    }
    if (a->isC() && b->isC() && b->val) return C(a->val % b->val, a->w);
    if (b->isC() && a->w <= 64 && a->uhi < (i128)b->val) return a;
    if (b->isC() && b->val && !(b->val & (b->val - 1))) return and_(a, C(b->val - 1, a->w));
    return mk(O_UREM, S_BV, a->w, 0, 0, { a, b });
  }
  Expr* sdiv(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a->isC() && b->isC() && b->val) return C((u128)(sgn(a->val, w) / sgn(b->val, w)), w);
    if (w <= 64 && a->slo >= 0 && b->slo >= 0) return udiv(a, b);
    return mk(O_SDIV, S_BV, w, 0, 0, { a, b });
  }
  Expr* srem(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a->isC() && b->isC() && b->val) return C((u128)(sgn(a->val, w) % sgn(b->val, w)), w);
    if (w <= 64 && a->slo >= 0 && b->slo >= 0) return urem(a, b);
    return mk(O_SREM, S_BV, w, 0, 0, { a, b });
  }
  Expr* concat(Expr* a, Expr* b) // a high
  {
    unsigned w = a->w + b->w;
    if (a->isC() && b->isC()) return C((a->val << b->w) | b->val, w);
    if (a->isC() && a->val == 0) return zext(b, w);
    if (a->op == O_EXTRACT && b->op == O_EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w)
      return extract(a->k[0], b->aux, w);
    // right-nested normal form: concat(concat(x,y),z) -> concat(x, concat(y,z))
    if (a->op == O_CONCAT) return concat(a->k[0], concat(a->k[1], b));
    if (a->op == O_ZEXT) return zext(concat(a->k[0], b), w);
    if (b->op == O_CONCAT) { // try to merge a with the head of b
      Expr* h = b->k[0];
      if (a->isC() && h->isC()) return concat(C((a->val << h->w) | h->val, a->w + h->w), b->k[1]);
      if (a->op == O_EXTRACT && h->op == O_EXTRACT && a->k[0] == h->k[0] && a->aux == h->aux + h->w)
        return concat(extract(a->k[0], h->aux, a->w + h->w), b->k[1]);
      if (a->op == O_EXTRACT && h->w <= a->k[0]->w && 0) {}
    }
    // extract(x,hi) ++ x_low where b is whole "extract" already handled; b == x low part:
    if (a->op == O_EXTRACT && a->k[0]->op == O_ZEXT) {}
    return mk(O_CONCAT, S_BV, w, 0, 0, { a, b });
  }
  Expr* extract(Expr* a, unsigned lo, unsigned w)
  {
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
      case O_CONST: return C(a->val >> lo, w);
      case O_EXTRACT: return extract(a->k[0], a->aux + lo, w);
      case O_ZEXT: {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return C(0, w);
        if (lo + w <= iw) return extract(a->k[0], lo, w);
        return zext(extract(a->k[0], lo, iw - lo), w);
      }
      case O_SEXT: {
        unsigned iw = a->k[0]->w;
        if (lo + w <= iw) return extract(a->k[0], lo, w);
        if (lo < iw) return sext(extract(a->k[0], lo, iw - lo), w);
        return sext(extract(a->k[0], iw - 1, 1), w);
      }
      case O_CONCAT: {
        unsigned bw = a->k[1]->w;
        if (lo + w <= bw) return extract(a->k[1], lo, w);
        if (lo >= bw) return extract(a->k[0], lo - bw, w);
        return concat(extract(a->k[0], 0, lo + w - bw), extract(a->k[1], lo, bw - lo));
      }
      case O_ITE:
        if (a->k[1]->isC() || a->k[2]->isC())
          return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
        break;
      case O_AND: return and_(extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      case O_OR: return or_(extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      case O_XOR: return xor_(extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      default: break;
    }
    // known-zero high part
    if (a->w <= 64 && a->op != O_VAR) {
      if (a->uhi >> lo == 0) return C(0, w);
      if (lo + w < a->w || true) {
        unsigned need = 0;
        i128 u = a->uhi >> lo;
        while (u) { need++; u >>= 1; }
        if (need < w) return zext(mk(O_EXTRACT, S_BV, need, lo, 0, { a }), w);
      }
    }
    return mk(O_EXTRACT, S_BV, w, lo, 0, { a });
  }
  Expr* trunc(Expr* a, unsigned w) { return w == a->w ? a : extract(a, 0, w); }
  Expr* zext(Expr* a, unsigned w)
  {
    if (w == a->w) return a;
    if (a->isC()) return C(a->val, w);
    if (a->op == O_ZEXT) return zext(a->k[0], w);
    if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
      return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    // zext(extract(x,0,iw)) where x's range fits and widths match
    if (a->op == O_EXTRACT && a->aux == 0 && a->k[0]->w == w && w <= 64 &&
        a->k[0]->uhi <= (i128)maskw(a->w))
      return a->k[0];
    return mk(O_ZEXT, S_BV, w, 0, 0, { a });
  }
  Expr* sext(Expr* a, unsigned w)
  {
    if (w == a->w) return a;
    if (a->isC()) return C((u128)sgn(a->val, a->w), w);
    if (a->op == O_SEXT) return sext(a->k[0], w);
    if (a->op == O_ZEXT && a->k[0]->w < a->w) return zext(a->k[0], w);
    if (a->w <= 64 && a->slo >= 0) return zext(a, w);
    if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
      return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    if (a->op == O_EXTRACT && a->aux == 0 && a->k[0]->w == w && w <= 64) {
      i128 mn = -((i128)1 << (a->w - 1)), mx = ((i128)1 << (a->w - 1)) - 1;
      if (a->k[0]->slo >= mn && a->k[0]->shi <= mx) return a->k[0];
    }
    return mk(O_SEXT, S_BV, w, 0, 0, { a });
  }
  // slice decomposition helpers for and/or with disjoint supports
  Expr* and_(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a == b) return a;
    if (a->isC() && b->isC()) return C(a->val & b->val, w);
    if (a->isC()) std::swap(a, b);
    if (b->isC()) {
      u128 m = b->val;
      if (m == 0) return b;
      if (m == maskw(w)) return a;
      // contiguous mask -> slice
      unsigned lo = 0;
      while (!((m >> lo) & 1)) lo++;
      u128 t = m >> lo;
      if ((t & (t + 1)) == 0) {
        unsigned n = 0;
        while ((t >> n) & 1) n++;
        Expr* x = extract(a, lo, n);
        if (lo) x = concat(x, C(0, lo));
        return zext(x, w);
      }
      if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC())
        return ite(a->k[0], and_(a->k[1], b), and_(a->k[2], b));
    } else if (a->id > b->id)
      std::swap(a, b);
    if (w == 1) { // x == c together with a comparison of x
      for (int i = 0; i < 2; i++) {
        Expr *e = i ? b : a, *o = i ? a : b;
        if (e->op != O_EQ || !e->k[1]->isC()) continue;
        Expr *x = e->k[0], *c = e->k[1];
        bool neg = o->op == O_XOR && o->k[1]->isC();
        Expr* t = neg ? o->k[0] : o;
        Expr* v = nullptr;
        if (t->op == O_ULT || t->op == O_SLT || t->op == O_EQ || t->op == O_ULE || t->op == O_SLE) {
          if (t->k[0] == x && t->k[1]->isC()) v = t->op == O_ULT ? ult(c, t->k[1]) : t->op == O_SLT ? slt(c, t->k[1]) : t->op == O_EQ ? eq(c, t->k[1]) : t->op == O_ULE ? ule(c, t->k[1]) : sle(c, t->k[1]);
          else if (t->k[1] == x && t->k[0]->isC()) v = t->op == O_ULT ? ult(t->k[0], c) : t->op == O_SLT ? slt(t->k[0], c) : t->op == O_ULE ? ule(t->k[0], c) : t->op == O_SLE ? sle(t->k[0], c) : nullptr;
        }
        if (v && v->isC()) return (v->val != 0) != neg ? e : F();
      }
    }
    if (w == 1 && (a->op == O_XOR && a->k[1]->isC() && a->k[0] == b)) return F();
    if (w == 1 && (b->op == O_XOR && b->k[1]->isC() && b->k[0] == a)) return F();
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
      return zext(and_(a->k[0], b->k[0]), w);
    return mk(O_AND, S_BV, w, 0, 0, { a, b });
  }
  // known zero bits mask (cheap)
  u128 kz(Expr* a, int d = 0)
  {
    unsigned w = a->w;
    u128 m = maskw(w);
    switch (a->op) {
      case O_CONST: return ~a->val & m;
      case O_ZEXT: return (m & ~maskw(a->k[0]->w)) | kz(a->k[0], d + 1);
      case O_CONCAT: if (d < 12) return ((kz(a->k[0], d + 1) << a->k[1]->w) | kz(a->k[1], d + 1)) & m; break;
      case O_ITE: if (d < 4) return kz(a->k[1], d + 1) & kz(a->k[2], d + 1); break;
      case O_OR: case O_XOR: if (d < 4) return kz(a->k[0], d + 1) & kz(a->k[1], d + 1); break;
      case O_AND: if (d < 4) return kz(a->k[0], d + 1) | kz(a->k[1], d + 1); break;
      default: break;
    }
    if (w <= 64) {
      i128 u = a->uhi;
      unsigned n = 0;
      while (u) { n++; u >>= 1; }
      return m & ~maskw(n);
    }
    return 0;
  }
  // OR/ADD/XOR of values with disjoint possibly-set bits -> concat of slices
  Expr* disjoint(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    u128 za = kz(a), zb = kz(b), m = maskw(w);
    if (((~za & m) & (~zb & m)) != 0) return nullptr;
    // split into runs by owner: a-owned where b is zero, else b
    Expr* res = nullptr;
    unsigned i = 0;
    int runs = 0;
    while (i < w) {
      bool an = !((za >> i) & 1), bn = !((zb >> i) & 1);
      unsigned j = i;
      int own = an ? 0 : bn ? 1 : 2;
      while (j < w) {
        bool an2 = !((za >> j) & 1), bn2 = !((zb >> j) & 1);
        int o2 = an2 ? 0 : bn2 ? 1 : 2;
        if (o2 != own) break;
        j++;
      }
      Expr* part = own == 0 ? extract(a, i, j - i) : own == 1 ? extract(b, i, j - i) : C(0, j - i);
      res = res ? concat(part, res) : part;
      i = j;
      if (++runs > 24) return nullptr;
    }
    return res;
  }
  Expr* or_(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a == b) return a;
    if (a->isC() && b->isC()) return C(a->val | b->val, w);
    if (a->isC()) std::swap(a, b);
    if (b->isC() && b->val == 0) return a;
    if (b->isC() && b->val == maskw(w)) return b;
    if (w > 1) {
      if (Expr* d = disjoint(a, b)) return d;
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
        return zext(or_(a->k[0], b->k[0]), w);
    } else {
      if (a->op == O_XOR && a->k[1]->isC() && a->k[0] == b) return T();
      if (b->op == O_XOR && b->k[1]->isC() && b->k[0] == a) return T();
    }
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(O_OR, S_BV, w, 0, 0, { a, b });
  }
  Expr* xor_(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (a == b) return C(0, w);
    if (a->isC() && b->isC()) return C(a->val ^ b->val, w);
    if (a->isC()) std::swap(a, b);
    if (b->isC() && b->val == 0) return a;
    if (w == 1 && b->isC()) return Not(a);
    if (w > 1)
      if (Expr* d = disjoint(a, b)) return d;
    if (a->op == O_XOR && b->isC() && a->k[1]->isC()) return xor_(a->k[0], C(a->k[1]->val ^ b->val, w));
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w)
      return zext(xor_(a->k[0], b->k[0]), w);
    if (!b->isC() && a->id > b->id) std::swap(a, b);
    return mk(O_XOR, S_BV, w, 0, 0, { a, b });
  }
  Expr* shl(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (b->isC()) {
      if (b->val >= w) return C(0, w);
      unsigned s = (unsigned)b->val;
      if (s == 0) return a;
      if (a->op == O_SEXT || a->op == O_SUB || a->op == O_ADD || a->op == O_MUL)
        return mk(O_SHL, S_BV, w, 0, 0, { a, b });
      return concat(extract(a, 0, w - s), C(0, s));
    }
    return mk(O_SHL, S_BV, w, 0, 0, { a, b });
  }
  Expr* lshr(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (b->isC()) {
      if (b->val >= w) return C(0, w);
      unsigned s = (unsigned)b->val;
      if (s == 0) return a;
      return zext(extract(a, s, w - s), w);
    }
    return mk(O_LSHR, S_BV, w, 0, 0, { a, b });
  }
  Expr* ashr(Expr* a, Expr* b)
  {
    unsigned w = a->w;
    if (b->isC()) {
      unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
      if (s == 0) return a;
      if (a->isC()) return C((u128)(sgn(a->val, w) >> s), w);
      if (w <= 64 && a->slo >= 0) return lshr(a, C(s, w));
    } else if (w <= 64 && a->slo >= 0)
      return lshr(a, b);
    return mk(O_ASHR, S_BV, w, 0, 0, { a, b });
  }
  Expr* ite(Expr* c, Expr* a, Expr* b)
  {
    if (c->isC()) return c->val ? a : b;
    if (a == b) return a;
    if (a->sort != S_BV && c->op == O_XOR && c->k[1]->isC()) return ite(c->k[0], b, a);
    if (a->sort != S_BV) return mk(a->sort == S_FP ? O_FITE : O_IITE, a->sort, 64, 0, 0, { c, a, b });
    if (a->w == 1) {
      if (a->isC() && b->isC()) return a->val ? c : Not(c);
      if (a->isC()) return a->val ? or_(c, b) : and_(Not(c), b);
      if (b->isC()) return b->val ? or_(Not(c), a) : and_(c, a);
    }
    if (c->op == O_XOR && c->k[1]->isC()) return ite(c->k[0], b, a);
    if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return mk(O_ITE, S_BV, a->w, 0, 0, { c, a, b });
  }
  Expr* eq(Expr* a, Expr* b)
  {
    if (a == b) return T();
    if (a->sort == S_INT) return icmp(0, a, b);
    if (a->isC() && b->isC()) return B(a->val == b->val);
    if (a->isC()) std::swap(a, b);
    if (a->w <= 64 && (a->uhi < b->ulo || b->uhi < a->ulo || a->shi < b->slo || b->shi < a->slo)) return F();
    if (a->w == 1 && b->isC()) return b->val ? a : Not(a);
    if (b->isC()) {
      if (a->op == O_ZEXT) {
        if (b->val >> a->k[0]->w) return F();
        return eq(a->k[0], C(b->val, a->k[0]->w));
      }
      if (a->op == O_ITE && a->k[1]->isC() && a->k[2]->isC()) {
        bool p = a->k[1]->val == b->val, q = a->k[2]->val == b->val;
        return p && q ? T() : p ? a->k[0] : q ? Not(a->k[0]) : F();
      }
      if (a->op == O_ADD && a->k[1]->isC()) return eq(a->k[0], C(b->val - a->k[1]->val, a->w));
      if (a->op == O_ADD)
        for (int i = 0; i < 2; i++) {
          Expr* t = a->k[i];
          if (t->op == O_ITE && t->k[1]->isC() && t->k[2]->isC())
            return ite(t->k[0], eq(a->k[1 - i], C(b->val - t->k[1]->val, a->w)), eq(a->k[1 - i], C(b->val - t->k[2]->val, a->w)));
        }
      if (a->op == O_CONCAT)
        return and_(eq(a->k[0], C(b->val >> a->k[1]->w, a->k[0]->w)), eq(a->k[1], C(b->val, a->k[1]->w)));
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return eq(a->k[0], b->k[0]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w)
        return and_(eq(a->k[0], b->k[0]), eq(a->k[1], b->k[1]));
      if (a->id > b->id) std::swap(a, b);
    }
    return mk(O_EQ, S_BV, 1, 0, 0, { a, b });
  }
  Expr* ult(Expr* a, Expr* b)
  {
    if (a == b) return F();
    if (a->isC() && b->isC()) return B(a->val < b->val);
    if (a->w <= 64) {
      if (a->uhi < b->ulo) return T();
      if (a->ulo >= b->uhi) return F();
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return ult(a->k[0], b->k[0]);
    if (b->isC() && a->op == O_ZEXT && !(b->val >> a->k[0]->w)) return ult(a->k[0], C(b->val, a->k[0]->w));
    if (a->isC() && b->op == O_ZEXT && !(a->val >> b->k[0]->w)) return ult(C(a->val, b->k[0]->w), b->k[0]);
    if (b->isC() && b->val == 1) return eq(a, C(0, a->w));
    if (a->w == 1) return and_(Not(a), b);
    return mk(O_ULT, S_BV, 1, 0, 0, { a, b });
  }
  Expr* ule(Expr* a, Expr* b)
  {
    if (a == b) return T();
    if (a->isC() && b->isC()) return B(a->val <= b->val);
    if (a->w <= 64) {
      if (a->uhi <= b->ulo) return T();
      if (a->ulo > b->uhi) return F();
    }
    if (b->isC() && b->val < maskw(b->w)) return ult(a, C(b->val + 1, b->w));
    if (a->isC() && a->val > 0) return ult(C(a->val - 1, a->w), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return ule(a->k[0], b->k[0]);
    if (a->w == 1) return or_(Not(a), b);
    return mk(O_ULE, S_BV, 1, 0, 0, { a, b });
  }
  Expr* slt(Expr* a, Expr* b)
  {
    if (a == b) return F();
    if (a->isC() && b->isC()) return B(sgn(a->val, a->w) < sgn(b->val, b->w));
    if (a->w <= 64) {
      if (a->shi < b->slo) return T();
      if (a->slo >= b->shi) return F();
      if (a->slo >= 0 && b->slo >= 0) return ult(a, b);
      if (a->shi < 0 && b->shi < 0) return ult(a, b);
    }
    return mk(O_SLT, S_BV, 1, 0, 0, { a, b });
  }
  Expr* sle(Expr* a, Expr* b)
  {
    if (a == b) return T();
    if (a->isC() && b->isC()) return B(sgn(a->val, a->w) <= sgn(b->val, b->w));
    if (a->w <= 64) {
      if (a->shi <= b->slo) return T();
      if (a->slo > b->shi) return F();
      if (a->slo >= 0 && b->slo >= 0) return ule(a, b);
      if (a->shi < 0 && b->shi < 0) return ule(a, b);
    }
    if (b->isC() && sgn(b->val, b->w) < (i128)(maskw(b->w) >> 1)) return slt(a, C(b->val + 1, b->w));
    if (a->isC() && sgn(a->val, a->w) > -((i128)1 << (a->w - 1))) return slt(C(a->val - 1, a->w), b);
    return mk(O_SLE, S_BV, 1, 0, 0, { a, b });
  }
  // ---- Z_q
  Expr* zq(Op op, Expr* a, Expr* b = nullptr)
  {
    auto c = [&](uint64_t v) { return C(v % QMOD, 16); };
    bool ac = a->isC(), bc = !b || b->isC();
    if (ac && bc) {
      uint64_t x = (uint64_t)a->val, y = b ? (uint64_t)b->val : 0;
      switch (op) {
        case O_ZADD: return c(x + y);
        case O_ZSUB: return c(x + QMOD - y % QMOD);
        case O_ZNEG: return c(QMOD - x % QMOD);
        case O_ZMUL: return c(x * y);
        case O_ZINV: {
          uint64_t r = 1, bs = x % QMOD, e = QMOD - 2;
          while (e) { if (e & 1) r = r * bs % QMOD; bs = bs * bs % QMOD; e >>= 1; }
          return c(r);
        }
        default: break;
      }
    }
    if (op == O_ZADD) { if (bc && b->val == 0) return a; if (ac && a->val == 0) return b; }
    if (op == O_ZSUB) { if (bc && b->val == 0) return a; if (a == b) return c(0); }
    if (op == O_ZMUL) {
      if (ac) { std::swap(a, b); std::swap(ac, bc); }
      if (bc && b->val == 1) return a;
      if (bc && b->val == 0) return b;
    }
    if (b) return mk(op, S_BV, 16, 0, 0, { a, b });
    return mk(op, S_BV, 16, 0, 0, { a });
  }
  // ---- FP
  Expr* f2(Op op, Expr* a, Expr* b)
  {
    if (a->isFC() && b->isFC()) {
      double x = fcv(a), y = fcv(b);
      switch (op) {
        case O_FADD: return FC(x + y);
        case O_FSUB: return FC(x - y);
        case O_FMUL: return FC(x * y);
        case O_FDIV: return FC(x / y);
        default: break;
      }
    }
    return ffold(mk(op, S_FP, 64, 0, 0, { a, b }));
  }
  Expr* f1(Op op, Expr* a)
  {
    if (a->isFC()) {
      double x = fcv(a);
      switch (op) {
        case O_FNEG: return FC(-x);
        case O_FABS: return FC(std::fabs(x));
        case O_FFLOOR: return FC(std::floor(x));
        case O_FCEIL: return FC(std::ceil(x));
        case O_FROUND: return FC(std::round(x));
        case O_FTRUNC: return FC(std::trunc(x));
        case O_FRINT: return FC(std::rint(x));
        case O_FSQRT: return FC(std::sqrt(x));
        case O_F32: return FC((double)(float)x);
        default: break;
      }
    }
    if (op == O_F32 && a->op == O_F32) return a;
    return ffold(mk(op, S_FP, 64, 0, 0, { a }));
  }
  Expr* i2f(bool sg, Expr* a)
  {
    if (a->isC() && a->w <= 64) return FC(sg ? (double)(int64_t)sgn(a->val, a->w) : (double)(uint64_t)a->val);
    // normalise: bits that fit the signed/unsigned source
    if (!sg && a->w <= 64 && a->slo >= 0) sg = true;
    Expr* x = a;
    if (sg && (x->op == O_SEXT || x->op == O_ZEXT)) return mk(O_SI2F, S_FP, 64, 0, 0, { x });
    return mk(sg ? O_SI2F : O_UI2F, S_FP, 64, 0, 0, { x });
  }
  Expr* f2i(bool sg, Expr* a, unsigned w)
  {
    if (a->isFC()) {
      double x = fcv(a);
      if (sg && x > -9.3e18 && x < 9.2e18) return C((u128)(i128)(int64_t)x, w);
      if (!sg && x > -1 && x < 1.8e19) return C((u128)(uint64_t)x, w);
      return C(sg ? ((u128)1 << (w - 1)) : 0, w);
    }
    // a narrow signed conversion is the low part of the 64-bit one (in range: equal, out of range: undefined)
    if (sg && w < 64 && w >= 32 && foldF && a->fb() && a->flo > -4.6e18 && a->fhi < 4.6e18) return extract(f2i(true, a, 64), 0, w);
    {
      Expr* r = mk(sg ? O_F2SI : O_F2UI, S_BV, w, 0, 0, { a });
      return foldF && w <= 64 && r->ulo == r->uhi ? C((u128)r->ulo, w) : r;
    }
  }
  Expr* fcmp(unsigned pred, Expr* a, Expr* b, bool finite)
  {
    // pred: LLVM FCmp predicate number 0..15 (bit0 eq, bit1 gt, bit2 lt, bit3 uno)
    if (a->isFC() && b->isFC()) {
      double x = fcv(a), y = fcv(b);
      unsigned r = (std::isnan(x) || std::isnan(y)) ? 8 : x == y ? 1 : x > y ? 2 : 4;
      return B(pred & r);
    }
    if (pred == 0) return F();
    if (pred == 15) return T();
    if (foldF && a->fb() && b->fb()) {
      unsigned poss = 7;
      if (a->fhi < b->flo || a->flo > b->fhi) poss &= ~1u;
      if (a->fhi <= b->flo) poss &= ~2u;
      if (a->flo >= b->fhi) poss &= ~4u;
      if (!(pred & poss)) return F();
      if ((pred & poss) == poss) return T();
    }
    if (finite) {
      unsigned p = pred & 7;
      if (p == 0) return F();
      if (p == 7) return T();
      pred = p;
      if (a == b) return B(pred & 1);
    }
    return mk(O_FCMP, S_BV, 1, pred, 0, { a, b });
  }
  // ---- Int
  static bool isIC(Expr* e) { return e->op == O_ICONST; }
  bool icv(Expr* e, i128& v)
  {
    if (e->op != O_ICONST) return false;
    const std::string& s = names[(size_t)e->val];
    bool ng = s[0] == '-';
    if (s.size() > 36) return false;
    i128 r = 0;
    for (size_t i = ng; i < s.size(); i++) r = r * 10 + (s[i] - '0');
    v = ng ? -r : r;
    return true;
  }
  Expr* IC(i128 v)
  {
    bool ng = v < 0;
    u128 u = ng ? (u128)(-v) : (u128)v;
    std::string s;
    do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
    if (ng) s.insert(s.begin(), '-');
    return iconst(s);
  }
  static i128 fdivi(i128 a, i128 b)
  {
    i128 q = a / b;
    if ((a % b != 0) && ((a < 0) != (b < 0))) q--;
    return q;
  }
  static i128 absi(i128 a) { return a < 0 ? -a : a; }
  Expr* iop(Op op, Expr* a, Expr* b = nullptr)
  {
    i128 x, y = 0;
    bool ax = icv(a, x), by = b && icv(b, y);
    const i128 lim = (i128)1 << 62;
    if (ax && (!b || by)) {
      bool small = absi(x) < lim && absi(y) < lim;
      switch (op) {
        case O_IADD: if (small) return IC(x + y); break;
        case O_ISUB: if (small) return IC(x - y); break;
        case O_IMUL: if (small) return IC(x * y); break;
        case O_INEG: return IC(-x);
        case O_IABS: return IC(absi(x));
        case O_IDIV: if (small && y) return IC(x / y); break;
        case O_IREM: if (small && y) return IC(x % y); break;
        default: break;
      }
    }
    if ((op == O_IABS || op == O_INEG) && a->op == O_IFROMS && a->k[0]->w <= 64) {
      Expr* v = sext(a->k[0], 64);
      if (v->slo > -((i128)1 << 62) && v->shi < ((i128)1 << 62)) {
        Expr* n = sub(C(0, 64), v);
        return ifroms(op == O_INEG ? n : ite(slt(v, C(0, 64)), n, v));
      }
    }
    if (op == O_IADD && by && y == 0) return a;
    if (op == O_IADD && ax && x == 0) return b;
    if (op == O_ISUB && by && y == 0) return a;
    if (op == O_IMUL && ((by && y == 0) || (ax && x == 0))) return IC(0);
    if (op == O_IMUL && by && y == 1) return a;
    if (op == O_IMUL && ax && x == 1) return b;
    if (op == O_INEG && a->op == O_INEG) return a->k[0];
    if (b) return mk(op, S_INT, 64, 0, 0, { a, b });
    return mk(op, S_INT, 64, 0, 0, { a });
  }
  Expr* ishift(Op op, Expr* a, Expr* cnt) // cnt BV64
  {
    i128 x;
    if (cnt->isC() && cnt->val == 0) return a;
    if (cnt->isC() && icv(a, x) && cnt->val < 60 && absi(x) < ((i128)1 << 60)) {
      unsigned s = (unsigned)cnt->val;
      return op == O_ISHL ? IC(x * ((i128)1 << s)) : IC(fdivi(x, (i128)1 << s));
    }
    return mk(op, S_INT, 64, 0, 0, { a, cnt });
  }
  Expr* ifroms(Expr* bv)
  {
    if (bv->isC()) return IC(sgn(bv->val, bv->w));
    return mk(O_IFROMS, S_INT, 64, 0, 0, { bv });
  }
  Expr* itobv(Expr* a)
  {
    i128 x;
    if (icv(a, x) && absi(x) < ((i128)1 << 63)) return C((u128)x, 64);
    if (a->op == O_IFROMS && a->k[0]->w <= 64) return sext(a->k[0], 64);
    return mk(O_ITOBV, S_BV, 64, 0, 0, { a });
  }
  Expr* icmp(unsigned pred, Expr* a, Expr* b) // 0 eq, 1 lt, 2 le
  {
    i128 x, y;
    if (a == b) return B(pred != 1);
    if (icv(a, x) && icv(b, y)) return B(pred == 0 ? x == y : pred == 1 ? x < y : x <= y);
    { // 64-bit operands: a comparison of bit vectors
      auto bv = [&](Expr* e) -> Expr* {
        i128 v;
        if (e->op == O_IFROMS && e->k[0]->w <= 64) return sext(e->k[0], 64);
        if (icv(e, v) && v >= -((i128)1 << 63) && v < ((i128)1 << 63)) return C((u128)v, 64);
        return nullptr;
      };
      Expr *p = bv(a), *q = bv(b);
      if (p && q) return pred == 0 ? eq(p, q) : pred == 1 ? slt(p, q) : sle(p, q);
    }
    return mk(O_ICMP, S_BV, 1, pred, 0, { a, b });
  }
  // generic rebuild through smart constructors
  Expr* rebuild(Expr* e, Expr** k)
  {
    switch (e->op) {
      case O_ADD: return add(k[0], k[1]);
      case O_SUB: return sub(k[0], k[1]);
      case O_MUL: return mul(k[0], k[1]);
      case O_UDIV: return udiv(k[0], k[1]);
      case O_SDIV: return sdiv(k[0], k[1]);
      case O_UREM: return urem(k[0], k[1]);
      case O_SREM: return srem(k[0], k[1]);
      case O_AND: return and_(k[0], k[1]);
      case O_OR: return or_(k[0], k[1]);
      case O_XOR: return xor_(k[0], k[1]);
      case O_SHL: return shl(k[0], k[1]);
      case O_LSHR: return lshr(k[0], k[1]);
      case O_ASHR: return ashr(k[0], k[1]);
      case O_CONCAT: return concat(k[0], k[1]);
      case O_EXTRACT: return extract(k[0], e->aux, e->w);
      case O_ZEXT: return zext(k[0], e->w);
      case O_SEXT: return sext(k[0], e->w);
      case O_ITE: case O_FITE: case O_IITE: return ite(k[0], k[1], k[2]);
      case O_EQ: return eq(k[0], k[1]);
      case O_ULT: return ult(k[0], k[1]);
      case O_ULE: return ule(k[0], k[1]);
      case O_SLT: return slt(k[0], k[1]);
      case O_SLE: return sle(k[0], k[1]);
      case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: return f2(e->op, k[0], k[1]);
      case O_FNEG: case O_FABS: case O_FFLOOR: case O_FCEIL: case O_FROUND: case O_FTRUNC:
      case O_FRINT: case O_FSQRT: case O_F32: return f1(e->op, k[0]);
      case O_SI2F: return i2f(true, k[0]);
      case O_UI2F: return i2f(false, k[0]);
      case O_F2SI: return f2i(true, k[0], e->w);
      case O_F2UI: return f2i(false, k[0], e->w);
      case O_ZADD: case O_ZSUB: case O_ZMUL: return zq(e->op, k[0], k[1]);
      case O_ZNEG: case O_ZINV: return zq(e->op, k[0]);
      case O_IADD: case O_ISUB: case O_IMUL: case O_IDIV: case O_IREM: return iop(e->op, k[0], k[1]);
      case O_INEG: case O_IABS: return iop(e->op, k[0]);
      case O_ISHL: case O_ISHR: return ishift(e->op, k[0], k[1]);
      case O_IFROMS: return ifroms(k[0]);
      case O_ITOBV: return itobv(k[0]);
      case O_ICMP: return icmp(e->aux, k[0], k[1]);
      default: return e->nk ? mkv(e->op, e->sort, e->w, e->aux, e->val, k, e->nk) : e;
    }
  }
};
