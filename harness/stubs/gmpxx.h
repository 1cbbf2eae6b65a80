#pragma once
#include "gmp.h"
#include <concepts>
#include <type_traits>
class mpz_class
{
  __mpz_struct v;

public:
  inline mpz_class() : v{ 0 } {}
  inline mpz_class(const mpz_class&) = default;
  inline mpz_class& operator=(const mpz_class&) = default;
  template<std::integral T> inline mpz_class(T a) : v{ sym_mpz_si((int64_t)a) } {}
  template<std::integral T> inline mpz_class& operator=(T a) { v.h = sym_mpz_si((int64_t)a); return *this; }
  inline mpz_class(double a) : v{ sym_mpz_d(a) } {}
  static inline mpz_class raw(int64_t h) { mpz_class r; r.v.h = h; return r; }
  inline int64_t h() const { return v.h; }
  inline mpz_ptr get_mpz_t() { return &v; }
  inline mpz_srcptr get_mpz_t() const { return &v; }
  inline long get_si() const { return sym_mpz_get_si(v.h); }
  inline unsigned long get_ui() const { return (unsigned long)sym_mpz_get_si(sym_mpz_abs(v.h)); }
  inline double get_d() const { return sym_mpz_get_d(v.h); }
  inline bool fits_slong_p() const { return mpz_fits_slong_p(&v); }
  inline bool fits_sint_p() const { return sym_mpz_le(v.h, sym_mpz_si(INT32_MAX)) && sym_mpz_le(sym_mpz_si(INT32_MIN), v.h); }
  inline mpz_class operator-() const { return raw(sym_mpz_neg(v.h)); }
  inline mpz_class operator+() const { return *this; }
  inline mpz_class& operator+=(const mpz_class& o) { v.h = sym_mpz_add(v.h, o.v.h); return *this; }
  inline mpz_class& operator-=(const mpz_class& o) { v.h = sym_mpz_sub(v.h, o.v.h); return *this; }
  inline mpz_class& operator*=(const mpz_class& o) { v.h = sym_mpz_mul(v.h, o.v.h); return *this; }
  inline mpz_class& operator/=(const mpz_class& o) { v.h = sym_mpz_tdiv(v.h, o.v.h); return *this; }
  inline mpz_class& operator%=(const mpz_class& o) { v.h = sym_mpz_trem(v.h, o.v.h); return *this; }
  inline mpz_class& operator<<=(unsigned long n) { v.h = sym_mpz_shl(v.h, n); return *this; }
  inline mpz_class& operator>>=(unsigned long n) { v.h = sym_mpz_shr(v.h, n); return *this; }
  inline mpz_class& operator++() { return *this += mpz_class(1); }
  inline mpz_class& operator--() { return *this -= mpz_class(1); }
};
#define MPZ_BIN(OP, F) \
  static inline mpz_class operator OP(const mpz_class& a, const mpz_class& b) { return mpz_class::raw(F(a.h(), b.h())); } \
  template<std::integral T> static inline mpz_class operator OP(const mpz_class& a, T b) { return mpz_class::raw(F(a.h(), mpz_class(b).h())); } \
  template<std::integral T> static inline mpz_class operator OP(T a, const mpz_class& b) { return mpz_class::raw(F(mpz_class(a).h(), b.h())); }
MPZ_BIN(+, sym_mpz_add)
MPZ_BIN(-, sym_mpz_sub)
MPZ_BIN(*, sym_mpz_mul)
#ifdef MPZ_DIV_HOOK // lets a harness bound the number of divisions
static inline int64_t mpz_hooked_div(int64_t a, int64_t b) { MPZ_DIV_HOOK; return sym_mpz_tdiv(a, b); }
static inline int64_t mpz_hooked_rem(int64_t a, int64_t b) { MPZ_DIV_HOOK; return sym_mpz_trem(a, b); }
MPZ_BIN(/, mpz_hooked_div)
MPZ_BIN(%, mpz_hooked_rem)
#else
MPZ_BIN(/, sym_mpz_tdiv)
MPZ_BIN(%, sym_mpz_trem)
#endif
#undef MPZ_BIN
static inline mpz_class operator<<(const mpz_class& a, unsigned long n) { return mpz_class::raw(sym_mpz_shl(a.h(), n)); }
static inline mpz_class operator>>(const mpz_class& a, unsigned long n) { return mpz_class::raw(sym_mpz_shr(a.h(), n)); }
#define MPZ_CMP(OP, E) \
  static inline bool operator OP(const mpz_class& a, const mpz_class& b) { const int64_t x = a.h(), y = b.h(); return E; } \
  template<std::integral T> static inline bool operator OP(const mpz_class& a, T b) { const int64_t x = a.h(), y = mpz_class(b).h(); return E; } \
  template<std::integral T> static inline bool operator OP(T a, const mpz_class& b) { const int64_t x = mpz_class(a).h(), y = b.h(); return E; }
MPZ_CMP(==, sym_mpz_eq(x, y))
MPZ_CMP(!=, !sym_mpz_eq(x, y))
MPZ_CMP(<, sym_mpz_lt(x, y))
MPZ_CMP(<=, sym_mpz_le(x, y))
MPZ_CMP(>, sym_mpz_lt(y, x))
MPZ_CMP(>=, sym_mpz_le(y, x))
#undef MPZ_CMP
static inline mpz_class abs(const mpz_class& a) { return mpz_class::raw(sym_mpz_abs(a.h())); }
static inline int sgn(const mpz_class& a) { return mpz_sgn(a.get_mpz_t()); }
static inline int cmp(const mpz_class& a, const mpz_class& b) { return mpz_cmp(a.get_mpz_t(), b.get_mpz_t()); }
static inline mpz_class gcd(const mpz_class& a, const mpz_class& b) { return mpz_class::raw(sym_mpz_gcd(a.h(), b.h())); }
