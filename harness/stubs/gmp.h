// GMP integers for the executor: a handle is an integer-sorted term.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
int64_t sym_mpz_si(int64_t);
int64_t sym_mpz_d(double);
int64_t sym_mpz_add(int64_t, int64_t);
int64_t sym_mpz_sub(int64_t, int64_t);
int64_t sym_mpz_mul(int64_t, int64_t);
int64_t sym_mpz_neg(int64_t);
int64_t sym_mpz_abs(int64_t);
int64_t sym_mpz_tdiv(int64_t, int64_t);
int64_t sym_mpz_trem(int64_t, int64_t);
int64_t sym_mpz_shl(int64_t, uint64_t);
int64_t sym_mpz_shr(int64_t, uint64_t);
bool sym_mpz_eq(int64_t, int64_t);
bool sym_mpz_lt(int64_t, int64_t);
bool sym_mpz_le(int64_t, int64_t);
int64_t sym_mpz_get_si(int64_t);
double sym_mpz_get_d(int64_t);
int64_t sym_mpz_gcd(int64_t, int64_t);
int64_t sym_mpz_opq(const char*, int64_t, int64_t);
int64_t sym_mpz_opqbv(const char*, int64_t);
}
struct __mpz_struct { int64_t h; };
typedef __mpz_struct mpz_t[1];
typedef __mpz_struct* mpz_ptr;
typedef const __mpz_struct* mpz_srcptr;
typedef unsigned long mp_bitcnt_t;
static inline void mpz_init(mpz_ptr r) { r->h = 0; }
static inline void mpz_clear(mpz_ptr) {}
static inline void mpz_set(mpz_ptr r, mpz_srcptr a) { r->h = a->h; }
static inline void mpz_set_si(mpz_ptr r, long a) { r->h = sym_mpz_si(a); }
static inline void mpz_init_set(mpz_ptr r, mpz_srcptr a) { r->h = a->h; }
static inline void mpz_init_set_si(mpz_ptr r, long a) { r->h = sym_mpz_si(a); }
static inline void mpz_add(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_add(a->h, b->h); }
static inline void mpz_sub(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_sub(a->h, b->h); }
static inline void mpz_mul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_mul(a->h, b->h); }
static inline void mpz_mul_si(mpz_ptr r, mpz_srcptr a, long b) { r->h = sym_mpz_mul(a->h, sym_mpz_si(b)); }
static inline void mpz_addmul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_add(r->h, sym_mpz_mul(a->h, b->h)); }
static inline void mpz_submul(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_sub(r->h, sym_mpz_mul(a->h, b->h)); }
static inline void mpz_neg(mpz_ptr r, mpz_srcptr a) { r->h = sym_mpz_neg(a->h); }
static inline void mpz_abs(mpz_ptr r, mpz_srcptr a) { r->h = sym_mpz_abs(a->h); }
static inline void mpz_tdiv_q(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_tdiv(a->h, b->h); }
static inline void mpz_tdiv_r(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_trem(a->h, b->h); }
static inline void mpz_mul_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { r->h = sym_mpz_shl(a->h, n); }
static inline void mpz_fdiv_q_2exp(mpz_ptr r, mpz_srcptr a, mp_bitcnt_t n) { r->h = sym_mpz_shr(a->h, n); }
static inline void mpz_gcd(mpz_ptr r, mpz_srcptr a, mpz_srcptr b) { r->h = sym_mpz_gcd(a->h, b->h); }
static inline int mpz_cmp(mpz_srcptr a, mpz_srcptr b) { return (int)sym_mpz_lt(b->h, a->h) - (int)sym_mpz_lt(a->h, b->h); }
static inline int mpz_cmp_si(mpz_srcptr a, long b) { mpz_t t; mpz_set_si(t, b); return mpz_cmp(a, t); }
static inline int mpz_sgn(mpz_srcptr a) { return mpz_cmp_si(a, 0); }
static inline int mpz_cmpabs(mpz_srcptr a, mpz_srcptr b) { mpz_t x, y; mpz_abs(x, a); mpz_abs(y, b); return mpz_cmp(x, y); }
static inline long mpz_get_si(mpz_srcptr a) { return sym_mpz_get_si(a->h); }
static inline double mpz_get_d(mpz_srcptr a) { return sym_mpz_get_d(a->h); }
static inline int mpz_fits_slong_p(mpz_srcptr a)
{
  return sym_mpz_le(a->h, sym_mpz_si(INT64_MAX)) && sym_mpz_le(sym_mpz_si(INT64_MIN), a->h);
}
static inline size_t mpz_sizeinbase(mpz_srcptr a, int) { return (size_t)sym_mpz_opqbv("size", a->h); }
