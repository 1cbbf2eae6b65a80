// big integers: free in the executor; natively pseudo-random of a magnitude given by sz[0], seeded by rnd[0]
#pragma once
#include "h.hpp"
#include <gmp.h>
#include <gmpxx.h>
#ifdef FSE_SYMBOLIC
static inline mpz_class big(const char* n, uint64_t i, int = 0) { return mpz_class::raw((int64_t)h_isym(n, i)); }
static inline void ieq(const mpz_class& a, const mpz_class& b, const char* m, uint64_t i) { h_ieq((uint64_t)a.h(), (uint64_t)b.h(), m, i); }
static inline void iout(const char* n, uint64_t i, const mpz_class& a) { h_iout(n, i, (uint64_t)a.h()); }
#else
static inline uint64_t big_h(uint64_t x)
{
  for (int k = 0; k < 3; k++) x = (x ^ (x >> 31)) * 0xBF58476D1CE4E5B9ull + 0x94D049BB133111EBull;
  return x ^ (x >> 29);
}
// sz 0: small, 1: about 62 bits, 2: about 130 bits, 3: mixed up to 300 bits; cap > 0 limits the bits
static inline mpz_class big(const char* n, uint64_t i, int cap = 0)
{
  uint64_t seed = h_sym("rnd", 0, 64), sz = h_sym("sz", 0, 2), h = seed * 0x9E3779B97F4A7C15ull + i;
  for (; *n; n++) h = big_h(h ^ (uint8_t)*n);
  if (!seed && !sz) return mpz_class(0);
  int bits = sz == 0 ? 4 : sz == 1 ? 62 : sz == 2 ? 130 : (int)(big_h(h + 1) % 300);
  if (cap && bits > cap) bits = cap;
  mpz_class r = 0;
  for (int w = 0; w <= bits / 32; w++) r = r * 4294967296ul + (unsigned long)(big_h(h + 17 * w + 5) & 0xffffffff);
  mpz_class m = 1;
  m <<= bits;
  r %= m;
  uint64_t s = big_h(h + 99);
  if (s % 16 == 0) r = 0;
  if ((s >> 8) & 1) r = -r;
  return r;
}
static inline void ieq(const mpz_class& a, const mpz_class& b, const char* m, uint64_t i) { h_check(a == b, m, i); }
static inline void iout(const char*, uint64_t, const mpz_class&) {}
#endif
