// C01, C02, C03: arithmetic of ff::ff_t
#include "h.hpp"
#include "ff.hpp"
using ff::ff_t;
static constexpr uint32_t Q = 12289;
static ff_t mk(uint16_t v)
{
  ff_t r;
  r.v = v;
  return r;
}
static uint16_t zq(const char* n) { return (uint16_t)h_rng(n, 0, 0, Q - 1); }

H_ENTRY e_ctor()
{
  uint16_t x = (uint16_t)h_sym("x", 0, 16);
  ff_t a{ x };
  h_check(a.v == x % Q, "constructor reduces modulo q", 0);
  h_check(ff_t::zero().v == 0 && ff_t::one().v == 1, "constants", 0);
  h_check(ff::Q == Q, "modulus", 0);
}
H_ENTRY e_add()
{
  uint16_t x = zq("a"), y = zq("b");
  ff_t a = mk(x), b = mk(y);
  uint16_t s = (uint16_t)(((uint32_t)x + y) % Q);
  h_check((a + b).v == s, "addition", 0);
  ff_t c = a;
  c += b;
  h_check(c.v == s, "compound addition", 0);
  ff_t d = a;
  d += d;
  h_check(d.v == (uint16_t)((2u * x) % Q), "compound addition of itself", 0);
  h_check(a.v == x && b.v == y, "operands unchanged", 0);
}
H_ENTRY e_sub()
{
  uint16_t x = zq("a"), y = zq("b");
  ff_t a = mk(x), b = mk(y);
  h_check((a - b).v == (uint16_t)(((uint32_t)x + Q - y) % Q), "subtraction", 0);
  h_check((-a).v == (uint16_t)((Q - (uint32_t)x) % Q), "negation", 0);
}
H_ENTRY e_mul()
{
  uint16_t x = zq("a"), y = zq("b");
  ff_t a = mk(x), b = mk(y);
  h_check((a * b).v == (uint16_t)(((uint32_t)x * (uint32_t)y) % Q), "multiplication", 0);
}
H_ENTRY e_mula()
{
  uint16_t x = zq("a"), y = zq("b");
  ff_t a = mk(x), b = mk(y);
  a *= b;
  h_check(a.v == (uint16_t)(((uint32_t)x * (uint32_t)y) % Q), "compound multiplication", 0);
}
H_ENTRY e_sqr()
{
  uint16_t x = zq("a");
  ff_t a = mk(x), d = mk(x);
  d *= d;
  h_check((a * a).v == (uint16_t)(((uint32_t)x * (uint32_t)x) % Q), "square", 0);
  h_check(d.v == (uint16_t)(((uint32_t)x * (uint32_t)x) % Q), "compound square", 0);
}
H_ENTRY e_cmp()
{
  uint16_t x = zq("a"), y = zq("b");
  ff_t a = mk(x), b = mk(y);
  h_check((a == b) == (x == y), "==", 0);
  h_check((a != b) == (x != y), "!=", 0);
  h_check((a < b) == (x < y), "<", 0);
  h_check((a <= b) == (x <= y), "<=", 0);
  h_check((a > b) == (x > y), ">", 0);
  h_check((a >= b) == (x >= y), ">=", 0);
}
H_ENTRY e_inv()
{
  uint16_t lo = (uint16_t)h_param("lo", 0), hi = (uint16_t)h_param("hi", Q - 1);
  uint16_t x = (uint16_t)h_rng("a", 0, lo, hi);
  uint16_t i = mk(x).inv().v;
  h_check(i < Q && (x == 0 ? i == 0 : ((uint32_t)x * (uint32_t)i) % Q == 1), "inverse", 0);
}
// a/b = a * inv(b); run with multiplication and inversion summarised (C01, e_inv)
H_ENTRY e_div()
{
  uint16_t x = h_zq("a", 0), y = h_zq("b", 0);
  ff_t a = mk(x), b = mk(y);
  uint16_t w = (a * b.inv()).v;
  h_zeq((a / b).v, w, "division", 0);
}
static uint16_t powref(uint64_t a, uint64_t n)
{
  uint64_t r = 1;
  for (; n; n >>= 1) {
    if (n & 1) r = r * a % Q;
    a = a * a % Q;
  }
  return (uint16_t)r;
}
H_ENTRY e_pow()
{
  uint16_t x = h_zq("a", 0);
  uint64_t n = h_sym("n", 0, 64);
  uint16_t ref = h_symbolic() ? h_zq("ref", 0) : powref(x, n); // a^n, decided on the exponent
  h_zeq((mk(x) ^ n).v, ref, "power", 0);
}
