// C15: Karatsuba multiplication. VAR 1 whole products, VAR 2 one recursion step (PAR: parity of the stubbed sizes),
// VAR 3 reduction modulo x^N + 1 with the product as a stand-in
#include "big.hpp"
#include <array>
#include "karatsuba.hpp"
template<size_t n> using poly = std::array<mpz_class, n>;
template<size_t n> static poly<n> in(const char* nm)
{
  poly<n> p;
  for (size_t i = 0; i < n; i++) p[i] = big(nm, i);
  return p;
}
template<size_t n> static void unchanged(const poly<n>& a, const poly<n>& b)
{
  for (size_t i = 0; i < n; i++) ieq(a[i], big("a", i), "first operand unchanged", i), ieq(b[i], big("b", i), "second operand unchanged", i);
}
template<size_t n> static void product(const poly<n>& a, const poly<n>& b, const poly<2 * n>& r)
{
  for (size_t m = 0; m < 2 * n; m++) {
    mpz_class s = 0;
    for (size_t i = 0; i < n; i++)
      if (m >= i && m - i < n) s = s + mpz_class(a[i] * b[m - i]);
    ieq(r[m], s, "product equals the schoolbook product", m);
  }
}
template<size_t n> static void negacyclic(const poly<n>& a, const poly<n>& b, const poly<n>& r)
{
  for (size_t m = 0; m < n; m++) {
    mpz_class s = 0;
    for (size_t i = 0; i < n; i++) {
      if (i <= m) s = s + mpz_class(a[i] * b[m - i]);
      else s = s - mpz_class(a[i] * b[n + m - i]);
    }
    ieq(r[m], s, "reduced product equals the product modulo x^N + 1", m);
  }
}
#define SIZES(n, call)                                                                                                            \
  switch (n) {                                                                                                                    \
    case 1: { constexpr size_t M = 1; call; } break;                                                                              \
    case 2: { constexpr size_t M = 2; call; } break;                                                                              \
    case 4: { constexpr size_t M = 4; call; } break;                                                                              \
    case 8: { constexpr size_t M = 8; call; } break;                                                                              \
    case 16: { constexpr size_t M = 16; call; } break;                                                                            \
    case 32: { constexpr size_t M = 32; call; } break;                                                                            \
    case 64: { constexpr size_t M = 64; call; } break;                                                                            \
    case 128: { constexpr size_t M = 128; call; } break;                                                                          \
    case 256: { constexpr size_t M = 256; call; } break;                                                                          \
    case 512: { constexpr size_t M = 512; call; } break;                                                                          \
    case 1024: { constexpr size_t M = 1024; call; } break;                                                                        \
  }
#ifndef FSE_SYMBOLIC
// native runs always use the real code
template<size_t n> static void whole()
{
  auto a = in<n>("a"), b = in<n>("b");
  auto r = karatsuba::karatsuba<n>(a, b);
  product<n>(a, b, r);
  auto t = karatsuba::karamul<n>(a, b);
  negacyclic<n>(a, b, t);
  unchanged<n>(a, b);
  auto u = karatsuba::karamul<n>(a, a);
  negacyclic<n>(a, a, u);
}
#define ENTRY { SIZES(h_param("n", 4), whole<M>()) }
H_ENTRY e_full() ENTRY
H_ENTRY e_step() ENTRY
H_ENTRY e_red() ENTRY
#elif VAR == 1
template<size_t n> static void whole()
{
  auto a = in<n>("a"), b = in<n>("b");
  product<n>(a, b, karatsuba::karatsuba<n>(a, b));
  negacyclic<n>(a, b, karatsuba::karamul<n>(a, b));
  unchanged<n>(a, b);
  negacyclic<n>(a, a, karatsuba::karamul<n>(a, a));
}
H_ENTRY e_full()
{
  switch (h_param("n", 4)) {
    case 1: whole<1>(); break;
    case 2: whole<2>(); break;
    case 4: whole<4>(); break;
    case 8: whole<8>(); break;
    case 16: whole<16>(); break;
    case 32: whole<32>(); break;
    case 64: whole<64>(); break;
  }
}
#elif VAR == 2
// a product of size n is 2n free integers; its operands are logged: the decider reads them as the true product
static size_t ncall;
template<size_t n> static poly<2 * n> stand_in(const poly<n>& a, const poly<n>& b)
{
  poly<2 * n> r;
  size_t k = ncall++;
  for (size_t i = 0; i < n; i++) iout("u", k * 4096 + i, a[i]), iout("v", k * 4096 + i, b[i]);
  for (size_t i = 0; i < 2 * n; i++) r[i] = big("p", k * 4096 + i);
  return r;
}
namespace karatsuba {
#define SPEC(n) template<> inline std::array<mpz_class, 2 * n> karatsuba<n>(const std::array<mpz_class, n>& a, const std::array<mpz_class, n>& b) { return stand_in<n>(a, b); }
#if PAR
SPEC(1) SPEC(4) SPEC(16) SPEC(64) SPEC(256)
#else
SPEC(2) SPEC(8) SPEC(32) SPEC(128) SPEC(512)
#endif
#undef SPEC
}
template<size_t n> static void step()
{
  auto a = in<n>("a"), b = in<n>("b");
  auto r = karatsuba::karatsuba<n>(a, b);
  for (size_t i = 0; i < 2 * n; i++) iout("r", i, r[i]);
  unchanged<n>(a, b);
}
H_ENTRY e_step()
{
  switch (h_param("n", 4)) {
#if PAR
    case 2: step<2>(); break;
    case 8: step<8>(); break;
    case 32: step<32>(); break;
    case 128: step<128>(); break;
    case 512: step<512>(); break;
#else
    case 4: step<4>(); break;
    case 16: step<16>(); break;
    case 64: step<64>(); break;
    case 256: step<256>(); break;
    case 1024: step<1024>(); break;
#endif
  }
}
#elif VAR == 3
static size_t ncall;
template<size_t n> static poly<2 * n> stand_in(const poly<n>& a, const poly<n>& b)
{
  poly<2 * n> r;
  for (size_t i = 0; i < n; i++) iout("u", ncall * 4096 + i, a[i]), iout("v", ncall * 4096 + i, b[i]);
  for (size_t i = 0; i < 2 * n; i++) r[i] = big("p", ncall * 4096 + i);
  ncall++;
  return r;
}
namespace karatsuba {
#define SPEC(n) template<> inline std::array<mpz_class, 2 * n> karatsuba<n>(const std::array<mpz_class, n>& a, const std::array<mpz_class, n>& b) { return stand_in<n>(a, b); }
SPEC(1) SPEC(2) SPEC(4) SPEC(8) SPEC(16) SPEC(32) SPEC(64) SPEC(128) SPEC(256) SPEC(512) SPEC(1024)
#undef SPEC
}
template<size_t n> static void red()
{
  auto a = in<n>("a"), b = in<n>("b");
  auto r = karatsuba::karamul<n>(a, b);
  for (size_t i = 0; i < n; i++) iout("r", i, r[i]);
  unchanged<n>(a, b);
}
H_ENTRY e_red() { SIZES(h_param("n", 4), red<M>()) }
#endif
