// C04, C05: number-theoretic transform and element-wise polynomial arithmetic
#include "h.hpp"
#include "ntt.hpp"
#include "polynomial.hpp"
#include <cstring>
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM, LG = N == 512 ? 9 : 10;
static constexpr uint32_t Q = 12289, G = N == 512 ? 49 : 7;

static uint32_t pw(uint32_t b, uint64_t e)
{
  uint32_t r = 1;
  for (; e; e >>= 1, b = b * b % Q)
    if (e & 1) r = r * b % Q;
  return r;
}
static size_t brev(size_t v)
{
  size_t r = 0;
  for (size_t i = 0; i < LG; i++) r |= ((v >> i) & 1) << (LG - 1 - i);
  return r;
}
// The expected values are left to the decider (linear forms over the inputs); concrete runs
// evaluate them here.
H_ENTRY e_ntt()
{
  ff::ff_t* p = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) p[i].v = h_zq("a", i);
  ntt::ntt<LG>(p);
  for (size_t i = 0; i < N; i++) {
    h_out("ntt", i, p[i].v);
    if (!h_symbolic()) {
      uint32_t x = pw(G, 2 * brev(i) + 1), r = 0;
      for (size_t j = N; j-- > 0;) r = (r * x + h_zq("a", j)) % Q;
      h_check(p[i].v == r, "transform value", i);
    }
  }
}
H_ENTRY e_intt()
{
  ff::ff_t* p = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) p[i].v = h_zq("a", i);
  ntt::intt<LG>(p);
  for (size_t i = 0; i < N; i++) h_out("intt", i, p[i].v);
  if (!h_symbolic())
    for (size_t i = 0; i < N; i++) {
      uint32_t x = pw(G, 2 * brev(i) + 1), r = 0;
      for (size_t j = N; j-- > 0;) r = (r * x + p[j].v) % Q;
      h_check(h_zq("a", i) == r && p[i].v < Q, "inverse transform value", i);
    }
}
H_ENTRY e_round()
{
  ff::ff_t *p = new (hk) ff::ff_t[N], *r = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) p[i].v = r[i].v = h_zq("a", i);
  ntt::ntt<LG>(p);
  ntt::intt<LG>(p);
  ntt::intt<LG>(r);
  ntt::ntt<LG>(r);
  for (size_t i = 0; i < N; i++) {
    h_zeq(p[i].v, h_zq("a", i), "inverse after forward", i);
    h_zeq(r[i].v, h_zq("a", i), "forward after inverse", i);
  }
}
// element-wise operations on Z_q
H_ENTRY e_elem()
{
  ff::ff_t *a = new (hk) ff::ff_t[N], *b = new (hk) ff::ff_t[N], *c = new (hk) ff::ff_t[N], *d = new (hk) ff::ff_t[N], *e = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) {
    a[i].v = d[i].v = e[i].v = h_zq("a", i);
    b[i].v = h_zq("b", i);
    c[i].v = h_zq("old", i);
  }
  polynomial::add_to<LG>(d, b);
  polynomial::neg<LG>(e);
  polynomial::mul<LG>(a, b, c);
  for (size_t i = 0; i < N; i++) {
    ff::ff_t x, y;
    x.v = h_zq("a", i), y.v = h_zq("b", i);
    h_zeq(d[i].v, (x + y).v, "accumulation", i);
    h_zeq(e[i].v, (-x).v, "negation", i);
    h_zeq(c[i].v, (x * y).v, "multiplication", i);
    h_check(a[i].v == x.v && b[i].v == y.v, "operands unchanged", i);
  }
  polynomial::div<LG>(a, b, c);
  for (size_t i = 0; i < N; i++) {
    ff::ff_t x, y;
    x.v = h_zq("a", i), y.v = h_zq("b", i);
    h_zeq(c[i].v, (x * y.inv()).v, "division", i);
    h_check(a[i].v == x.v && b[i].v == y.v, "operands unchanged", i);
  }
}
// transform, multiply, transform back
H_ENTRY e_prod()
{
  ff::ff_t *a = new (hk) ff::ff_t[N], *b = new (hk) ff::ff_t[N], *c = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) a[i].v = h_zq("a", i), b[i].v = h_zq("b", i);
  ntt::ntt<LG>(a);
  ntt::ntt<LG>(b);
  polynomial::mul<LG>(a, b, c);
  ntt::intt<LG>(c);
  for (size_t i = 0; i < N; i++) h_out("prod", i, c[i].v);
  if (!h_symbolic()) {
    static uint32_t r[2 * N];
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) r[i + j] = (r[i + j] + (uint32_t)h_zq("a", i) * h_zq("b", j)) % Q;
    for (size_t i = 0; i < N; i++) h_check(c[i].v == (r[i] + Q - r[i + N]) % Q, "product", i);
  }
}
// element-wise operations on complex polynomials of every size
template<size_t L>
static void cpx()
{
  using fft::cmplx;
  constexpr size_t n = 1ul << L;
  cmplx *a = new (hk) cmplx[n], *b = new (hk) cmplx[n], *c = new (hk) cmplx[n], *d = new (hk) cmplx[n], *s = new (hk) cmplx[n], *m = new (hk) cmplx[n], *v = new (hk) cmplx[n];
  auto A = [](size_t i) { return h_funi("ar", i, -1e9, 1e9); };
  auto Ai = [](size_t i) { return h_funi("ai", i, -1e9, 1e9); };
  auto B = [](size_t i) { return h_funi("br", i, 1, 1e9); };
  auto Bi = [](size_t i) { return h_funi("bi", i, -1e9, 1e9); };
  for (size_t i = 0; i < n; i++) {
    a[i] = d[i] = cmplx{ A(i), Ai(i) };
    b[i] = cmplx{ B(i), Bi(i) };
  }
  polynomial::add<L>(a, b, c);
  polynomial::add_to<L>(d, b);
  polynomial::sub<L>(a, b, s);
  polynomial::mul<L>(a, b, m);
  polynomial::div<L>(a, b, v);
  for (size_t i = 0; i < n; i++) {
    double x = A(i), xi = Ai(i), y = B(i), yi = Bi(i), q = y * y + yi * yi;
    h_feq(c[i].real(), x + y, "sum", i);
    h_feq(c[i].imag(), xi + yi, "sum", i);
    h_feq(d[i].real(), x + y, "accumulation", i);
    h_feq(d[i].imag(), xi + yi, "accumulation", i);
    h_feq(s[i].real(), x - y, "difference", i);
    h_feq(s[i].imag(), xi - yi, "difference", i);
    h_feq(m[i].real() * 1e-12, (x * y - xi * yi) * 1e-12, "product", i);
    h_feq(m[i].imag() * 1e-12, (x * yi + xi * y) * 1e-12, "product", i);
    h_feq(v[i].real(), (x * y + xi * yi) / q, "quotient", i);
    h_feq(v[i].imag(), (xi * y - x * yi) / q, "quotient", i);
    h_check(a[i].real() == x && a[i].imag() == xi && b[i].real() == y && b[i].imag() == yi, "operands unchanged", i);
  }
}
H_ENTRY e_cpx()
{
  switch (h_param("lg", 1)) {
    case 1: cpx<1>(); break;
    case 2: cpx<2>(); break;
    case 3: cpx<3>(); break;
    case 4: cpx<4>(); break;
    case 5: cpx<5>(); break;
    case 6: cpx<6>(); break;
    case 7: cpx<7>(); break;
    case 8: cpx<8>(); break;
    case 9: cpx<9>(); break;
    case 10: cpx<10>(); break;
  }
}
