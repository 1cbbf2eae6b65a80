// C14: solving the NTRU equation over the integers.
//  VAR 1  extended gcd and the base case        VAR 2  field norm, lift, conjugate
//  VAR 3  one reduction from any state          VAR 4  one level of the recursion (PAR: parity of the stubbed sizes)
//  VAR 5  as 4, products and field norms as stand-ins, for the large sizes
// Native runs execute the real code throughout, with random integers.
#ifdef FSE_SYMBOLIC
extern "C" void mpz_div_tick();
#define MPZ_DIV_HOOK mpz_div_tick()
#endif
#include "big.hpp"
#include <array>
#include <vector>
#include <cmath>
#include <cstring>
#include "ntru_gen.hpp"
#ifndef VAR
#define VAR 0
#endif
static size_t ndiv, KDIV = 1000000;
extern "C" void mpz_div_tick()
{
  if (++ndiv > KDIV) h_stop();
}
static constexpr int32_t Q = 12289;
template<size_t n> using poly = std::array<mpz_class, n>;
template<size_t n> static poly<n> in(const char* nm, int cap = 0)
{
  poly<n> p;
  for (size_t i = 0; i < n; i++) p[i] = big(nm, i, cap);
  return p;
}
template<size_t n> static poly<n> mulmod(const poly<n>& a, const poly<n>& b)
{
  poly<n> r;
  for (size_t m = 0; m < n; m++) {
    mpz_class s = 0;
    for (size_t i = 0; i < n; i++) {
      if (i <= m) s = s + mpz_class(a[i] * b[m - i]);
      else s = s - mpz_class(a[i] * b[n + m - i]);
    }
    r[m] = s;
  }
  return r;
}
template<size_t n> static poly<n> minus(const poly<n>& a, const poly<n>& b)
{
  poly<n> r;
  for (size_t i = 0; i < n; i++) r[i] = a[i] - b[i];
  return r;
}
template<size_t n> static void eqs(const poly<n>& a, const poly<n>& b, const char* m)
{
  for (size_t i = 0; i < n; i++) ieq(a[i], b[i], m, i);
}
#define CASE(n, call) case n: { constexpr size_t M = n; call; } break;

#if VAR == 1 || !defined(FSE_SYMBOLIC)
H_ENTRY e_xgcd()
{
  KDIV = h_param("k", 4);
  mpz_class x = big("x", 0), y = big("y", 0), z = big("z", 0, 20);
  if (!h_symbolic() && h_sym("md", 0, 1)) x = x * z, y = y * z; // common factors
  auto r = ntru_gen::xgcd(x, y);
  ieq(mpz_class(mpz_class(r[0] * x) + mpz_class(r[1] * y)), r[2], "a x + b y = g", 0);
}
H_ENTRY e_base()
{
  KDIV = h_param("k", 4);
  poly<1> f{ big("f", 0) }, g{ big("g", 0) };
#ifndef FSE_SYMBOLIC
  if (h_sym("md", 0, 2) == 1) f[0] = f[0] * 6, g[0] = g[0] * 10;
#endif
  auto r = ntru_gen::ntru_solve<1>(f, g);
  if (!r.second.is_solution()) {
    h_cover("failure reported");
    return;
  }
  h_cover("solution reported");
  ieq(mpz_class(mpz_class(f[0] * r.first.second[0]) - mpz_class(g[0] * r.first.first[0])), mpz_class(Q), "f G - g F = q", 0);
}
#endif
#if VAR == 2 || !defined(FSE_SYMBOLIC)
#if VAR == 2 && defined(BIGMUL)
// products by the schoolbook formula (C15)
namespace karatsuba {
#define SPEC(n) template<> inline std::array<mpz_class, n> karamul<n>(const std::array<mpz_class, n>& a, const std::array<mpz_class, n>& b) { return mulmod<n>(a, b); }
SPEC(16) SPEC(32) SPEC(64) SPEC(128) SPEC(256) SPEC(512)
#undef SPEC
}
#endif
template<size_t n> static void fnorm()
{
  auto f = in<n>("f");
  auto r = ntru_gen::field_norm<n>(f);
  poly<n> c;
  for (size_t i = 0; i < n; i++) c[i] = i & 1 ? mpz_class(-f[i]) : f[i];
  auto p = mulmod<n>(f, c); // f(x) f(-x) = norm(x^2)
  for (size_t i = 0; i < n / 2; i++) ieq(r[i], p[2 * i], "norm(x^2) = f(x) f(-x)", i);
  eqs<n>(f, in<n>("f"), "argument unchanged");
}
template<size_t n> static void linear()
{
  auto f = in<n>("f");
  auto l = ntru_gen::lift<n>(f);
  for (size_t i = 0; i < n; i++) ieq(l[2 * i], f[i], "lift puts coefficients at even places", i), ieq(l[2 * i + 1], mpz_class(0), "lift has no odd part", i);
  if constexpr (n > 1) {
    auto c = ntru_gen::galois_conjugate<n>(f);
    for (size_t i = 0; i < n; i++) ieq(c[i], i & 1 ? mpz_class(-f[i]) : f[i], "conjugate is f(-x)", i);
  }
}
H_ENTRY e_fnorm()
{
  switch (h_param("n", 4)) {
    CASE(2, fnorm<M>()) CASE(4, fnorm<M>()) CASE(8, fnorm<M>()) CASE(16, fnorm<M>()) CASE(32, fnorm<M>()) CASE(64, fnorm<M>())
    CASE(128, fnorm<M>()) CASE(256, fnorm<M>()) CASE(512, fnorm<M>()) CASE(1024, fnorm<M>())
  }
}
H_ENTRY e_linear()
{
  switch (h_param("n", 4)) {
    CASE(1, linear<M>()) CASE(2, linear<M>()) CASE(4, linear<M>()) CASE(8, linear<M>()) CASE(16, linear<M>()) CASE(32, linear<M>())
    CASE(64, linear<M>()) CASE(128, linear<M>()) CASE(256, linear<M>()) CASE(512, linear<M>())
  }
}
#endif
#if VAR == 3 || !defined(FSE_SYMBOLIC)
#ifdef FSE_SYMBOLIC
// the quotient computed in floating point is arbitrary
static size_t nround, KR;
static uint64_t nbl;
extern "C" uint64_t hk_bitlen(const mpz_class&) { return (uint64_t)h_rng("bl", nbl++, 0, 1000) * 8; }
// the larger of two lengths, without branching on it
static uint64_t maxs[1024];
static size_t nmax;
extern "C" const uint64_t& hk_max(const uint64_t& a, const uint64_t& b)
{
  uint64_t x = a, y = b, m = x < y ? y : x;
  if (nmax == 1024) h_stop();
  maxs[nmax] = m;
  return maxs[nmax++];
}
extern "C" bool h_eqptr(int64_t, int64_t);
namespace fft {
#define SPEC(l)                                                                                                                   \
  template<> inline void fft<l>(cmplx* const __restrict p) { for (size_t i = 0; i < (1ul << l); i++) p[i] = cmplx{ 1.0, 0.0 }; }  \
  template<> inline void ifft<l>(cmplx* const __restrict p)                                                                       \
  {                                                                                                                               \
    if (++nround > KR) h_stop();                                                                                                  \
    for (size_t i = 0; i < (1ul << l); i++) p[i] = cmplx{ h_funi("kr", nround * 2048 + i, -9e15, 9e15), 0.0 };                    \
  }
SPEC(1) SPEC(2) SPEC(3) SPEC(4) SPEC(9) SPEC(10)
#undef SPEC
}
namespace ntru_gen {
#define SPEC(n) template<> inline std::pair<mpz_class, mpz_class> min_max<n>(const std::array<mpz_class, n>& a) { return { a[0], a[n - 1] }; }
SPEC(2) SPEC(4) SPEC(8) SPEC(16) SPEC(512) SPEC(1024)
#undef SPEC
}
#ifdef BIGMUL
static size_t nmul;
static std::vector<mpz_class> MA[8], MB[8], MR[8];
namespace karatsuba {
#define SPEC(n)                                                                                                                   \
  template<> inline std::array<mpz_class, n> karamul<n>(const std::array<mpz_class, n>& a, const std::array<mpz_class, n>& b)     \
  {                                                                                                                               \
    std::array<mpz_class, n> r;                                                                                                   \
    for (size_t i = 0; i < n; i++) r[i] = big("prod", nmul * 2048 + i);                                                           \
    if (nmul < 8) {                                                                                                               \
      MA[nmul].assign(a.begin(), a.end()), MB[nmul].assign(b.begin(), b.end()), MR[nmul].assign(r.begin(), r.end());              \
    }                                                                                                                             \
    nmul++;                                                                                                                       \
    return r;                                                                                                                     \
  }
SPEC(512) SPEC(1024)
#undef SPEC
}
#endif
#endif
template<size_t n> static void red()
{
#ifdef FSE_SYMBOLIC
  KR = h_param("k", 1);
  auto f = in<n>("f"), g = in<n>("g"), F = in<n>("F"), G = in<n>("G");
#else
  auto f = in<n>("f", 40), g = in<n>("g", 40), F = in<n>("F"), G = in<n>("G");
  f[0] = f[0] * 2 + 1;
  F = mulmod<n>(f, F), G = mulmod<n>(g, in<n>("F")); // mostly a multiple, so that there is much to reduce
  for (size_t i = 0; i < n; i++) F[i] = F[i] + big("F", n + i), G[i] = G[i] + big("G", n + i);
#endif
  const auto f0 = f, g0 = g, F0 = F, G0 = G;
  ntru_gen::reduce<n>(f, g, F, G);
  eqs<n>(f, f0, "f unchanged");
  eqs<n>(g, g0, "g unchanged");
#if defined(FSE_SYMBOLIC) && defined(BIGMUL)
  // (F, G) changes by a multiple of (f k, g k)
  if (nmul == 0) {
    eqs<n>(F, F0, "F unchanged without reduction");
    eqs<n>(G, G0, "G unchanged without reduction");
    return;
  }
  h_check(nmul == 2, "two products", 0);
  if (nmul != 2) return;
  auto same = [](const std::vector<mpz_class>& a, const poly<n>& b) {
    for (size_t i = 0; i < n; i++)
      if (!h_eqptr(a[i].h(), b[i].h())) return false;
    return true;
  };
  int which[2] = { -1, -1 };
  const std::vector<mpz_class>* kk[2];
  for (int m = 0; m < 2; m++) {
    bool af = same(MA[m], f0), bf = same(MB[m], f0), ag = same(MA[m], g0), bg = same(MB[m], g0);
    which[m] = af || bf ? 0 : ag || bg ? 1 : -1;
    kk[m] = af || ag ? &MB[m] : &MA[m];
  }
  h_check(which[0] + which[1] == 1 && which[0] >= 0 && which[1] >= 0, "f and g are each multiplied once", 0);
  if (!(which[0] + which[1] == 1 && which[0] >= 0 && which[1] >= 0)) return;
  const int pf = which[0] == 0 ? 0 : 1, pg = 1 - pf;
  for (size_t i = 0; i < n; i++) ieq((*kk[0])[i], (*kk[1])[i], "both by the same quotient", i);
  for (size_t i = 0; i < n; i++) {
    ieq(mpz_class(mpz_class(F0[i] - F[i]) * MR[pg][0]), mpz_class(mpz_class(G0[0] - G[0]) * MR[pf][i]), "F and G change by the same multiple", i);
    ieq(mpz_class(mpz_class(G0[i] - G[i]) * MR[pf][0]), mpz_class(mpz_class(F0[0] - F[0]) * MR[pg][i]), "G and F change by the same multiple", i);
  }
#else
  eqs<n>(minus<n>(mulmod<n>(f0, G), mulmod<n>(g0, F)), minus<n>(mulmod<n>(f0, G0), mulmod<n>(g0, F0)), "f G - g F is preserved");
#endif
}
H_ENTRY e_reduce()
{
  switch (h_param("n", 4)) {
    CASE(2, red<M>()) CASE(4, red<M>()) CASE(8, red<M>()) CASE(16, red<M>())
#ifdef FSE_SYMBOLIC
#ifdef BIGMUL
    CASE(512, red<M>()) CASE(1024, red<M>())
#endif
#else
    case 512: case 1024: red<32>(); break;
#endif
  }
}
#endif
#if VAR == 4 || VAR == 5 || !defined(FSE_SYMBOLIC)
#ifdef FSE_SYMBOLIC
template<size_t n> using sol = std::pair<std::pair<poly<n>, poly<n>>, ntru_gen::ntru_solve_status_t>;
static std::vector<mpz_class> AF, AG; // what the recursive call was given
static std::vector<mpz_class> RF, RG, RFin, RGin; // what the reduction was given
static size_t nsol, nred, nmul, nfn;
static bool fails;
template<size_t n> static sol<n> child(const poly<n>& f, const poly<n>& g)
{
  nsol++;
  AF.assign(f.begin(), f.end()), AG.assign(g.begin(), g.end());
  fails = h_sym("fails", 0, 1);
  if (fails) return { {}, ntru_gen::ntru_solve_status_t{ 1u } };
  return { { in<n>("F1"), in<n>("G1") }, ntru_gen::ntru_solve_status_t{} };
}
namespace ntru_gen {
#define SPEC(n)                                                                                                                   \
  template<> inline sol<n> ntru_solve<n>(const std::array<mpz_class, n>& f, const std::array<mpz_class, n>& g) { return child<n>(f, g); }
#if PAR
SPEC(1) SPEC(4) SPEC(16) SPEC(64) SPEC(256)
#else
SPEC(2) SPEC(8) SPEC(32) SPEC(128) SPEC(512)
#endif
#undef SPEC
#define SPEC(n)                                                                                                                   \
  template<> inline void reduce<n>(const std::array<mpz_class, n>& f, const std::array<mpz_class, n>& g, std::array<mpz_class, n>& F, \
                                   std::array<mpz_class, n>& G)                                                                   \
  {                                                                                                                               \
    nred++;                                                                                                                       \
    RF.assign(f.begin(), f.end()), RG.assign(g.begin(), g.end()), RFin.assign(F.begin(), F.end()), RGin.assign(G.begin(), G.end()); \
    F = in<n>("F2"), G = in<n>("G2");                                                                                             \
  }
#if PAR
SPEC(2) SPEC(8) SPEC(32) SPEC(128) SPEC(512)
#else
SPEC(4) SPEC(16) SPEC(64) SPEC(256) SPEC(1024)
#endif
#undef SPEC
}
#if VAR == 5
static std::vector<mpz_class> MA[4], MB[4], NF[4];
namespace karatsuba {
#define SPEC(n)                                                                                                                   \
  template<> inline std::array<mpz_class, n> karamul<n>(const std::array<mpz_class, n>& a, const std::array<mpz_class, n>& b)     \
  {                                                                                                                               \
    if (nmul < 4) MA[nmul].assign(a.begin(), a.end()), MB[nmul].assign(b.begin(), b.end());                                       \
    return in<n>(nmul++ == 0 ? "m0" : "m1");                                                                                      \
  }
#if PAR
SPEC(512)
#else
SPEC(1024)
#endif
#undef SPEC
}
namespace ntru_gen {
#define SPEC(n)                                                                                                                   \
  template<> inline std::array<mpz_class, n / 2> field_norm<n>(const std::array<mpz_class, n>& a)                                 \
  {                                                                                                                               \
    if (nfn < 4) NF[nfn].assign(a.begin(), a.end());                                                                              \
    return in<n / 2>(nfn++ == 0 ? "n0" : "n1");                                                                                   \
  }
#if PAR
SPEC(512)
#else
SPEC(1024)
#endif
#undef SPEC
}
extern "C" bool h_eqptr(int64_t, int64_t);
#endif
template<size_t n> static void solve()
{
  auto f = in<n>("f"), g = in<n>("g");
  auto r = ntru_gen::ntru_solve<n>(f, g);
  h_check(nsol == 1, "one recursive call", 0);
  h_check(r.second.is_solution() == !fails, "the outcome of the recursion is reported", 0);
  if (fails) {
    h_cover("failure");
    return;
  }
  h_check(nred == 1, "the result is reduced", 0);
  if (nred != 1 || nsol != 1) return;
  eqs<n>(r.first.first, in<n>("F2"), "returns the reduced F");
  eqs<n>(r.first.second, in<n>("G2"), "returns the reduced G");
  for (size_t i = 0; i < n; i++) ieq(RF[i], big("f", i), "reduces with respect to f", i), ieq(RG[i], big("g", i), "reduces with respect to g", i);
  poly<n> F, G;
  for (size_t i = 0; i < n; i++) F[i] = RFin[i], G[i] = RGin[i];
#if VAR == 4
  // f G - g F = (A G1 - B F1)(x^2), where (A, B) was given to the recursion and (F1, G1) came back
  poly<n / 2> A, B;
  for (size_t i = 0; i < n / 2; i++) A[i] = AF[i], B[i] = AG[i];
  auto lo = minus<n / 2>(mulmod<n / 2>(A, in<n / 2>("G1")), mulmod<n / 2>(B, in<n / 2>("F1")));
  auto hi = minus<n>(mulmod<n>(f, G), mulmod<n>(g, F));
  for (size_t i = 0; i < n; i++) ieq(hi[i], i & 1 ? mpz_class(0) : lo[i / 2], "f G - g F = (N(f) G1 - N(g) F1)(x^2)", i);
#else
  h_check(nfn == 2 && nmul == 2, "two norms, two products", 0);
  if (nfn != 2 || nmul != 2) return;
  auto is = [](const std::vector<mpz_class>& a, const char* nm) {
    for (size_t i = 0; i < n; i++)
      if (!h_eqptr(a[i].h(), big(nm, i).h())) return false;
    return true;
  };
  const bool ff = is(NF[0], "f") && is(NF[1], "g"), gf = is(NF[0], "g") && is(NF[1], "f");
  h_check(ff || gf, "norms of f and g", 0);
  for (size_t i = 0; i < n / 2; i++) {
    ieq(AF[i], big(ff ? "n0" : "n1", i), "recursion on the norm of f", i);
    ieq(AG[i], big(ff ? "n1" : "n0", i), "recursion on the norm of g", i);
  }
  // F = F1(x^2) g(-x), G = G1(x^2) f(-x), in either order of the factors
  const bool f0 = h_eqptr(F[0].h(), big("m0", 0).h());
  for (size_t i = 0; i < n; i++) ieq(F[i], big(f0 ? "m0" : "m1", i), "F is a product", i), ieq(G[i], big(f0 ? "m1" : "m0", i), "G is a product", i);
  for (int s = 0; s < 2; s++) { // s = 0: F
    const int m = (s == 0) == f0 ? 0 : 1;
    const char *up = s ? "G1" : "F1", *co = s ? "f" : "g";
    const bool sw = h_eqptr(MB[m][0].h(), big(up, 0).h());
    const auto &L = sw ? MB[m] : MA[m], &C = sw ? MA[m] : MB[m];
    for (size_t i = 0; i < n; i++) {
      ieq(L[i], i & 1 ? mpz_class(0) : big(up, i / 2), s ? "G: factor G1(x^2)" : "F: factor F1(x^2)", i);
      ieq(C[i], i & 1 ? mpz_class(-big(co, i)) : big(co, i), s ? "G: factor f(-x)" : "F: factor g(-x)", i);
    }
  }
#endif
}
H_ENTRY e_solve()
{
  switch (h_param("n", 4)) {
#if VAR == 5
#if PAR
    CASE(512, solve<M>())
#else
    CASE(1024, solve<M>())
#endif
#elif PAR
    CASE(2, solve<M>()) CASE(8, solve<M>()) CASE(32, solve<M>())
#else
    CASE(4, solve<M>()) CASE(16, solve<M>())
#endif
  }
}
#else
template<size_t n> static void solve()
{
  auto f = in<n>("f", h_sym("md", 0, 1) ? 3 : 8), g = in<n>("g", h_sym("md", 0, 1) ? 3 : 8);
  // the norm of an odd polynomial is odd
  mpz_class s = 0;
  for (size_t i = 0; i < n; i++) s = s + f[i];
  if (s % 2 == 0) f[0] = f[0] + 1;
  auto r = ntru_gen::ntru_solve<n>(f, g);
  if (!r.second.is_solution()) return;
  auto e = minus<n>(mulmod<n>(f, r.first.second), mulmod<n>(g, r.first.first));
  for (size_t i = 0; i < n; i++) ieq(e[i], i ? mpz_class(0) : mpz_class(Q), "f G - g F = q", i);
}
H_ENTRY e_solve()
{
  switch (h_param("n", 4)) {
    CASE(2, solve<M>()) CASE(4, solve<M>()) CASE(8, solve<M>()) CASE(16, solve<M>()) CASE(32, solve<M>())
    default: solve<64>();
  }
}
#endif
#endif
