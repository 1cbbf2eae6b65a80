// C17, C18, C20, C26, C29: floating-point key material and tree sampling, read in exact real arithmetic.
//  VAR 1  transforms are stand-ins: norms, recomputing G, the basis matrix
//  VAR 2  one level of the tree at a time: construction and sampling (PAR: parity of the stubbed levels)
//  VAR 4  VAR 1 with stand-ins for the callees of keygen::keygen
//  VAR 3  the whole tree with a stand-in for the decomposition: storage and leaf normalisation
#include "h.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <algorithm>
#include "ff.hpp"
#include "fft.hpp"
#include "samplerz.hpp"
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM, LG = N == 512 ? 9 : 10;
static constexpr int32_t Q = 12289;
typedef fft::cmplx cx;
extern "C" bool h_same(double, double);
extern "C" bool h_dep(double, const char*);
#ifndef FSE_SYMBOLIC
extern "C" bool h_same(double a, double b) { return a == b; }
extern "C" bool h_dep(double, const char*) { return false; }
#endif
static bool same(const cx& a, const cx& b) { return h_same(a.real(), b.real()) && h_same(a.imag(), b.imag()); }
static cx cv(const char* re, const char* im, size_t i) { return cx{ h_fopq(re, i), h_fopq(im, i) }; }
static void ceq(const cx& a, const cx& b, const char* m, size_t i)
{
  h_feq(a.real(), b.real(), m, 2 * i);
  h_feq(a.imag(), b.imag(), m, 2 * i + 1);
}
static cx conj_(const cx& a) { return cx{ a.real(), -a.imag() }; }

#if VAR == 1 || VAR == 4
// ---- transforms as stand-ins: the transform of a known polynomial is a vector of free complex numbers
static int32_t f[N], g[N], F[N], G[N];
static const int32_t* POLY[4] = { f, g, F, G };
static cx TR[4][N]; // transforms of f, g, F, G
static cx INV[N], RES[N];
static size_t ninv;
static bool known[4];
static bool arg_is(const cx* p, const int32_t* a, int sgn)
{
  for (size_t i = 0; i < N; i++) {
    double v = (double)a[i];
    bool k = sgn > 0 ? h_same(p[i].real(), v) : (h_same(p[i].real(), -v) || h_same(p[i].real(), (double)(-a[i])));
    if (!k || !(p[i].imag() == 0)) return false;
  }
  return true;
}
namespace fft {
template<>
inline void fft<LG>(cx* const __restrict p)
{
  for (int k = 0; k < 4; k++)
    for (int s = 1; s >= -1; s -= 2)
      if (known[k] && arg_is(p, POLY[k], s)) {
        for (size_t i = 0; i < N; i++) p[i] = s > 0 ? TR[k][i] : -TR[k][i];
        return;
      }
  // the constant polynomial c transforms to the constant vector
  bool cst = true;
  for (size_t i = 1; i < N; i++) cst &= h_same(p[i].real(), 0.0) && h_same(p[i].imag(), 0.0);
  if (cst && h_same(p[0].real(), (double)Q)) {
    for (size_t i = 1; i < N; i++) p[i] = p[0];
    return;
  }
  h_check(false, "transforms one of the key polynomials", 0);
  h_stop();
}
template<>
inline void ifft<LG>(cx* const __restrict p)
{
  ninv++;
  for (size_t i = 0; i < N; i++) {
    INV[i] = p[i];
    RES[i] = cx{ h_funi("r", i, -1e6, 1e6), h_fopq("rim", i) };
    p[i] = RES[i];
  }
}
}
#include "falcon.hpp"
static void inputs(bool big)
{
  int32_t m = big ? 6144 : 127;
  const char* nm[4] = { "f", "g", "F", "G" };
  const char* tr[8] = { "tf", "tfi", "tg", "tgi", "tF", "tFi", "tG", "tGi" };
  int32_t* P[4] = { f, g, F, G };
  for (int k = 0; k < 4; k++) {
    known[k] = true;
    for (size_t i = 0; i < N; i++) {
      P[k][i] = (int32_t)h_rng(nm[k], i, -m, m);
      TR[k][i] = cv(tr[2 * k], tr[2 * k + 1], i);
    }
  }
}
// squared norms
H_ENTRY e_norm()
{
  cx* a = new (hk) cx[N];
  double *d = new (hk) double[N], s = 0, t = 0;
  for (size_t i = 0; i < N; i++) {
    a[i] = cv("a", "ai", i);
    d[i] = h_fopq("d", i);
    s += a[i].real() * a[i].real() + a[i].imag() * a[i].imag();
    t += d[i] * d[i];
  }
  h_feq(ntru_gen::sqrd_norm<LG>(a) * (double)N, s, "squared norm in transform representation", 0);
  h_feq(ntru_gen::sqrd_norm<LG>(d), t, "squared norm in coefficient representation", 0);
}
H_ENTRY e_gs()
{
  inputs(true);
  known[2] = known[3] = false;
  if (!h_symbolic()) // keep the second term comparable with the first
    for (size_t i = 0; i < N; i++) {
      double sc = h_rng("sc", 0, 1, 40) / 10.0;
      TR[0][i] = cx{ (10 + std::fabs(TR[0][i].real())) * sc, TR[0][i].imag() };
      TR[1][i] = TR[1][i] * sc;
      f[i] %= 16, g[i] %= 16;
    }
  double r = ntru_gen::gram_schmidt_norm<LG>(f, g);
  double a = 0, b = 0;
  for (size_t i = 0; i < N; i++) {
    double x = (double)f[i], y = (double)g[i];
    a += x * x + y * y;
    cx u = TR[0][i], v = TR[1][i];
    b += 1.0 / (u.real() * u.real() + u.imag() * u.imag() + v.real() * v.real() + v.imag() * v.imag());
  }
  b = b * ((double)Q * Q) / (double)N;
  if (a < b) h_feq(r, b, "quality is the larger norm: the orthogonalised one", 0);
  else h_feq(r, a, "quality is the larger norm: that of (g, -f)", 0);
}
H_ENTRY e_G()
{
  inputs(false);
  known[3] = false;
  if (!h_symbolic())
    for (size_t i = 0; i < N; i++) TR[0][i] += cx{ TR[0][i].real() >= 0 ? 1.0 : -1.0, 0.0 };
  int32_t* out = new (hk) int32_t[N];
  falcon::recompute_G<N>(f, g, F, out);
  h_check(ninv == 1, "transforms one quotient back", 0);
  for (size_t i = 0; i < N; i++) {
    ceq(INV[i] * TR[0][i], cx{ (double)Q, 0.0 } + TR[1][i] * TR[2][i], "quotient times f is q + g F", i);
    h_check(out[i] == (int32_t)std::round(RES[i].real()), "G is the rounded quotient", i);
  }
}
static void matrix(const cx* B)
{
  for (size_t i = 0; i < N; i++) {
    ceq(B[i], TR[1][i], "block 00 is the transform of g", i);
    ceq(B[N + i], -TR[0][i], "block 01 is the transform of -f", i);
    ceq(B[2 * N + i], TR[3][i], "block 10 is the transform of G", i);
    ceq(B[3 * N + i], -TR[2][i], "block 11 is the transform of -F", i);
  }
}
H_ENTRY e_B()
{
  inputs(false);
  cx* B = new (hk) cx[4 * N];
  falcon::compute_matrix_B<N>(f, g, F, G, B);
  matrix(B);
}
#if VAR == 4
static prng::prng_t* RNG;
static cx *KB, *KT;
static ff::ff_t* KH;
static double SIG;
static int stage[5];
namespace ntru_gen {
template<>
inline void ntru_gen<N>(int32_t* const __restrict f_, int32_t* const __restrict g_, int32_t* const __restrict F_, int32_t* const __restrict G_,
                        prng::prng_t& rng)
{
  stage[0]++;
  h_check(&rng == RNG, "samples the key from the given generator", 0);
  inputs(false);
  memcpy(f_, f, sizeof f), memcpy(g_, g, sizeof g), memcpy(F_, F, sizeof F), memcpy(G_, G, sizeof G);
}
}
namespace keygen {
template<>
inline void compute_gram_matrix<N>(const cx* const __restrict B, cx* const __restrict G_)
{
  stage[1]++;
  matrix(B);
  for (size_t i = 0; i < 4 * N; i++) G_[i] = cv("gm", "gmi", i);
}
template<>
inline void compute_public_key<N>(const int32_t* const __restrict f_, const int32_t* const __restrict g_, ff::ff_t* const __restrict h)
{
  stage[4]++;
  h_check(h == KH, "writes the given public polynomial", 0);
  for (size_t i = 0; i < N; i++) {
    h_check(f_[i] == f[i], "public key from f", i);
    h_check(g_[i] == g[i], "public key from g", i);
    h[i].v = h_zq("h", i);
  }
}
}
namespace falcon_tree {
template<>
inline void ffldl<N, 0, LG>(const cx* const __restrict G_, cx* const __restrict T)
{
  stage[2]++;
  h_check(T == KT, "builds the given tree", 0);
  for (size_t i = 0; i < 4 * N; i++) h_check(same(G_[i], cv("gm", "gmi", i)), "tree of the Gram matrix", i);
  for (size_t i = 0; i < (LG + 1) * N; i++) T[i] = cx{ h_fopq("tree", i), 1.0 };
}
template<>
inline void normalize_tree<N, 0, LG>(cx* const T, const double s)
{
  stage[3]++;
  h_check(T == KT && h_same(s, SIG) && stage[2] == 1, "normalises the tree with the given deviation", 0);
  for (size_t i = 0; i < (LG + 1) * N; i++) T[i] = cx{ h_fopq("norm", i), 2.0 };
}
}
H_ENTRY e_keygen()
{
  prng::prng_t rng;
  RNG = &rng;
  KB = new (hk) cx[4 * N], KT = new (hk) cx[(LG + 1) * N], KH = new (hk) ff::ff_t[N];
  SIG = h_fopq("sigma", 0);
  keygen::keygen<N>(KB, KT, KH, SIG, rng);
  for (int k = 0; k < 5; k++) h_check(stage[k] == 1, "each step once", k);
  matrix(KB);
  for (size_t i = 0; i < N; i++) h_check(KH[i].v == h_zq("h", i), "public polynomial is returned", i);
  for (size_t i = 0; i < (LG + 1) * N; i++) h_check(h_same(KT[i].real(), h_fopq("norm", i)), "normalised tree is returned", i);
}
#endif
#elif VAR == 2
// ---- one level of the tree
#define PARENT_LEVEL(l) (((l) & 1) == (PAR ^ 1)) // levels executed; the others are stand-ins
static size_t LEVEL;
struct call_t {
  std::vector<cx> a, b;  // Gram matrix of the child, or its targets
  const cx* T;
  cx *z0, *z1;
  std::vector<cx> o0, o1;
};
static std::vector<call_t> calls;
static prng::prng_t* RNG;
static double SMIN;
static void child_ldl(size_t n, const cx* G, cx* T)
{
  call_t c;
  c.a.assign(G, G + 4 * n);
  c.T = T;
  calls.push_back(c);
}
static void child_samp(size_t n, const cx* t0, const cx* t1, const cx* T, double smin, cx* z0, cx* z1, prng::prng_t& rng)
{
  h_check(&rng == RNG && h_same(smin, SMIN), "the generator and sigma_min are handed down", 0);
  call_t c;
  size_t k = calls.size();
  c.a.assign(t0, t0 + n);
  c.b.assign(t1, t1 + n);
  c.T = T;
  for (size_t i = 0; i < n; i++) {
    cx u = cv("zr", "zi", (2 * k) * N + i), v = cv("zr", "zi", (2 * k + 1) * N + i);
    c.o0.push_back(u), c.o1.push_back(v);
    z0[i] = u, z1[i] = v;
  }
  calls.push_back(c);
}
// samples at a leaf: recorded with their arguments
struct smp_t {
  double mu, sig, smin;
  int32_t v;
};
static std::vector<smp_t> smps;
namespace samplerz {
static inline int32_t stub_samplerz(const double mu, const double sig, const double smin, prng::prng_t& rng)
{
  h_check(&rng == RNG, "leaf samples come from the given generator", 0);
  int32_t v = (int32_t)h_rng("smp", smps.size(), -100000, 100000);
  smps.push_back({ mu, sig, smin, v });
  return v;
}
}
#define samplerz(...) stub_samplerz(__VA_ARGS__)
#include "ffsampling.hpp"
#undef samplerz
#include "keygen.hpp"
// specialised levels: 1, 3, 5, ... (PAR 1) or 2, 4, 6, ... (PAR 0)
namespace falcon_tree {
#define SPEC(l)                                                                                                                   \
  template<> inline void ffldl<(N >> (l)), (l), LG>(const cx* const __restrict G, cx* const __restrict T) { child_ldl(N >> (l), G, T); }
#if PAR
SPEC(1) SPEC(3) SPEC(5) SPEC(7)
#if DIM == 1024
SPEC(9)
#endif
#else
SPEC(2) SPEC(4) SPEC(6) SPEC(8)
#endif
#undef SPEC
}
namespace ffsampling {
#define SPEC(l)                                                                                                                   \
  template<> inline void ff_sampling<(N >> (l)), (l), LG>(const cx* const __restrict t0, const cx* const __restrict t1,         \
    const cx* const __restrict T, const double s, cx* const __restrict z0, cx* const __restrict z1, prng::prng_t& rng)            \
  { child_samp(N >> (l), t0, t1, T, s, z0, z1, rng); }
#if PAR
SPEC(1) SPEC(3) SPEC(5) SPEC(7) SPEC(9)
#else
SPEC(2) SPEC(4) SPEC(6) SPEC(8)
#if DIM == 1024
SPEC(10)
#endif
#endif
#undef SPEC
}
// root of unity exp(i pi k / 1024), from half-angle formulas
static cx root(size_t k)
{
  double c = -1, s = 0; // angle pi
  cx r{ 1.0, 0.0 };
  for (size_t b = 10;; b--) {
    // here (c, s) is the angle pi 2^b / 1024
    if ((k >> b) & 1) r = cx{ r.real() * c - r.imag() * s, r.real() * s + r.imag() * c };
    if (!b) break;
    if (b == 10) c = 0, s = 1;
    else {
      double c2 = std::sqrt((1 + c) / 2);
      s = s / (2 * c2);
      c = c2;
    }
  }
  return r;
}
static size_t brv(size_t v, size_t w)
{
  size_t r = 0;
  for (size_t i = 0; i < w; i++) r |= ((v >> i) & 1) << (w - 1 - i);
  return r;
}
// evaluation points 2i, 2i+1 of a transform of size n are x and -x with
static cx point(size_t n, size_t i)
{
  size_t lg = 0;
  while ((1ul << lg) < n) lg++;
  return root((2 * brv(2 * i, lg) + 1) * (1024 / n));
}
static void split(size_t n, const cx* p, std::vector<cx>& e, std::vector<cx>& o)
{
  for (size_t i = 0; i < n / 2; i++) {
    cx w = conj_(point(n, i)), d = p[2 * i] - p[2 * i + 1], s = p[2 * i] + p[2 * i + 1];
    e.push_back(cx{ 0.5 * s.real(), 0.5 * s.imag() });
    o.push_back(cx{ 0.5 * (d.real() * w.real() - d.imag() * w.imag()), 0.5 * (d.real() * w.imag() + d.imag() * w.real()) });
  }
}
static void merge(size_t n, const std::vector<cx>& e, const std::vector<cx>& o, std::vector<cx>& p)
{
  p.resize(n);
  for (size_t i = 0; i < n / 2; i++) {
    cx w = point(n, i), m{ o[i].real() * w.real() - o[i].imag() * w.imag(), o[i].real() * w.imag() + o[i].imag() * w.real() };
    p[2 * i] = e[i] + m;
    p[2 * i + 1] = e[i] - m;
  }
}
static cx mul(const cx& a, const cx& b)
{
  return cx{ a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real() };
}
// a tree node of level l needs this many entries at most: its own block and the rest of the levels below
static size_t room(size_t) { return (LG + 1) * N + 8; }
static double away(double d) { return h_symbolic() ? d : d + (d >= 0 ? 3.0 : -3.0); }

// made from D00 (= v) rather than from D11?
static bool is_left(double x, double v)
{
  return h_symbolic() ? !h_dep(x, "g11") : std::fabs(x - v) <= 1e-9 * (1 + std::fabs(v));
}

template<size_t L>
static void ldl_level(size_t* lo, size_t* ro)
{
  constexpr size_t n = N >> L;
  cx* Gm = new (hk) cx[4 * n];
  cx* T = new (hk) cx[room(L)];
  std::vector<cx> T0(room(L)), G0;
  for (size_t i = 0; i < room(L); i++) T0[i] = T[i] = cx{ -7.25, 3.5 };
  for (size_t i = 0; i < n; i++) {
    // self-adjoint matrix with invertible diagonal
    size_t j = n == 2 ? 0 : i;
    Gm[i] = cx{ away(h_fopq("g00", j)), 0.0 };
    cx x = cv("g10", "g10i", j);
    if (n == 2 && i == 1) x = conj_(x);
    Gm[2 * n + i] = x;
    Gm[n + i] = conj_(x);
    Gm[3 * n + i] = cx{ h_fopq("g11", j), 0.0 };
  }
  G0.assign(Gm, Gm + 4 * n);
  calls.clear();
  falcon_tree::ffldl<n, L, LG>(Gm, T);
  std::vector<cx> D0(n), D1(n);
  for (size_t i = 0; i < n; i++) {
    cx g00 = G0[i], g10 = G0[2 * n + i];
    double q = (g10.real() * g10.real() + g10.imag() * g10.imag()) / g00.real();
    ceq(cx{ T[i].real() * g00.real(), T[i].imag() * g00.real() }, g10, "L10 times D00 is G10", i);
    D0[i] = g00;
    D1[i] = cx{ G0[3 * n + i].real() - q, 0.0 };
  }
  size_t changed = 0, at[4] = { 0, 0, 0, 0 };
  for (size_t i = n; i < room(L); i++)
    if (!same(T[i], T0[i])) {
      if (changed < 4) at[changed] = i;
      changed++;
    }
  if constexpr (n == 2) {
    h_check(changed == 2 && calls.size() == 0, "the last level stores two leaves besides L10", 0);
    if (changed != 2) return;
    // the layout is free as long as the sampler uses the same (see samp_level)
    if (!is_left(T[at[0]].real(), D0[0].real())) std::swap(at[0], at[1]);
    h_feq(T[at[0]].real(), D0[0].real(), "left leaf is D00", 0);
    h_feq(T[at[1]].real(), D1[0].real(), "right leaf is D11", 0);
    *lo = at[0], *ro = at[1];
  } else {
    h_check(changed == 0, "a node writes only its own entries", 0);
    h_check(calls.size() == 2, "two children", 0);
    if (calls.size() != 2) return;
    // the child of D00 is identified by the polynomial it is given
    size_t k0 = 0;
    std::vector<cx> a, b, c, d;
    split(n, D0.data(), a, b);
    split(n, D1.data(), c, d);
    k0 = is_left(calls[0].a[0].real(), a[0].real()) ? 0 : 1;
    for (size_t s = 0; s < 2; s++) {
      const call_t& ch = calls[s ? 1 - k0 : k0];
      const std::vector<cx>&u = s ? c : a, &v = s ? d : b;
      const char* m = s ? "child Gram matrix of D11" : "child Gram matrix of D00";
      for (size_t i = 0; i < n / 2; i++) {
        ceq(ch.a[i], u[i], m, i);
        ceq(ch.a[n + i], conj_(v[i]), m, n + i);
        ceq(ch.a[n + n / 2 + i], u[i], m, n + n / 2 + i);
      }
    }
    *lo = (size_t)(calls[k0].T - T), *ro = (size_t)(calls[1 - k0].T - T);
    h_check(*lo != *ro && *lo < room(L) && *ro < room(L), "children have their own storage", 0);
  }
}
template<size_t L>
static void samp_level(size_t lo, size_t ro)
{
  constexpr size_t n = N >> L;
  prng::prng_t rng;
  RNG = &rng;
  SMIN = h_fopq("smin", 0);
  cx *t0 = new (hk) cx[n], *t1 = new (hk) cx[n], *z0 = new (hk) cx[n], *z1 = new (hk) cx[n], *T = new (hk) cx[room(L)];
  for (size_t i = 0; i < n; i++) t0[i] = cv("t0", "t0i", i), t1[i] = cv("t1", "t1i", i), T[i] = cv("l", "li", i);
  calls.clear();
  ffsampling::ff_sampling<n, L, LG>(t0, t1, T, SMIN, z0, z1, rng);
  h_check(calls.size() == 2 && smps.size() == 0, "a node samples both children once", 0);
  if (calls.size() != 2) return;
  std::vector<cx> a, b, m1, m0, tp(n);
  split(n, t1, a, b);
  h_check(calls[0].T == T + ro, "first the right subtree", 0);
  h_check(calls[1].T == T + lo, "then the left subtree", 0);
  merge(n, calls[0].o0, calls[0].o1, m1);
  merge(n, calls[1].o0, calls[1].o1, m0);
  for (size_t i = 0; i < n; i++) {
    tp[i] = cv("t0", "t0i", i) + mul(cv("t1", "t1i", i) - m1[i], cv("l", "li", i));
    ceq(z1[i], m1[i], "z1 merges the samples of the right subtree", i);
    ceq(z0[i], m0[i], "z0 merges the samples of the left subtree", i);
  }
  std::vector<cx> c, d;
  split(n, tp.data(), c, d);
  for (size_t i = 0; i < n / 2; i++) {
    ceq(calls[0].a[i], a[i], "right target: even part of t1", i);
    ceq(calls[0].b[i], b[i], "right target: odd part of t1", i);
    ceq(calls[1].a[i], c[i], "left target: even part of t0 + (t1 - z1) L", i);
    ceq(calls[1].b[i], d[i], "left target: odd part of t0 + (t1 - z1) L", i);
  }
}
static void leaf()
{
  prng::prng_t rng;
  RNG = &rng;
  SMIN = h_fopq("smin", 0);
  cx t0[1] = { cv("t0", "t0i", 0) }, t1[1] = { cv("t1", "t1i", 0) }, z0[1], z1[1], T[1] = { cv("l", "li", 0) };
  ffsampling::ff_sampling<1, LG, LG>(t0, t1, T, SMIN, z0, z1, rng);
  h_check(smps.size() == 2, "two samples per leaf", 0);
  if (smps.size() != 2) return;
  for (int k = 0; k < 2; k++) {
    h_feq(smps[k].mu, h_fopq(k ? "t1" : "t0", 0), "centre of the leaf sample", k);
    h_feq(smps[k].sig, h_fopq("l", 0), "deviation of the leaf sample", k);
    h_feq(smps[k].smin, h_fopq("smin", 0), "sigma_min of the leaf sample", k);
    const cx& z = k ? z1[0] : z0[0];
    h_check(z.real() == (double)smps[k].v && z.imag() == 0, "the sample is returned", k);
  }
}
template<size_t L>
static void level(size_t l, bool samp)
{
  if constexpr (L < LG) {
    if (L == l) {
      size_t lo = 0, ro = 0;
      ldl_level<L>(&lo, &ro);
      if (samp) samp_level<L>(lo, ro);
    } else
      level<L + 2>(l, samp);
  }
}
H_ENTRY e_ldl() { level<PAR ^ 1>(h_param("level", 0), false); }
H_ENTRY e_samp() { level<PAR ^ 1>(h_param("level", 0), true); }
#if (DIM == 512) == (PAR == 0)
H_ENTRY e_leaf() { leaf(); }
#endif
H_ENTRY e_gram()
{
  cx *B = new (hk) cx[4 * N], *G = new (hk) cx[4 * N];
  for (size_t i = 0; i < 4 * N; i++) B[i] = cv("br", "bi", i);
  keygen::compute_gram_matrix<N>(B, G);
  for (size_t i = 0; i < N; i++) {
    cx b[4];
    for (int k = 0; k < 4; k++) b[k] = cv("br", "bi", k * N + i);
    for (int r = 0; r < 2; r++)
      for (int c = 0; c < 2; c++)
        ceq(G[(2 * r + c) * N + i], mul(b[2 * r], conj_(b[2 * c])) + mul(b[2 * r + 1], conj_(b[2 * c + 1])), "Gram matrix is B B*", (2 * r + c) * N + i);
    for (int k = 0; k < 4; k++) h_check(same(B[k * N + i], b[k]), "basis unchanged", k * N + i);
  }
}
#elif VAR == 3
// ---- storage: every decomposition writes tagged entries
static size_t nldl;
static const cx* SIZE_AT[2 * N];
static size_t SIZES[2 * N];
// distinct values
static double tag(size_t i) { return h_symbolic() ? h_fopq("tag", i) : (double)i + 1 + (double)h_rng("t0", 0, 0, 1000) / 7; }
#include "polynomial.hpp"
#include "falcon_tree.hpp"
static size_t ntag;
static std::vector<size_t> leaftag;
namespace falcon_tree {
template<size_t n>
static void tagged(cx* l10, cx* d00, cx* d11)
{
  nldl++;
  for (size_t i = 0; i < n; i++) l10[i] = cx{ tag(ntag++), 0.0 };
  for (size_t i = 0; i < n; i++) d00[i] = d11[i] = cx{ 0.5, 0.0 };
  if (n == 2) {
    d00[0] = d00[1] = cx{ tag(ntag), 0.0 };
    leaftag.push_back(ntag++);
    d11[0] = d11[1] = cx{ tag(ntag), 0.0 };
    leaftag.push_back(ntag++);
  }
}
#define SPEC(n)                                                                                                                  \
  template<> inline void ldl<n>(const cx* const __restrict, cx* const __restrict l10, cx* const __restrict d00, cx* const __restrict d11) \
  { tagged<n>(l10, d00, d11); }
SPEC(2) SPEC(4) SPEC(8) SPEC(16) SPEC(32) SPEC(64) SPEC(128) SPEC(256) SPEC(512) SPEC(1024)
#undef SPEC
}
template<size_t H>
static void storage()
{
  constexpr size_t n = 1ul << H, total = (H + 1) * n;
  cx *G = new (hk) cx[4 * n], *T = new (hk) cx[total];
  for (size_t i = 0; i < 4 * n; i++) G[i] = cx{ 1.0, 0.0 };
  for (size_t i = 0; i < total; i++) T[i] = cx{ -1.0, -1.0 };
  falcon_tree::ffldl<n, 0, H>(G, T);
  h_check(nldl == n - 1 && ntag == total, "one decomposition per inner node", 0);
  std::vector<size_t> where(total, total);
  std::vector<char> used(total, 0);
  for (size_t k = 0; k < total; k++) {
    // position of tag k: usually near the previous one
    size_t guess = k ? where[k - 1] + 1 : 0, p = total;
    for (size_t d = 0; d < total; d++) {
      size_t q = (guess + d) % total;
      if (!used[q] && h_same(T[q].real(), tag(k))) {
        p = q;
        break;
      }
    }
    h_check(p < total, "every entry of the tree is stored once, in its own place", k);
    if (p == total) return;
    used[p] = 1;
    where[k] = p;
  }
  double s = h_fopq("sigma", 0);
  if (!h_symbolic()) { // deviations of leaves are positive
    s = std::fabs(s) + 1;
    for (size_t k : leaftag) T[where[k]] = cx{ std::fabs(tag(k)) + 1, 0.0 };
  }
  std::vector<cx> T0(T, T + total);
  std::vector<char> isleaf(total, 0);
  falcon_tree::normalize_tree<n, 0, H>(T, s);
  for (size_t k : leaftag) {
    size_t p = where[k];
    isleaf[p] = 1;
    h_feq(T[p].real(), s / std::sqrt(T0[p].real()), "leaf is sigma / sqrt(d)", k);
  }
  for (size_t i = 0; i < total; i++)
    if (!isleaf[i]) h_check(same(T[i], T0[i]), "inner nodes are left alone", i);
}
H_ENTRY e_storage()
{
  switch (h_param("h", LG)) {
    case 1: storage<1>(); break;
    case 2: storage<2>(); break;
    case 3: storage<3>(); break;
    case 4: storage<4>(); break;
    case 5: storage<5>(); break;
    case 6: storage<6>(); break;
    case 7: storage<7>(); break;
    case 8: storage<8>(); break;
    case 9: storage<9>(); break;
    case 10: storage<10>(); break;
  }
}
#endif
