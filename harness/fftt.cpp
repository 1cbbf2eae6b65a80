// C19: FFT, inverse FFT, split, merge, adjoint for every size 2 .. 1024
#include "h.hpp"
#include <cmath>
#include <cstring>
#include <vector>
#include "fft.hpp"
typedef fft::cmplx cx;
#ifdef FSE_SYMBOLIC
typedef double real_t;
#else
typedef long double real_t;
#endif
static size_t brv(size_t v, size_t w)
{
  size_t r = 0;
  for (size_t i = 0; i < w; i++) r |= ((v >> i) & 1) << (w - 1 - i);
  return r;
}
struct xc {
  real_t re, im;
};
// exp(i pi k / 1024) by half-angle formulas
static xc root(size_t k)
{
  k &= 2047;
  real_t c = -1, s = 0;
  xc r{ 1, 0 };
  for (size_t b = 10;; b--) {
    if ((k >> b) & 1) r = xc{ r.re * c - r.im * s, r.re * s + r.im * c };
    if (!b) break;
    if (b == 10) c = 0, s = 1;
    else {
#ifdef FSE_SYMBOLIC
      real_t c2 = std::sqrt((1 + c) / 2);
#else
      real_t c2 = sqrtl((1 + c) / 2);
#endif
      s = s / (2 * c2);
      c = c2;
    }
  }
  return r;
}
static cx in(const char* re, const char* im, size_t i)
{
  if (h_symbolic()) return cx{ h_fopq(re, i), h_fopq(im, i) };
  return cx{ h_funi(re, i, -1, 1), h_funi(im, i, -1, 1) };
}
// evaluation point k of size 2^lg
static size_t point(size_t lg, size_t k) { return (2 * brv(k, lg) + 1) << (10 - lg); }
template<size_t LG>
static void transform(bool inverse)
{
  constexpr size_t n = 1ul << LG;
  cx* v = new (hk) cx[n];
  for (size_t i = 0; i < n; i++) v[i] = in("x", "y", i);
  if (inverse) fft::ifft<LG>(v);
  else fft::fft<LG>(v);
  if (h_symbolic()) {
    for (size_t i = 0; i < n; i++) h_fout("re", i, v[i].real()), h_fout("im", i, v[i].imag());
    return;
  }
  std::vector<xc> w(2048);
  for (size_t i = 0; i < 2048; i++) w[i] = root(i);
  for (size_t k = 0; k < n; k++) {
    real_t re = 0, im = 0;
    for (size_t j = 0; j < n; j++) {
      cx x = in("x", "y", j);
      xc r = inverse ? w[(2048 - point(LG, j) * k % 2048) % 2048] : w[point(LG, k) * j % 2048];
      re += x.real() * r.re - x.imag() * r.im;
      im += x.real() * r.im + x.imag() * r.re;
    }
    if (inverse) re /= n, im /= n;
    real_t tol = 1e-13 * (inverse ? 1 : n);
    h_check(std::fabs((double)(re - v[k].real())) <= tol, inverse ? "inverse transform, real part" : "transform, real part", k);
    h_check(std::fabs((double)(im - v[k].imag())) <= tol, inverse ? "inverse transform, imaginary part" : "transform, imaginary part", k);
  }
}
static void near(const cx& a, const cx& b, const char* m, size_t i)
{
  if (h_symbolic()) {
    h_feq(a.real(), b.real(), m, 2 * i);
    h_feq(a.imag(), b.imag(), m, 2 * i + 1);
  } else {
    h_check(std::fabs(a.real() - b.real()) <= 1e-11, m, 2 * i);
    h_check(std::fabs(a.imag() - b.imag()) <= 1e-11, m, 2 * i + 1);
  }
}
template<size_t LG>
static void halves()
{
  constexpr size_t n = 1ul << LG, m = n / 2;
  cx *f = new (hk) cx[n], *a = new (hk) cx[m], *b = new (hk) cx[m], *g = new (hk) cx[n], *c = new (hk) cx[m], *d = new (hk) cx[m], *e = new (hk) cx[n];
  // split of the transform of p is the transforms of its even and odd coefficients
  for (size_t i = 0; i < m; i++) {
    xc w = root(point(LG, 2 * i));
    cx u = in("e", "ei", i), v = in("o", "oi", i);
    cx t{ v.real() * (double)w.re - v.imag() * (double)w.im, v.real() * (double)w.im + v.imag() * (double)w.re };
    f[2 * i] = u + t;
    f[2 * i + 1] = u - t;
    e[2 * i] = f[2 * i], e[2 * i + 1] = f[2 * i + 1];
  }
  fft::split_fft<LG>(f, a, b);
  for (size_t i = 0; i < m; i++) near(a[i], in("e", "ei", i), "split: even half", i), near(b[i], in("o", "oi", i), "split: odd half", i);
  for (size_t i = 0; i < m; i++) a[i] = in("e", "ei", i), b[i] = in("o", "oi", i);
  fft::merge_fft<LG>(a, b, g);
  for (size_t i = 0; i < n; i++) near(g[i], e[i], "merge of the halves", i);
  // mutually inverse
  fft::split_fft<LG>(g, c, d);
  for (size_t i = 0; i < m; i++) near(c[i], in("e", "ei", i), "split after merge", i), near(d[i], in("o", "oi", i), "split after merge", n + i);
  for (size_t i = 0; i < n; i++) f[i] = in("z", "zi", i);
  fft::split_fft<LG>(f, c, d);
  fft::merge_fft<LG>(c, d, g);
  for (size_t i = 0; i < n; i++) near(g[i], in("z", "zi", i), "merge after split", i);
  for (size_t i = 0; i < n; i++) f[i] = in("z", "zi", i);
  fft::adj_poly<LG>(f);
  for (size_t i = 0; i < n; i++) {
    cx z = in("z", "zi", i);
    near(f[i], cx{ z.real(), -z.imag() }, "adjoint is conjugation", i);
  }
}
#define ALL(call)                                                                                                                   \
  switch (h_param("lg", 10)) {                                                                                                     \
    case 1: { constexpr size_t L = 1; call; } break;                                                                               \
    case 2: { constexpr size_t L = 2; call; } break;                                                                               \
    case 3: { constexpr size_t L = 3; call; } break;                                                                               \
    case 4: { constexpr size_t L = 4; call; } break;                                                                               \
    case 5: { constexpr size_t L = 5; call; } break;                                                                               \
    case 6: { constexpr size_t L = 6; call; } break;                                                                               \
    case 7: { constexpr size_t L = 7; call; } break;                                                                               \
    case 8: { constexpr size_t L = 8; call; } break;                                                                               \
    case 9: { constexpr size_t L = 9; call; } break;                                                                               \
    default: { constexpr size_t L = 10; call; } break;                                                                             \
  }
H_ENTRY e_fft() { ALL(transform<L>(false)) }
H_ENTRY e_ifft() { ALL(transform<L>(true)) }
H_ENTRY e_halves() { ALL(halves<L>()) }
