// C13, C16, C29, C30: key generation and the top-level functions. VAR selects the stand-ins.
//  1 transform-domain key arithmetic   2 the key generation loop   3 top-level sign / verify / keygen
//  4 tree construction at top level
#include "h.hpp"
#include <cstdlib>
#include <cstring>
#include <cmath>
#include "falcon.hpp"
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM, LG = N == 512 ? 9 : 10;
static constexpr int32_t Q = 12289, FGMAX = N == 512 ? 31 : 15;
static constexpr int32_t BETA2 = N == 512 ? 34034726 : 70265242;
static constexpr size_t SLEN = N == 512 ? 666 : 1280, PKLEN = N == 512 ? 897 : 1793, SKLEN = N == 512 ? 1281 : 2305;
static uint16_t res(int32_t v) { return (uint16_t)((v < 0) * Q + v); }
template<class T> static T* fresh(size_t n) { return (T*)memset(h_alloc(n * sizeof(T)), 0, n * sizeof(T)); }
static bool near(double a, double b) { return a > b - 1e-9 * b && a < b + 1e-9 * b; }

#if VAR == 1
static constexpr int32_t R = 6144;
static int32_t f[N], g[N];
static bool isf, isg;
static int mode; // 0 free transforms, 1 compare the arguments
extern "C" void hk_ntt(ff::ff_t* p)
{
  if (mode == 1) {
    bool a = true, b = true;
    for (size_t i = 0; i < N; i++) a &= p[i].v == res(f[i]), b &= p[i].v == res(g[i]);
    h_check(a || b, "the transformed polynomial is the residue of an input", 0);
  }
  static uint64_t k = 0;
  for (size_t i = 0; i < N; i++) p[i].v = h_zq("t", k++);
}
extern "C" void hk_intt(ff::ff_t* p)
{
  for (size_t i = 0; i < N; i++) p[i].v = h_zq("u", i);
}
static uint32_t pw(uint32_t b, uint64_t e)
{
  uint64_t r = 1, x = b;
  for (; e; e >>= 1, x = x * x % Q)
    if (e & 1) r = r * x % Q;
  return (uint32_t)r;
}
// number of zeros among the evaluations at the odd powers of the root
static size_t zeros(const int32_t* p)
{
  size_t z = 0;
  for (size_t k = 0; k < N; k++) {
    uint64_t x = pw(N == 512 ? 49 : 7, 2 * k + 1), s = 0;
    for (size_t i = N; i-- > 0;) s = (s * x + res(p[i])) % Q;
    z += s == 0;
  }
  return z;
}
// the polynomial with given transform, coefficients centred
static void from_transform(int32_t* p, const char* nm, bool rnd)
{
  ff::ff_t a[N];
  for (size_t i = 0; i < N; i++) {
    a[i].v = h_zq(nm, i);
    if (rnd && h_sym("z1", i, 9) == 0) a[i].v = 0;
  }
  if (rnd && h_sym("z2", 0, 1)) a[h_sym("z3", 0, 9)].v = 0;
  ntt::intt<LG>(a);
  for (size_t i = 0; i < N; i++) p[i] = a[i].v > R ? (int32_t)a[i].v - Q : a[i].v;
}
static void inputs()
{
  for (size_t i = 0; i < N; i++) f[i] = (int32_t)h_rng("f", i, -R, R), g[i] = (int32_t)h_rng("g", i, -R, R);
  if (!h_symbolic() && h_sym("md", 0, 2) == 1)
    for (size_t i = 0; i < N; i++) f[i] %= 20, g[i] %= 20;
}
// every evaluation arbitrary
H_ENTRY e_inv()
{
  if (!h_symbolic()) {
    from_transform(f, "t", h_sym("md", 0, 2) != 0);
    bool r = ntru_gen::is_poly_invertible<LG>(f);
    h_check(r == (zeros(f) == 0), "invertible exactly when no evaluation is zero", 0);
    return;
  }
  for (size_t i = 0; i < N; i++) f[i] = (int32_t)h_rng("f", i, -R, R);
  bool r = ntru_gen::is_poly_invertible<LG>(f), s = true;
  for (size_t i = 0; i < N; i++) s &= h_zq("t", i) != 0;
  h_check(r == s, "invertible exactly when no evaluation is zero", 0);
}
H_ENTRY e_inv_arg()
{
  mode = 1;
  inputs();
  memcpy(g, f, sizeof g);
  int32_t* in = fresh<int32_t>(N);
  memcpy(in, f, sizeof f);
  bool r = ntru_gen::is_poly_invertible<LG>(in);
  if (!h_symbolic()) h_check(r == (zeros(f) == 0), "invertible exactly when no evaluation is zero", 0);
  for (size_t i = 0; i < N; i++) h_check(in[i] == f[i], "input unchanged", i);
}
static void public_key(bool symspec)
{
  inputs();
  ff::ff_t* h = fresh<ff::ff_t>(N);
  if (!h_symbolic() && h_sym("md2", 0, 2) == 1) from_transform(f, "t", true);
  keygen::compute_public_key<N>(f, g, h);
  if (h_symbolic()) {
    if (!symspec) return;
    ff::ff_t a[N], b[N];
    for (size_t i = 0; i < N; i++) a[i].v = res(f[i]), b[i].v = res(g[i]);
    ntt::ntt<LG>(a);
    ntt::ntt<LG>(b);
    ntt::ntt<LG>(h);
    for (size_t i = 0; i < N; i++) {
      ff::ff_t c = b[i] * a[i].inv();
      h_zeq(h[i].v, c.v, "evaluation of the public polynomial is that of g over that of f", i);
    }
    return;
  }
  for (size_t i = 0; i < N; i++) h_check(h[i].v < Q, "canonical public polynomial", i);
  if (zeros(f)) return;
  for (size_t k = 0; k < N; k++) {
    int64_t s = 0;
    for (size_t i = 0; i < N; i++) {
      int64_t t = (int64_t)f[i] * h[(k + N - i) % N].v;
      s += i <= k ? t : -t;
    }
    h_check((s - g[k]) % Q == 0, "h*f = g", k);
  }
}
H_ENTRY e_pub() { public_key(true); }
H_ENTRY e_pub_arg() { mode = 1; public_key(false); }

#elif VAR == 2
// ---- the loop of ntru_gen: samples, invertibility, quality and solutions are arbitrary
static constexpr double T = 1.17 * 1.17 * 12289.0;
static size_t ndraw, K, TAG, ST = 1; // every ST-th coefficient is arbitrary
static size_t LATE;                  // so many candidates fail, each for one of four reasons
static int32_t (*draw)[N];
static int early(size_t d) { return d / 2 < LATE ? 1 + (d / 2) % 4 : 0; }
static prng::prng_t* RNG;
static bool peq(const int32_t* a, const int32_t* b)
{
  // structural: every draw carries its own number in one coefficient (two after many failures)
  return a[TAG] == b[TAG];
}
static size_t which(const int32_t* p)
{
  for (size_t d = 0; d < ndraw; d++)
    if (p[TAG] == draw[d][TAG] && (!LATE || p[TAG + 1] == draw[d][TAG + 1])) {
      bool ok = true;
      for (size_t i = 0; i < N; i++) ok &= p[i] == draw[d][i];
      h_check(ok, "polynomial is one that was sampled", d);
      return d;
    }
  h_check(false, "polynomial is one that was sampled", 99);
  h_stop();
  return 0;
}
static bool inv_of(size_t d) { return early(d) ? early(d) != 1 : h_sym("inv", d, 1); }
static double gs_of(size_t a, size_t b)
{
  if (early(a)) return early(a) == 2 ? 100000.0 : 16000.0;
  if (!h_symbolic() && h_sym("low", a * 4096 + b, 2)) return h_funi("gs", a * 4096 + b, 1000.0, T);
  return h_funi("gs", a * 4096 + b, 1000.0, 100000.0);
}
static bool sol_of(size_t a, size_t b) { return early(a) ? early(a) != 3 : h_sym("sol", a * 4096 + b, 1); }
static int64_t FS(size_t a, size_t b, size_t i)
{
  if (early(a)) return early(a) == 4 && i == (a % 16 < 8 ? 0 : N) ? 128 : 0;
  if (i % ST) return 0;
  if (!h_symbolic() && h_sym("wide", a * 4096 + b, 2)) return h_rng("F", (a * 4096 + b) * 4096 + i, -127, 127);
  return h_rng("F", (a * 4096 + b) * 4096 + i, -(1ll << 40), 1ll << 40);
}
static int64_t GS(size_t a, size_t b, size_t i)
{
  if (early(a)) return early(a) == 4 && i == (a % 16 < 8 ? N : N - 1) ? 128 : 0;
  if (i % ST) return 0;
  if (!h_symbolic() && h_sym("wide", a * 4096 + b, 2)) return h_rng("G", (a * 4096 + b) * 4096 + i, -127, 127);
  return h_rng("G", (a * 4096 + b) * 4096 + i, -(1ll << 40), 1ll << 40);
}
namespace ntru_gen {
template<>
inline void gen_poly<LG>(int32_t* const poly, prng::prng_t& rng)
{
  if (ndraw >= 2 * K) h_stop();
  h_check(&rng == RNG, "samples from the given generator", 0);
  bool narrow = early(ndraw) || (!h_symbolic() && h_sym("narrow", ndraw, 3));
  for (size_t i = 0; i < N; i++) poly[i] = i % ST ? 0 : (int32_t)h_rng("p", ndraw * N + i, narrow ? -FGMAX : -600, narrow ? FGMAX : 600);
  if (LATE) poly[TAG] = (int32_t)ndraw % 31 - 15, poly[TAG + 1] = (int32_t)ndraw / 31 - 8; // fits the encoding
  else poly[TAG] = (int32_t)ndraw + 1;
  memcpy(draw[ndraw], poly, sizeof draw[0]);
  ndraw++;
}
template<>
inline bool is_poly_invertible<LG>(const int32_t* const poly)
{
  size_t d = which(poly);
  return inv_of(d);
}
template<>
inline double gram_schmidt_norm<LG>(const int32_t* const __restrict f, const int32_t* const __restrict g)
{
  return gs_of(which(f), which(g));
}
typedef std::array<mpz_class, N> zpoly;
template<>
inline std::pair<std::pair<zpoly, zpoly>, ntru_solve_status_t> ntru_solve<N>(const zpoly& f, const zpoly& g)
{
  int32_t* a = fresh<int32_t>(N);
  int32_t* b = fresh<int32_t>(N);
  for (size_t i = 0; i < N; i++) a[i] = (int32_t)f[i].get_si(), b[i] = (int32_t)g[i].get_si();
  size_t x = which(a), y = which(b);
  std::pair<zpoly, zpoly> r;
  bool ok = sol_of(x, y);
  if (ok || h_param("half", 0))
    for (size_t i = 0; i < N; i++) r.first[i] = mpz_class((long)FS(x, y, i)), r.second[i] = mpz_class((long)GS(x, y, i));
  return { r, ntru_solve_status_t{ ok ? 0u : 1u } };
}
}
static bool fits(size_t x, size_t y)
{
  bool ok = true;
  for (size_t i = 0; i < N; i++) {
    ok &= draw[x][i] >= -FGMAX & draw[x][i] <= FGMAX & draw[y][i] >= -FGMAX & draw[y][i] <= FGMAX;
    int64_t a = FS(x, y, i), b = GS(x, y, i);
    ok &= a >= -127 & a <= 127 & b >= -127 & b <= 127;
  }
  return ok;
}
static void loop(bool live)
{
  K = h_param("k", 2);
  TAG = h_param("tag", 0);
  ST = h_param("st", 1);
  LATE = h_param("late", 0);
  draw = new (hk) int32_t[2 * K + 4][N];
  int32_t *f = fresh<int32_t>(N), *g = fresh<int32_t>(N), *F = fresh<int32_t>(N), *G = fresh<int32_t>(N);
  prng::prng_t rng;
  RNG = &rng;
  ntru_gen::ntru_gen<N>(f, g, F, G, rng);
  size_t x = which(f), y = which(g);
  double gs = gs_of(x, y);
  if (!live) {
    h_check(x != y, "f and g are separate samples", 0);
    h_check(inv_of(x), "f is invertible", 0);
    h_check(sol_of(x, y), "the NTRU equation was solved for f, g", 0);
    for (size_t i = 0; i < N; i += ST) {
      h_check(f[i] >= -FGMAX & f[i] <= FGMAX, "f fits the encoding", i);
      h_check(g[i] >= -FGMAX & g[i] <= FGMAX, "g fits the encoding", i);
      h_check(F[i] >= -127 & F[i] <= 127, "F fits the encoding", i);
      h_check(G[i] >= -127 & G[i] <= 127, "G fits the encoding", i);
      h_check(F[i] == FS(x, y, i) & G[i] == GS(x, y, i), "F, G are the solution", i);
    }
  }
  h_check(gs <= T * (1 + 1e-12), "the quality of f, g is within the bound", 0);
  if (live)
    for (size_t k = 0; k + 1 < ndraw; k += 2)
      if (k != x && k != y) {
        double q = gs_of(k, k + 1);
        h_check(!(inv_of(k) & (q <= T * (1 - 1e-12)) & sol_of(k, k + 1) & fits(k, k + 1)), "a candidate meeting all conditions is not discarded", k);
      }
}
H_ENTRY e_gen() { loop(false); }
H_ENTRY e_live() { loop(true); }

#elif VAR == 3
static int32_t f[N], g[N], F[N], G[N];
static uint16_t H[N];
static uint8_t *PK, *SK, *MSG, *SIG;
static size_t MLEN, n1, n2, n3, n4, n5, n6, n7;
static bool OK;
#ifndef REALDEC
namespace decoding {
template<>
inline bool decode_skey<N>(const uint8_t* const __restrict skey, int32_t* const __restrict f_, int32_t* const __restrict g_, int32_t* const __restrict F_)
{
  n1++;
  h_check(skey == SK, "decodes the given secret key", 0);
  if (OK) memcpy(f_, f, sizeof f), memcpy(g_, g, sizeof g), memcpy(F_, F, sizeof F);
  else memset(f_, 0, sizeof f), memset(g_, 0, sizeof g), memset(F_, 0, sizeof F);
  return OK;
}
template<>
inline bool decode_pkey<N>(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
{
  n2++;
  h_check(pkey == PK, "decodes the given public key", 0);
  for (size_t i = 0; i < N; i++) h[i].v = OK ? H[i] : 0;
  return OK;
}
}
#define CONTENT(c, m, i) h_check(c, m, i)
#else
#define CONTENT(c, m, i)
#endif
namespace falcon {
template<>
inline void recompute_G<N>(const int32_t* const __restrict f_, const int32_t* const __restrict g_, const int32_t* const __restrict F_, int32_t* const __restrict G_)
{
  n3++;
  bool ok = true;
  for (size_t i = 0; i < N; i++) ok &= f_[i] == f[i] & g_[i] == g[i] & F_[i] == F[i];
  CONTENT(ok, "G is recomputed from the decoded f, g, F", 0);
  memcpy(G_, G, sizeof G);
}
template<>
inline void compute_matrix_B<N>(const int32_t* const __restrict f_, const int32_t* const __restrict g_, const int32_t* const __restrict F_, const int32_t* const __restrict G_,
                                fft::cmplx* const __restrict B)
{
  n4++;
  bool ok = true;
  for (size_t i = 0; i < N; i++) ok &= f_[i] == f[i] & g_[i] == g[i] & F_[i] == F[i] & G_[i] == G[i];
  CONTENT(ok, "the matrix is built from f, g, F, G", 0);
  for (size_t i = 0; i < 4 * N; i++) B[i] = fft::cmplx{ (double)i, 0.5 };
}
template<>
inline void compute_falcon_tree<N>(const fft::cmplx* const __restrict B, fft::cmplx* const __restrict T)
{
  n5++;
  bool ok = true;
  for (size_t i = 0; i < 4 * N; i++) ok &= B[i].real() == (double)i & B[i].imag() == 0.5;
  h_check(ok, "the tree is built from the matrix", 0);
  for (size_t i = 0; i < (LG + 1) * N; i++) T[i] = fft::cmplx{ (double)i, 0.25 };
}
}
namespace signing {
template<>
inline void sign<N, BETA2, SLEN>(const fft::cmplx* const __restrict B, const fft::cmplx* const __restrict T, const uint8_t* const __restrict msg, const size_t mlen,
                                 uint8_t* const __restrict sig, const double smin, prng::prng_t& rng)
{
  n6++;
  bool ok = true, okt = true;
  for (size_t i = 0; i < 4 * N; i++) ok &= B[i].real() == (double)i & B[i].imag() == 0.5;
  for (size_t i = 0; i < (LG + 1) * N; i++) okt &= T[i].real() == (double)i & T[i].imag() == 0.25;
  h_check(ok, "signs with the matrix", 0);
  h_check(okt, "signs with the tree", 0);
  h_check(msg == MSG && mlen == MLEN, "signs the given message", 0);
  h_check(sig == SIG, "writes the given signature", 0);
  h_check(near(smin, N == 512 ? 1.277833697 : 1.298280334), "sigma_min of the specification", 0);
  for (size_t i = 0; i < SLEN; i++) sig[i] = (uint8_t)h_sym("out", i, 8);
}
}
namespace verification {
template<>
inline bool verify<N, BETA2>(const ff::ff_t* const __restrict h, const uint8_t* const __restrict msg, const size_t mlen, const uint8_t* const __restrict sig)
{
  n7++;
  bool ok = true;
  for (size_t i = 0; i < N; i++) ok &= h[i].v == H[i];
  CONTENT(ok, "verifies under the decoded public polynomial", 0);
  h_check(msg == MSG && mlen == MLEN, "verifies the given message", 0);
  h_check(sig == SIG, "verifies the given signature", 0);
  return h_sym("verdict", 0, 1);
}
}
static void setup()
{
  for (size_t i = 0; i < N; i++) {
    f[i] = (int32_t)h_rng("f", i, -FGMAX, FGMAX), g[i] = (int32_t)h_rng("g", i, -FGMAX, FGMAX);
    F[i] = (int32_t)h_rng("F", i, -127, 127), G[i] = (int32_t)h_rng("G", i, -127, 127);
    H[i] = (uint16_t)h_rng("h", i, 0, Q - 1);
  }
  MLEN = h_mlen(5);
  PK = new (hk) uint8_t[PKLEN];
  SK = new (hk) uint8_t[SKLEN];
  MSG = new (hk) uint8_t[h_mbuf(MLEN)];
  SIG = new (hk) uint8_t[SLEN];
  h_bytes("pk", PK, PKLEN);
  h_bytes("sk", SK, SKLEN);
  h_bytes("msg", MSG, h_mbuf(MLEN));
  h_bytes("sig", SIG, SLEN);
  OK = h_sym("ok", 0, 1);
}
H_ENTRY e_sign()
{
  setup();
  bool r = falcon::sign<N>(SK, MSG, MLEN, SIG);
  h_check(r == OK, "reports whether the key decoded", 0);
  if (OK) {
    h_check(n6 == 1, "signs exactly once", 0);
    bool same = true;
    for (size_t i = 0; i < SLEN; i++) same &= SIG[i] == (uint8_t)h_sym("out", i, 8);
    h_check(same, "the signature is the one produced", 0);
  } else {
    bool same = true;
    for (size_t i = 0; i < SLEN; i++) same &= SIG[i] == (uint8_t)h_sym("sig", i, 8);
    h_check(same, "no signature is written for an undecodable key", 0);
    h_check(n6 == 0, "does not sign with an undecodable key", 0);
  }
}
H_ENTRY e_verify()
{
  setup();
  bool r = falcon::verify<N>(PK, MSG, MLEN, SIG);
  h_check(r == (OK && h_sym("verdict", 0, 1)), "accepts exactly when the key decodes and the signature verifies", 0);
  h_check(!OK || n7 == 1, "verifies with the norm bound of the specification", 0);
  bool same = true;
  for (size_t i = 0; i < SLEN; i++) same &= SIG[i] == (uint8_t)h_sym("sig", i, 8);
  h_check(same, "signature unchanged", 0);
}
// real decoders (REALDEC), one malformed byte: every header, the others arbitrary
H_ENTRY e_bad()
{
  setup();
  OK = false;
  if (h_param("pk", 0)) {
    h_assume(PK[0] != LG);
    h_check(!falcon::verify<N>(PK, MSG, MLEN, SIG), "verifying under a malformed public key fails", 0);
    return;
  }
  h_assume(SK[0] != (0x50 | LG));
  h_check(!falcon::sign<N>(SK, MSG, MLEN, SIG), "signing with a malformed secret key fails", 0);
  bool same = true;
  for (size_t i = 0; i < SLEN; i++) same &= SIG[i] == (uint8_t)h_sym("sig", i, 8);
  h_check(same, "no signature is written for a malformed key", 0);
}
H_ENTRY e_len()
{
  h_check(falcon_utils::compute_pkey_len<N>() == PKLEN, "public key length", 0);
  h_check(falcon_utils::compute_skey_len<N>() == SKLEN, "secret key length", 0);
  h_check(falcon_utils::compute_sig_len<N>() == SLEN, "signature length", 0);
}

#elif VAR == 4
static fft::cmplx *B_, *T_, *GR;
static size_t n1, n2, n3;
namespace keygen {
template<>
inline void compute_gram_matrix<N>(const fft::cmplx* const __restrict B, fft::cmplx* const __restrict G)
{
  n1++;
  bool ok = true;
  for (size_t i = 0; i < 4 * N; i++) ok &= B[i].real() == (double)i & B[i].imag() == 0.5;
  h_check(ok, "Gram matrix of the given matrix", 0);
  for (size_t i = 0; i < 4 * N; i++) G[i] = fft::cmplx{ (double)i, 0.75 };
}
}
namespace falcon_tree {
template<>
inline void ffldl<N, 0, LG>(const fft::cmplx* const __restrict G, fft::cmplx* const __restrict T)
{
  n2++;
  bool ok = true;
  for (size_t i = 0; i < 4 * N; i++) ok &= G[i].real() == (double)i & G[i].imag() == 0.75;
  h_check(ok && n1 == 1, "tree of the Gram matrix", 0);
  h_check(T == T_, "tree in the given storage", 0);
  for (size_t i = 0; i < (LG + 1) * N; i++) T[i] = fft::cmplx{ (double)i, 0.25 };
}
template<>
inline void normalize_tree<N, 0, LG>(fft::cmplx* const T, const double sigma)
{
  n3++;
  h_check(T == T_ && n2 == 1, "normalises the built tree", 0);
  double s = h_param("gen", 0) ? 123.25 : N == 512 ? 165.736617183 : 168.388571447;
  h_check(near(sigma, s), "sigma of the specification", 0);
  for (size_t i = 0; i < (LG + 1) * N; i++) T[i] = fft::cmplx{ (double)i, 2.5 };
}
}
H_ENTRY e_tree()
{
  B_ = fresh<fft::cmplx>(4 * N);
  T_ = fresh<fft::cmplx>((LG + 1) * N);
  for (size_t i = 0; i < 4 * N; i++) B_[i] = fft::cmplx{ (double)i, 0.5 };
  falcon::compute_falcon_tree<N>(B_, T_);
  bool ok = true;
  for (size_t i = 0; i < (LG + 1) * N; i++) ok &= T_[i].real() == (double)i & T_[i].imag() == 2.5;
  h_check(ok && n3 == 1, "the normalised tree is returned", 0);
}

#elif VAR == 5
// ---- falcon::keygen: the emitted bytes decode to the generated polynomials
static int32_t f[N], g[N], F[N], G[N];
static uint16_t H[N];
static size_t n1, n2;
namespace ntru_gen {
template<>
inline void ntru_gen<N>(int32_t* const __restrict f_, int32_t* const __restrict g_, int32_t* const __restrict F_, int32_t* const __restrict G_, prng::prng_t&)
{
  n1++;
  memcpy(f_, f, sizeof f), memcpy(g_, g, sizeof g), memcpy(F_, F, sizeof F), memcpy(G_, G, sizeof G);
}
}
namespace keygen {
template<>
inline void compute_public_key<N>(const int32_t* const __restrict f_, const int32_t* const __restrict g_, ff::ff_t* const __restrict h)
{
  n2++;
  bool ok = true;
  for (size_t i = 0; i < N; i++) ok &= f_[i] == f[i] & g_[i] == g[i];
  h_check(ok && n1, "the public key is computed from the generated f, g", 0);
  for (size_t i = 0; i < N; i++) h[i].v = H[i];
}
}
H_ENTRY e_keygen()
{
  for (size_t i = 0; i < N; i++) {
    f[i] = (int32_t)h_rng("f", i, -FGMAX, FGMAX), g[i] = (int32_t)h_rng("g", i, -FGMAX, FGMAX);
    F[i] = (int32_t)h_rng("F", i, -127, 127), G[i] = (int32_t)h_rng("G", i, -127, 127);
    H[i] = (uint16_t)h_rng("h", i, 0, Q - 1);
  }
  uint8_t *pk = new (hk) uint8_t[PKLEN], *sk = new (hk) uint8_t[SKLEN];
  falcon::keygen<N>(pk, sk);
  h_check(n1 == 1 && n2 == 1, "one key pair generated", 0);
  int32_t *a = fresh<int32_t>(N), *b = fresh<int32_t>(N), *c = fresh<int32_t>(N);
  ff::ff_t* h = fresh<ff::ff_t>(N);
  h_check(decoding::decode_skey<N>(sk, a, b, c), "the emitted secret key decodes", 0);
  h_check(decoding::decode_pkey<N>(pk, h), "the emitted public key decodes", 0);
  for (size_t i = 0; i < N; i++) {
    h_check(a[i] == f[i] && b[i] == g[i] && c[i] == F[i], "decodes to the generated f, g, F", i);
    h_check(h[i].v == H[i], "decodes to the computed public polynomial", i);
  }
}
#endif
