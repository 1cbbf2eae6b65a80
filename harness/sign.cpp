// C25, C26: signing. Hashing (C12), the transforms (C19), tree sampling (C20) and compression (C08) are
// stand-ins returning arbitrary values; the number of attempts per signature is at most K.
#include "h.hpp"
#include <cmath>
#include <cstdlib>
#include <cstring>
#include "ntru_gen.hpp"
#include "hashing.hpp"
#include "encoding.hpp"
#include "ffsampling.hpp"
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM, LG = N == 512 ? 9 : 10;
static constexpr int32_t Q = 12289, BETA2 = N == 512 ? 34034726 : 70265242;
static constexpr size_t SLEN = N == 512 ? 666 : 1280;
typedef fft::cmplx cx;
extern "C" bool h_same(double, double);
#ifndef FSE_SYMBOLIC
extern "C" bool h_same(double a, double b) { return a == b; }
#endif
static bool same(const cx* a, const cx* b)
{
  for (size_t i = 0; i < N; i++)
    if (!h_same(a[i].real(), b[i].real()) || !h_same(a[i].imag(), b[i].imag())) return false;
  return true;
}
static cx cv(const char* re, const char* im, size_t i) { return cx{ h_fopq(re, i), h_fopq(im, i) }; }

static const cx *B, *T;
static const uint8_t* MSG;
static uint8_t* SIG;
static size_t MLEN, K, call, att, nhash, nfft, nifft, nnorm, LOGN;
static double SMIN;
static prng::prng_t* RNG;
static uint64_t BASE; // position of the generator's stream when signing starts
static bool CONTENT;  // C26: check the linear algebra
static uint16_t C[N];
static cx CF[N], Z0[N], Z1[N];
static cx NA[8][N], SI[N]; // norm arguments of the attempt, argument of the inverse transform
static double S2V[N];
static size_t LATE; // so many attempts fail, by turns for being long and for not compressing
static uint64_t key() { return call * 1024 + att; }
static bool early(uint64_t k) { return k % 1024 <= LATE; }
static double nrm(uint64_t k, uint64_t j) { return early(k) && LATE ? k & 1 ? 5e8 : 1e6 : h_funi("n", k * 8 + j, 0, 1e9); }
static bool compressed(uint64_t k) { return early(k) && LATE ? k & 1 : h_sym("comp", k, 1); }
static uint8_t saltbyte(size_t i) { return (uint8_t)h_sym("xof", BASE + i, 8); }

namespace hashing {
template<>
inline void hash_to_point<N>(const uint8_t* const __restrict salt, const size_t slen, const uint8_t* const __restrict msg, const size_t mlen,
                             ff::ff_t* const __restrict poly)
{
  nhash++;
  h_check(slen == 40 && msg == MSG && mlen == MLEN, "hashes a 40-byte salt and the given message", 0);
  for (size_t i = 0; i < 40; i++) h_check(salt[i] == saltbyte(i), "hashes the fresh salt", i);
  for (size_t i = 0; i < N; i++) {
    C[i] = (uint16_t)h_rng("c", call * N + i, 0, Q - 1);
    poly[i].v = C[i];
  }
}
}
namespace fft {
template<>
inline void fft<LG>(cx* const __restrict p)
{
  nfft++;
  for (size_t i = 0; i < N; i++) {
    h_check(p[i].real() == (double)C[i] && p[i].imag() == 0, "transforms the hashed point", i);
    p[i] = CF[i] = cv("cr", "ci", call * N + i);
  }
}
template<>
inline void ifft<LG>(cx* const __restrict p)
{
  nifft++;
  for (size_t i = 0; i < N; i++) {
    SI[i] = p[i];
    S2V[i] = h_funi("s2", key() * N + i, -3000.0, 3000.0);
    p[i] = cx{ S2V[i], 0.0 };
  }
}
}
namespace ntru_gen {
template<>
inline double sqrd_norm<LG>(const cx* const p)
{
  size_t j = nnorm++;
  if (j < 8)
    for (size_t i = 0; i < N; i++) NA[j][i] = p[i];
  return nrm(key(), j);
}
}
static void begin_attempt();
namespace ffsampling {
template<>
inline void ff_sampling<N, 0, LG>(const cx* const __restrict t0, const cx* const __restrict t1, const cx* const __restrict T_, const double smin,
                                  cx* const __restrict z0, cx* const __restrict z1, prng::prng_t& rng)
{
  h_check(T_ == T && &rng == RNG, "samples along the given tree from the given generator", 0);
  h_check(smin == SMIN, "samples with sigma_min", 0);
  begin_attempt();
  for (size_t i = 0; i < N; i++) {
    if (CONTENT) {
      cx a = CF[i] * B[3 * N + i], b = -(CF[i] * B[N + i]);
      h_feq(t0[i].real() * Q, a.real(), "t0 = -c F / q", 2 * i);
      h_feq(t0[i].imag() * Q, a.imag(), "t0 = -c F / q", 2 * i + 1);
      h_feq(t1[i].real() * Q, b.real(), "t1 = c f / q", 2 * i);
      h_feq(t1[i].imag() * Q, b.imag(), "t1 = c f / q", 2 * i + 1);
    }
    z0[i] = Z0[i] = cv("z0r", "z0i", key() * N + i);
    z1[i] = Z1[i] = cv("z1r", "z1i", key() * N + i);
  }
}
}
namespace encoding {
template<>
inline bool compress_sig<N, SLEN>(const int32_t* const __restrict s, uint8_t* const __restrict sig)
{
  h_check(sig == SIG, "compresses into the given signature", 0);
  for (size_t i = 0; i < N; i++) h_check(s[i] == (int32_t)std::round(S2V[i]), "compresses the rounded candidate", i);
  bool ok = compressed(key());
  for (size_t i = 41; i < SLEN; i++)
    if (ok || h_sym("junk", 0, 1)) sig[i] = (uint8_t)h_sym("cs", key() * 4096 + i, 8);
  return ok;
}
}
#include "signing.hpp"

static void end_attempt(bool emitted)
{
  uint64_t k = key();
  if (nnorm < 2) {
    h_check(false, "the norms of both halves are computed", 0);
    h_stop();
  }
  double n = nrm(k, 0) + nrm(k, 1);
  if (emitted) {
    h_check(nnorm == 2 && nifft >= 1, "norm of the candidate is computed and it is transformed back", 0);
    h_check(n <= (double)BETA2 * (1 + 1e-12), "the norm of the emitted candidate is within the bound", 0);
    h_check(compressed(k), "the emitted candidate was compressed", 0);
  } else
    h_check(!((n <= (double)BETA2 * (1 - 1e-12)) & compressed(k)), "a short candidate that compresses is not discarded", 0);
  if (CONTENT && nifft) {
    bool first = same(NA[0], SI), second = same(NA[1], SI);
    h_check(first || second, "the candidate's second half is the one whose norm was taken", 0);
    const cx *s1 = SI, *s0 = NA[first ? 1 : 0];
    const cx *b00 = B, *b01 = B + N, *b10 = B + 2 * N, *b11 = B + 3 * N;
    for (size_t i = 0; i < N; i++) {
      cx a = CF[i] * (b11[i] * b00[i] - b01[i] * b10[i]) - (double)Q * (Z0[i] * b00[i] + Z1[i] * b10[i]);
      cx b = -(double)Q * (Z0[i] * b01[i] + Z1[i] * b11[i]);
      h_feq(s0[i].real() * Q, a.real(), "s0 = c - z0 g - z1 G", 2 * i);
      h_feq(s0[i].imag() * Q, a.imag(), "s0 = c - z0 g - z1 G", 2 * i + 1);
      h_feq(s1[i].real() * Q, b.real(), "s1 = z0 f + z1 F", 2 * i);
      h_feq(s1[i].imag() * Q, b.imag(), "s1 = z0 f + z1 F", 2 * i + 1);
    }
  }
}
static void begin_attempt()
{
  if (att) end_attempt(false);
  att++;
  nnorm = nifft = 0;
  if (att > K) h_stop();
}
static void run(bool content)
{
  CONTENT = content;
  K = h_param("k", 2);
  LATE = h_param("late", 0);
  MLEN = h_mlen(5);
  size_t calls = h_param("calls", 1);
  cx* b = new (hk) cx[4 * N];
  T = new (hk) cx[(LG + 1) * N];
  for (size_t i = 0; i < 4 * N; i++) b[i] = content ? cv("br", "bi", i) : cx{ (double)(i % 97) - 40.0, (double)(i % 31) };
  B = b;
  SMIN = h_param("smin", 0) ? 1.5 : 1.25;
  const size_t mb = h_mbuf(MLEN);
  uint8_t* m = new (hk) uint8_t[mb];
  for (size_t i = 0; i < mb; i++) m[i] = (uint8_t)h_sym("msg", i, 8);
  MSG = m;
  prng::prng_t rng;
  RNG = &rng;
  uint8_t skip[64];
  size_t used = h_param("used", 0);
  rng.read(skip, used);
  BASE = used;
  for (call = 0; call < calls; call++) {
    att = nhash = nfft = 0;
    SIG = new (hk) uint8_t[SLEN];
    for (size_t i = 0; i < SLEN; i++) SIG[i] = (uint8_t)h_sym("old", call * SLEN + i, 8);
    signing::sign<N, BETA2, SLEN>(B, T, MSG, MLEN, SIG, SMIN, rng);
    h_check(att >= 1 && nhash == 1 && nfft == 1, "hashes once per signature", 0);
    end_attempt(true);
    h_check(SIG[0] == (0x30 | LG), "header byte", 0);
    for (size_t i = 0; i < 40; i++) h_check(SIG[1 + i] == saltbyte(i), "the signature carries the hashed salt", i);
    for (size_t i = 41; i < SLEN; i++) h_check(SIG[i] == (uint8_t)h_sym("cs", key() * 4096 + i, 8), "the signature carries the last compressed candidate", i);
    for (size_t i = 0; i < mb; i++) h_check(MSG[i] == (uint8_t)h_sym("msg", i, 8), "message unchanged", i);
    BASE += 40;
  }
}
H_ENTRY e_sign() { run(false); }
H_ENTRY e_content() { run(true); }
