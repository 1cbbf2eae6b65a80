// C11, C10: verification. Signature decoding (C09) and hashing (C12) are stand-ins that return
// arbitrary polynomials.
#include "h.hpp"
#include <cstdlib>
#include <cstring>
#include <new>
#include "decoding.hpp"
#include "hashing.hpp"
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM, LG = N == 512 ? 9 : 10;
static constexpr int64_t Q = 12289, B2 = N == 512 ? 34034726 : 70265242;
static constexpr int64_t RAD = N == 512 ? 5833 : 8382; // floor(sqrt(B2))

static int32_t S2[N];
static uint16_t C[N], H[N];
static bool DEC;
static uint8_t SALT[40];
static const uint8_t *SIG, *MSG;
static size_t MLEN, ndec, nhash;

#ifndef REALDEC
namespace decoding {
template<>
inline bool decode_sig<N>(const uint8_t* const __restrict sig, uint8_t* const __restrict salt, int32_t* const __restrict s2)
{
  ndec++;
  h_check(sig == SIG, "decodes the given signature", 0);
  for (size_t i = 0; i < 40; i++) salt[i] = SALT[i];
  if (DEC || h_param("half", 0))
    for (size_t i = 0; i < N; i++) s2[i] = S2[i];
  return DEC;
}
}
#endif
namespace hashing {
template<>
inline void hash_to_point<N>(const uint8_t* const __restrict salt, const size_t slen, const uint8_t* const __restrict msg, const size_t mlen,
                             ff::ff_t* const __restrict poly)
{
  nhash++;
  h_check(slen == 40 && mlen == MLEN && msg == MSG, "hashes the salt and the given message", 0);
  for (size_t i = 0; i < 40; i++) h_check(salt[i] == SALT[i], "salt of the signature", i);
  for (size_t i = 0; i < N; i++) poly[i].v = C[i];
}
}
#include "verification.hpp"

static int64_t isq(int64_t v)
{
  int64_t r = (int64_t)__builtin_sqrt((double)v);
  while (r * r > v) r--;
  while ((r + 1) * (r + 1) <= v) r++;
  return r;
}
// concrete runs: s1 and s2 chosen so that the norm is at the bound, then c = s1 + s2*h
static void concrete_inputs(int64_t wide)
{
  static int64_t s1[N], t[2 * N];
  static bool fix1[N];
  uint64_t mode = h_sym("mode", 0, 4);
  for (size_t i = 0; i < N; i++) {
    int64_t small = (int64_t)(h_sym("n1", i, 8) % 201) - 100;
    s1[i] = small;
    if (mode & 1 && h_sym("p1", i, 8) == 0) s1[i] = h_rng("x1", i, -6144, 6144);
    H[i] = h_zq("h", i);
    int64_t v = h_rng("s2", i, -RAD, RAD);
    if (mode & 8 || h_sym("p2", i, 6)) S2[i] = (int32_t)((int64_t)(h_sym("n2", i, 8) % 201) - 100);
    else S2[i] = (int32_t)(v % (mode & 4 ? 2048 : 1024));
  }
  // values named by a counterexample
  for (size_t i = 0; i < N; i++) {
    bool m = h_sym("model", 0, 16) == 7, k = m && h_sym("set1", i, 1), l = m && h_sym("set2", i, 1);
    if (k) s1[i] = h_rng("s1", i, -6144, 6144), fix1[i] = true;
    if (l) S2[i] = (int32_t)h_rng("s2", i, -RAD, RAD);
  }
  uint64_t wi = h_param("wi", N);
  if (wi < N) S2[wi] = (int32_t)h_rng("wide", 0, -wide, wide);
  // drop values until below the bound, then fill up to bound + d
  int64_t n = 0, d = (int64_t)(h_sym("d", 0, 8) % 3) - 1;
  for (size_t i = 0; i < N; i++) n += s1[i] * s1[i] + (int64_t)S2[i] * S2[i];
  for (size_t i = 0; i < N && n > B2 + d; i++) {
    if (fix1[i]) continue;
    n -= s1[i] * s1[i] + (int64_t)S2[i] * S2[i];
    s1[i] = S2[i] = 0;
  }
  bool on2 = h_sym("on2", 0, 1), neg = h_sym("neg", 0, 1);
  if (mode != 6)
    for (size_t i = 0; i < N && n < B2 + d; i++) {
      size_t j = (i * 37 + h_sym("at", 0, 9)) % N;
      if (fix1[j] || j == wi) continue;
      int64_t rest = B2 + d - n + s1[j] * s1[j];
      int64_t v = isq(rest), cap = on2 ? RAD : 6144;
      if (on2) rest = B2 + d - n + (int64_t)S2[j] * S2[j], v = isq(rest);
      if (v > cap) v = cap;
      if (neg) v = -v;
      if (on2) n += v * v - (int64_t)S2[j] * S2[j], S2[j] = (int32_t)v;
      else n += v * v - s1[j] * s1[j], s1[j] = v;
    }
  for (size_t i = 0; i < N; i++)
    for (size_t j = 0; j < N; j++) t[i + j] = (t[i + j] + (int64_t)S2[i] * H[j]) % Q;
  for (size_t i = 0; i < N; i++) C[i] = (uint16_t)((((s1[i] + t[i] - t[i + N]) % Q) + Q) % Q);
}
static bool spec(int64_t* out = nullptr)
{
  // s1 = c - s2*h, centred
  static ff::ff_t a[N], b[N], c[N], p[N];
  int64_t n = 0;
  if (h_symbolic()) {
    for (size_t i = 0; i < N; i++) {
      a[i].v = (uint16_t)((S2[i] < 0) * Q + S2[i]);
      b[i].v = H[i];
      c[i].v = C[i];
    }
    ntt::ntt<LG>(a);
    ntt::ntt<LG>(b);
    ntt::ntt<LG>(c);
    for (size_t i = 0; i < N; i++) p[i] = -(a[i] * b[i]) + c[i];
    ntt::intt<LG>(p);
  } else {
    static int64_t t[2 * N];
    memset(t, 0, sizeof t);
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++) t[i + j] = (t[i + j] + (int64_t)S2[i] * H[j]) % Q;
    for (size_t i = 0; i < N; i++) p[i].v = (uint16_t)((((C[i] - t[i] + t[i + N]) % Q) + Q) % Q);
  }
  for (size_t i = 0; i < N; i++) n += (int64_t)S2[i] * S2[i];
  for (size_t i = 0; i < N; i++) {
    h_out("s1", i, p[i].v);
    int32_t z = (int32_t)p[i].v - (p[i].v > 6144) * (int32_t)Q;
    n += (int64_t)z * z;
  }
  if (out) *out = n;
  return n <= B2;
}
static void common(int64_t R)
{
  MLEN = h_mlen(3);
  uint8_t* sig = new (hk) uint8_t[N == 512 ? 666 : 1280];
  uint8_t* msg = new (hk) uint8_t[h_mbuf(MLEN)];
  SIG = sig;
  MSG = msg;
  for (size_t i = 0; i < 40; i++) SALT[i] = (uint8_t)h_sym("salt", i, 8);
  DEC = h_param("dec", 1);
  if (h_symbolic())
    for (size_t i = 0; i < N; i++) {
      S2[i] = (int32_t)h_rng("s2", i, -R, R);
      C[i] = h_zq("c", i);
      H[i] = h_zq("h", i);
    }
  else
    concrete_inputs(RAD + 1 + 60000);
  ff::ff_t* h = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) h[i].v = H[i];
  bool r = verification::verify<N, (int32_t)B2>(h, msg, MLEN, sig);
  h_check(ndec == 1 && (!DEC || nhash == 1), "decodes and hashes once", 0);
  if (!DEC) {
    h_check(!r, "undecodable signature is rejected", 0);
    return;
  }
  bool s = spec();
  h_check(r == s, "accepted exactly when the vector is short", 0);
  for (size_t i = 0; i < N; i++) h_check(h[i].v == H[i], "public polynomial unchanged", i);
}
// all coefficients of s2 within the radius of the bound
H_ENTRY e_verify() { common(RAD); }
// one coefficient of s2 beyond the radius: always rejected
H_ENTRY e_large()
{
  if (!h_symbolic()) { common(RAD); return; }
  MLEN = 0;
  DEC = true;
  SIG = new (hk) uint8_t[8];
  MSG = new (hk) uint8_t[1];
  size_t wi = h_param("wi", 0);
  for (size_t i = 0; i < N; i++) {
    S2[i] = (int32_t)h_rng("s2", i, -60000, 60000);
    C[i] = h_zq("c", i);
  }
  bool neg = h_param("neg", 0);
  S2[wi] = neg ? (int32_t)h_rng("wide", 0, -60000, -RAD - 1) : (int32_t)h_rng("wide", 0, RAD + 1, 60000);
  ff::ff_t* h = new (hk) ff::ff_t[N];
  bool r = verification::verify<N, (int32_t)B2>(h, MSG, 0, SIG);
  h_check(!r, "a coefficient beyond the radius is rejected", 0);
}
// stand-ins for the transforms: arbitrary canonical values
extern "C" void hk_ntt(ff::ff_t* p)
{
  static uint64_t k = 0;
  for (size_t i = 0; i < N; i++) p[i].v = h_zq("t", k++);
}
