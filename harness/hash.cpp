// C12: hash-to-point
#include "h.hpp"
#include "hashing.hpp"
#include <cstring>
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM;
static constexpr uint32_t Q = 12289, LIM = 5 * Q;
static uint64_t W0, WN, PAT;
// 16-bit word k of the output stream: arbitrary inside the window, accepted outside it unless
// the pattern rejects it
static bool rejected(uint64_t k)
{
  switch (PAT) {
    case 1: return k % 2 == 0;
    case 2: return k % 68 >= 34 && k < 300;
    case 3: return k < 140;
    case 4: return (k * 2654435761u >> 13) % 16 == 0;
    case 5: return k < 3000;
    default: return false;
  }
}
static uint16_t word(uint64_t k)
{
  if (k >= W0 && k < W0 + WN) {
    if (!h_symbolic() && h_sym("near", k, 2)) return (uint16_t)(LIM - 2 + h_sym("wd", k, 2));
    return (uint16_t)h_sym("w", k, 16);
  }
  return rejected(k) ? (uint16_t)h_rng("r", k, LIM, 65535) : (uint16_t)h_rng("v", k, 0, LIM - 1);
}
static uint8_t stream(uint64_t, uint64_t pos)
{
  uint16_t w = word(pos / 2);
  return pos & 1 ? (uint8_t)w : (uint8_t)(w >> 8);
}
H_ENTRY e_hash()
{
  W0 = h_param("w", 0), WN = h_param("n", 0), PAT = h_param("pat", 0);
  size_t mlen = h_param("mlen", 0), slen = h_param("slen", 40);
  uint8_t *salt = new (hk) uint8_t[slen], *msg = new (hk) uint8_t[mlen];
  h_bytes("salt", salt, slen);
  h_bytes("msg", msg, mlen);
  ff::ff_t* p = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) p[i].v = (uint16_t)h_sym("old", i, 16);
  shake256::stream = stream;
  hashing::hash_to_point<N>(salt, slen, msg, mlen, p);
  // what was absorbed, in order
  auto& lg = shake256::lg;
  size_t tot = 0;
  h_check(lg.inst == 1, "one hash instance", 0);
  h_check(lg.misuse == 0, "absorb, finalize, read in order", 0);
  h_check(lg.n < 64, "absorb calls", 0);
  for (size_t k = 0; k < lg.n; k++)
    for (size_t i = 0; i < lg.len[k]; i++, tot++)
      h_check(tot < slen + mlen && lg.ptr[k][i] == (tot < slen ? (uint8_t)h_sym("salt", tot, 8) : (uint8_t)h_sym("msg", tot - slen, 8)),
              "absorbed byte", tot);
  h_check(tot == slen + mlen, "absorbed length", 0);
  size_t i = 0;
  for (uint64_t k = 0; i < N; k++) {
    uint16_t w = word(k);
    if (w >= LIM) continue;
    ff::ff_t x{ w };
    h_check(p[i].v == x.v, "coefficient", i);
    if (!h_symbolic()) h_check(p[i].v == w % Q, "coefficient", i);
    i++;
  }
  for (size_t k = 0; k < slen; k++) h_check(salt[k] == (uint8_t)h_sym("salt", k, 8), "salt unchanged", k);
  for (size_t k = 0; k < mlen; k++) h_check(msg[k] == (uint8_t)h_sym("msg", k, 8), "message unchanged", k);
}
// any message length: what is absorbed covers the salt, then the message, without a gap
#ifndef FSE_SYMBOLIC
#include <sys/mman.h>
#endif
H_ENTRY e_len()
{
  size_t mlen = (size_t)h_rng("mlen", 0, 0, 1ll << 33);
  uint8_t salt[40], *msg;
  for (size_t i = 0; i < 40; i++) salt[i] = (uint8_t)h_sym("salt", i, 8);
#ifdef FSE_SYMBOLIC
  msg = new (hk) uint8_t[16];
  shake256::alias = true;
#else
  if (h_sym("random", 0, 32)) mlen &= 0xfffff; // a random run, not a counterexample
  msg = (uint8_t*)mmap(nullptr, mlen + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (msg == MAP_FAILED) return;
  shake256::alias = mlen > 0xfffff;
#endif
  ff::ff_t* p = new (hk) ff::ff_t[N];
  shake256::stream = stream;
  hashing::hash_to_point<N>(salt, 40, msg, mlen, p);
  auto& lg = shake256::lg;
  size_t tot = 0;
  for (size_t k = 0; k < lg.n && k < 64; k++) {
#ifdef FSE_SYMBOLIC
    h_check(lg.len[k] == 0 || (tot < 40 ? lg.ptr[k] == salt + tot && lg.len[k] <= 40 - tot : lg.ptr[k] == msg + (tot - 40)), "absorbed piece", k);
#endif
    tot += lg.len[k];
  }
  h_check(tot == 40 + mlen && lg.n < 64 && lg.inst == 1, "absorbed length", 0);
}
// reduction of an accepted word
H_ENTRY e_word()
{
  uint16_t w = (uint16_t)h_rng("v", 0, 0, LIM - 1);
  h_check(ff::ff_t{ w }.v == w % Q, "word modulo q", 0);
}
