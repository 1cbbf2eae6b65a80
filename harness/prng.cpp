// C27: seeding and delivery of the pseudo-random generator. The system random device returns the
// variables rd[0], rd[1], ... (32 bits each).
#include "h.hpp"
#include <cstdlib>
#include <cstring>
#include "prng.hpp"
using shake256::lg;
static bool seeded(size_t inst, const uint8_t*& p)
{
  size_t n = 0;
  for (size_t i = 0; i < lg.n; i++)
    if (lg.owner[i] == inst) n++, p = lg.ptr[i];
  return n == 1;
}
// natively: the number of device outputs used, the values every seed byte takes, and the rank over
// GF(2) of the differences of seeds
extern "C" uint64_t h_nat_reads();
static void native()
{
#ifndef FSE_SYMBOLIC
  static uint64_t v[701][4];
  static bool seen[32][256];
  size_t k = 700, rank = 0;
  for (size_t i = 0; i < 20000; i++) {
    uint64_t b = h_nat_reads();
    prng::prng_t* g = new prng::prng_t;
    h_check((h_nat_reads() - b) * 32 >= 256, "at least 256 bits of the device are used", i);
    bool ok = lg.n == 1 && lg.len[0] == 32;
    h_check(ok, "32-byte seed", i);
    if (!ok) return;
    for (size_t j = 0; j < 32; j++) seen[j][lg.ptr[0][j]] = true;
    if (i <= k) memcpy(v[i], lg.ptr[0], 32);
    delete[] lg.ptr[0];
    delete g;
    lg.n = 0;
  }
  for (size_t j = 0; j < 32; j++)
    for (size_t x = 0; x < 256; x++) h_check(seen[j][x], "every value of the seed byte occurs", j);
  for (size_t i = 1; i <= k; i++)
    for (int w = 0; w < 4; w++) v[i][w] ^= v[0][w];
  for (size_t bit = 0; bit < 256; bit++) {
    size_t r = 1 + rank;
    while (r <= k && !(v[r][bit / 64] >> (bit % 64) & 1)) r++;
    if (r > k) continue;
    for (int w = 0; w < 4; w++) std::swap(v[r][w], v[1 + rank][w]);
    for (size_t i = 1; i <= k; i++)
      if (i != 1 + rank && (v[i][bit / 64] >> (bit % 64) & 1))
        for (int w = 0; w < 4; w++) v[i][w] ^= v[1 + rank][w];
    rank++;
  }
  h_check(rank == 256, "every bit of the seed varies independently", rank);
#endif
}
// one generator: the seed, as a function of the device's output
H_ENTRY e_seed()
{
  if (!h_symbolic()) return native();
  size_t k = h_param("inst", 2);
  for (size_t i = 0; i < k; i++) {
    prng::prng_t* g = new prng::prng_t;
    (void)g;
  }
  h_check(lg.inst == k && lg.n == k && !lg.misuse, "each generator absorbs one seed", 0);
  for (size_t i = 0; i < lg.n && i < k; i++) {
    h_check(lg.len[i] == 32, "32-byte seed", i);
    if (lg.len[i] == 32)
      for (size_t j = 0; j < 32; j++) h_out("seed", i * 32 + j, lg.ptr[i][j]);
  }
}
// reads: the output stream of that instance in order, and nothing outside the buffer
H_ENTRY e_read()
{
  size_t cnt = h_param("cnt", 6);
  prng::prng_t a, b;
  size_t pos[2] = { 0, 0 };
  for (size_t i = 0; i < cnt; i++) {
    size_t n = h_choose("len", h_param("max", 4)), w = h_choose("which", 2);
    n = i == 2 ? n * 67 : n;
    uint8_t* p = new (hk) uint8_t[n];
    (w ? b : a).read(p, n);
    for (size_t j = 0; j < n; j++) h_check(p[j] == (uint8_t)h_sym("xof", ((uint64_t)w << 32) + pos[w] + j, 8), "bytes are the stream of the seed in order", i);
    pos[w] += n;
  }
  h_check(lg.n == 2 && !lg.misuse && lg.reads == pos[0] + pos[1], "nothing else is absorbed or read", 0);
}
H_ENTRY e_long()
{
  prng::prng_t a;
  size_t pos = 0;
  for (size_t n : { 1, 9, 40, 136, 137, 512, 1, 8, 300 }) {
    uint8_t* p = new (hk) uint8_t[n];
    a.read(p, n);
    for (size_t j = 0; j < n; j++) h_check(p[j] == (uint8_t)h_sym("xof", pos + j, 8), "bytes are the stream of the seed in order", pos + j);
    pos += n;
  }
}
