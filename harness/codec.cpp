// C06-C09: key and signature encodings
#include "h.hpp"
#include "decoding.hpp"
#include "encoding.hpp"
#include <cstdlib>
#include <cstring>
#ifndef DIM
#define DIM 512
#endif
static constexpr size_t N = DIM;
static constexpr uint32_t Q = 12289;
static constexpr size_t PK = N == 512 ? 897 : 1793;
static constexpr size_t SK = N == 512 ? 1281 : 2305;
static constexpr size_t SG = N == 512 ? 666 : 1280;
static constexpr size_t LOGN = N == 512 ? 9 : 10;
static constexpr int FGM = N == 512 ? 31 : 15;
static constexpr unsigned FGB = N == 512 ? 6 : 5;

// bit i (least significant first) of a byte string
static uint32_t lsb_bits(const uint8_t* p, size_t at, unsigned n)
{
  uint32_t r = 0;
  for (unsigned i = 0; i < n; i++) r |= (uint32_t)((p[(at + i) >> 3] >> ((at + i) & 7)) & 1) << i;
  return r;
}

H_ENTRY e_pk_encode()
{
  ff::ff_t* h = new (hk) ff::ff_t[N];
  uint8_t* pk = new (hk) uint8_t[PK];
  for (size_t i = 0; i < N; i++) h[i].v = (uint16_t)h_rng("h", i, 0, Q - 1);
  encoding::encode_pkey<N>(h, pk);
  h_check(pk[0] == LOGN, "public key header", 0);
  h_check(falcon_utils::compute_pkey_len<N>() == PK, "public key length", 0);
  for (size_t i = 0; i < N; i++) h_check(lsb_bits(pk + 1, 14 * i, 14) == (uint32_t)h_rng("h", i, 0, Q - 1), "public key bits", i);
  ff::ff_t* r = new (hk) ff::ff_t[N];
  bool ok = decoding::decode_pkey<N>(pk, r);
  h_check(ok, "encoded public key decodes", 0);
  if (ok)
    for (size_t i = 0; i < N; i++) h_check(r[i].v == (uint16_t)h_rng("h", i, 0, Q - 1), "public key round trip", i);
}
// arbitrary bytes; coefficients outside the window [w, w+n) are assumed to be below q
H_ENTRY e_pk_decode()
{
  uint8_t* pk = new (hk) uint8_t[PK];
  h_bytes("pk", pk, PK);
  ff::ff_t* h = new (hk) ff::ff_t[N];
  for (size_t i = 0; i < N; i++) h[i].v = (uint16_t)h_sym("old", i, 16);
  bool good = pk[0] == LOGN;
  for (size_t i = 0; i < N; i++) good = good & (lsb_bits(pk + 1, 14 * i, 14) < Q);
  bool ok = decoding::decode_pkey<N>(pk, h);
  if (ok) {
    h_cover("accepted");
    h_check(good, "accepted public key is canonical", 0);
    uint8_t* b = new (hk) uint8_t[PK];
    encoding::encode_pkey<N>(h, b);
    for (size_t i = 0; i < PK; i++) h_check(b[i] == pk[i], "re-encoded public key", i);
    for (size_t i = 0; i < N; i++) h_check(h[i].v == lsb_bits(pk + 1, 14 * i, 14), "decoded public key coefficient", i);
  } else {
    h_cover("rejected");
    h_check(!good, "rejected public key is not canonical", 0);
    uint16_t o = 0;
    for (size_t i = 0; i < N; i++) o |= h[i].v;
    h_check(o == 0, "rejected public key decodes to zero", 0);
  }
}
static int32_t fgsym(const char* n, size_t i) { return (int32_t)h_rng(n, i, -FGM, FGM); }
static int32_t Fsym(size_t i) { return (int32_t)h_rng("F", i, -127, 127); }
H_ENTRY e_sk_encode()
{
  int32_t *f = new (hk) int32_t[N], *g = new (hk) int32_t[N], *F = new (hk) int32_t[N];
  uint8_t* sk = new (hk) uint8_t[SK];
  for (size_t i = 0; i < N; i++) f[i] = fgsym("f", i), g[i] = fgsym("g", i), F[i] = Fsym(i);
  encoding::encode_skey<N>(f, g, F, sk);
  h_check(sk[0] == (0x50 | LOGN), "secret key header", 0);
  h_check(falcon_utils::compute_skey_len<N>() == SK, "secret key length", 0);
  for (size_t i = 0; i < N; i++) {
    h_check(lsb_bits(sk + 1, FGB * i, FGB) == ((uint32_t)fgsym("f", i) & ((1u << FGB) - 1)), "secret key bits of f", i);
    h_check(lsb_bits(sk + 1, FGB * (N + i), FGB) == ((uint32_t)fgsym("g", i) & ((1u << FGB) - 1)), "secret key bits of g", i);
    h_check(sk[1 + 2 * N * FGB / 8 + i] == (uint8_t)Fsym(i), "secret key bits of F", i);
  }
  int32_t *f2 = new (hk) int32_t[N], *g2 = new (hk) int32_t[N], *F2 = new (hk) int32_t[N];
  bool ok = decoding::decode_skey<N>(sk, f2, g2, F2);
  h_check(ok, "encoded secret key decodes", 0);
  if (ok)
    for (size_t i = 0; i < N; i++) {
      h_check(f2[i] == fgsym("f", i), "f round trip", i);
      h_check(g2[i] == fgsym("g", i), "g round trip", i);
      h_check(F2[i] == Fsym(i), "F round trip", i);
    }
}
H_ENTRY e_sk_decode()
{
  uint8_t* sk = new (hk) uint8_t[SK];
  h_bytes("sk", sk, SK);
  int32_t *f = new (hk) int32_t[N], *g = new (hk) int32_t[N], *F = new (hk) int32_t[N];
  for (size_t i = 0; i < N; i++) f[i] = (int32_t)h_sym("of", i, 32), g[i] = (int32_t)h_sym("og", i, 32), F[i] = (int32_t)h_sym("oF", i, 32);
  bool good = sk[0] == (0x50 | LOGN);
  for (size_t i = 0; i < 2 * N; i++) good = good & (lsb_bits(sk + 1, FGB * i, FGB) != (1u << (FGB - 1)));
  for (size_t i = 0; i < N; i++) good = good & (sk[1 + 2 * N * FGB / 8 + i] != 0x80);
  bool ok = decoding::decode_skey<N>(sk, f, g, F);
  if (ok) {
    h_cover("accepted");
    h_check(good, "accepted secret key is canonical", 0);
    uint8_t* b = new (hk) uint8_t[SK];
    encoding::encode_skey<N>(f, g, F, b);
    for (size_t i = 0; i < SK; i++) h_check(b[i] == sk[i], "re-encoded secret key", i);
    for (size_t i = 0; i < N; i++) {
      h_check(f[i] >= -FGM && f[i] <= FGM && g[i] >= -FGM && g[i] <= FGM && F[i] >= -127 && F[i] <= 127, "decoded ranges", i);
    }
  } else {
    h_cover("rejected");
    h_check(!good, "rejected secret key is not canonical", 0);
    int32_t o = 0;
    for (size_t i = 0; i < N; i++) o |= f[i] | g[i] | F[i];
    h_check(o == 0, "rejected secret key decodes to zero", 0);
  }
}

// ---- signature compression
static uint32_t lcg;
static uint32_t rnd() { lcg = lcg * 1664525u + 1013904223u; return lcg >> 8; }
// Coefficients: window [w, w+n) is symbolic in [-R, R]; elsewhere the low
// seven bits are symbolic, the sign and the number k of unary zeros follow a pattern.
static unsigned kpat(size_t i, uint64_t pat, uint64_t sum)
{
  switch (pat) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return rnd() % 3;             // random 0..2
    case 4: return i < sum ? 1 : 0;       // first `sum` coefficients carry one zero
    case 5: return i % 16 == 0 ? 9 : 0;   // long runs
    case 6: return i >= N - sum ? 1 : 0;
    default: return rnd() % 2;
  }
}
struct bits
{
  uint8_t b[4096];
  size_t n;
};
static void put(bits* s, uint32_t bit)
{
  s->b[s->n >> 3] = (uint8_t)(s->b[s->n >> 3] | (uint8_t)((bit & 1) << (7 - (s->n & 7))));
  s->n++;
}
static void spec_coeff(bits* s, int32_t c)
{
  uint32_t a = (uint32_t)(c < 0 ? -c : c);
  put(s, c < 0);
  for (int i = 6; i >= 0; i--) put(s, a >> i);
  uint32_t k = (uint32_t)h_conc(a >> 7);
  for (uint32_t i = 0; i < k; i++) put(s, 0);
  put(s, 1);
}
static int32_t* coeffs()
{
  uint64_t w = h_param("w", 0), n = h_param("n", 1), pat = h_param("pat", 0), sum = h_param("sum", 0), R = h_param("R", 5833);
  lcg = (uint32_t)h_param("seed", 1) * 2654435761u;
  int32_t* p = new (hk) int32_t[N];
  for (size_t i = 0; i < N; i++) {
    unsigned k = kpat(i, pat, sum);
    if (i >= w && i < w + n)
      p[i] = (int32_t)h_rng("s", i, -(int64_t)R, (int64_t)R);
    else {
      uint32_t sg = rnd() & 1;
      int32_t a = (int32_t)((128 * k) | (sg && !k ? (uint64_t)h_rng("lo", i, 1, 127) : h_sym("lo", i, 7)));
      p[i] = sg ? -a : a;
    }
  }
  return p;
}
static size_t nbits(const int32_t* p)
{
  size_t t = 0;
  for (size_t i = 0; i < N; i++) t += 9 + (size_t)h_conc((uint32_t)(p[i] < 0 ? -p[i] : p[i]) >> 7);
  return t;
}
H_ENTRY e_compress()
{
  int32_t* p = coeffs();
  uint8_t* sig = new (hk) uint8_t[SG];
  for (size_t i = 0; i < 41; i++) sig[i] = (uint8_t)h_sym("hd", i, 8);
  for (size_t i = 41; i < SG; i++) sig[i] = (uint8_t)h_sym("old", i, 8);
  int32_t* c = new (hk) int32_t[N];
  memcpy(c, p, 4 * N);
  bool ok = encoding::compress_sig<N, SG>(p, sig);
  size_t nb = nbits(p);
  bool fits = nb <= 8 * SG - 328;
  h_check(ok == fits, "compression succeeds exactly when the bits fit", 0);
  for (size_t i = 0; i < 41; i++) h_check(sig[i] == (uint8_t)h_sym("hd", i, 8), "header and salt untouched", i);
  if (!ok || !fits) { h_cover("too long"); return; }
  h_cover("fits");
  static bits s;
  memset(&s, 0, sizeof s);
  for (size_t i = 0; i < N; i++) spec_coeff(&s, c[i]);
  for (size_t i = 41; i < SG; i++) h_check(sig[i] == s.b[i - 41], "compressed byte", i);
  // a negative zero does not exist in p: the round trip is exact
  int32_t* r = new (hk) int32_t[N];
  bool dok = decoding::decompress_sig<N, SG>(sig, r);
  h_check(dok, "compressed signature decompresses", 0);
  if (dok)
    for (size_t i = 0; i < N; i++) h_check(r[i] == c[i], "compression round trip", i);
}

// ---- signature decompression
// Body: canonical encoding of a pattern polynomial with concrete low bits (from a
// generator), overlaid by a window of `n` symbolic bytes starting at byte `w` of the
// body (and, for param hd=1, a symbolic header and salt).
static uint32_t bitat(const uint8_t* b, size_t i) { return (uint32_t)(b[i >> 3] >> (7 - (i & 7))) & 1; }
// std::countl_zero without a branch
extern "C" int hk_clz(uint8_t t)
{
  uint32_t r = 8, u = t;
  for (uint32_t i = 0; i < 8; i++) {
    const uint32_t v = 7u - i, b = (u >> i) & 1u;
    r = b ? v : r;
  }
  return (int)r;
}
H_ENTRY e_decompress()
{
  uint64_t w = h_param("w", 0), n = h_param("n", 3), pat = h_param("pat", 3), sum = h_param("sum", 0), trunc = h_param("trunc", N);
  uint64_t s0 = h_param("s0", 0), sn = h_param("sn", 0); // coefficients with symbolic sign and low bits
  lcg = (uint32_t)h_param("seed", 1) * 2654435761u;
  static bits s;
  memset(&s, 0, sizeof s);
  constexpr size_t L = 8 * SG - 328;
  for (size_t i = 0; i < N && i < trunc; i++) {
    unsigned k = kpat(i, pat, sum);
    uint32_t lo = rnd() & 127, sg = rnd() & 1;
    if (lo == 0 && k == 0) sg = 0;
    if (i >= s0 && i < s0 + sn) lo = (uint32_t)h_sym("lo", i, 7), sg = h_param("nosg", 0) ? sg : (uint32_t)h_sym("sg", i, 1);
    put(&s, sg);
    for (int j = 6; j >= 0; j--) put(&s, lo >> j);
    for (unsigned j = 0; j < k; j++) put(&s, 0);
    put(&s, 1);
  }
  // h_param pad: all padding bits symbolic
  if (h_param("pad", 0))
    while (s.n < L) put(&s, (uint32_t)h_sym("pb", s.n, 1));
  uint8_t* sig = new (hk) uint8_t[SG];
  for (size_t i = 0; i < 41; i++) sig[i] = (uint8_t)h_sym("hd", i, 8);
  for (size_t i = 0; i < SG - 41; i++) sig[41 + i] = i >= w && i < w + n ? (uint8_t)h_sym("b", i, 8) : s.b[i];
  int32_t* r = new (hk) int32_t[N];
  for (size_t i = 0; i < N; i++) r[i] = 77;
  bool ok = decoding::decompress_sig<N, SG>(sig, r);
  // specification (algorithm 18), bit by bit
  int32_t* e = new (hk) int32_t[N];
  const uint8_t* body = sig + 41;
  size_t at = 0;
  bool good = true;
  for (size_t i = 0; i < N && good; i++) {
    if (at + 8 > L) { good = false; break; }
    uint32_t sg = bitat(body, at), a = 0;
    for (unsigned j = 1; j < 8; j++) a = 2 * a + bitat(body, at + j);
    at += 8;
    uint32_t k = 0;
    while (at < L && !bitat(body, at)) at++, k++;
    if (at >= L) { good = false; break; }
    at++;
    a += 128 * k;
    if (sg && a == 0) { good = false; break; }
    e[i] = sg ? -(int32_t)a : (int32_t)a;
  }
  uint32_t rest = 0;
  for (; good && at < L; at++) rest |= bitat(body, at);
  good &= rest == 0;
  h_check(ok == good, "decompression succeeds exactly on canonical bodies", 0);
  if (ok && good) {
    h_cover("accepted");
    for (size_t i = 0; i < N; i++) h_check(r[i] == e[i], "decompressed coefficient", i);
    uint8_t* o = new (hk) uint8_t[SG];
    bool cok = encoding::compress_sig<N, SG>(r, o);
    h_check(cok, "decompressed polynomial compresses", 0);
    for (size_t i = 41; cok && i < SG; i++) h_check(o[i] == sig[i], "re-compressed byte", i);
  } else {
    h_cover("rejected");
    int32_t o = 0;
    for (size_t i = 0; i < N; i++) o |= r[i];
    h_check(o == 0, "rejected signature decompresses to zero", 0);
  }
}
// signature decoding: header, salt, failure
H_ENTRY e_decode_sig()
{
  lcg = (uint32_t)h_param("seed", 1) * 2654435761u;
  uint64_t bad = h_param("bad", 0);
  static bits s;
  memset(&s, 0, sizeof s);
  for (size_t i = 0; i < N; i++) {
    uint32_t lo = 1 + rnd() % 127, sg = rnd() & 1;
    put(&s, sg);
    for (int j = 6; j >= 0; j--) put(&s, lo >> j);
    put(&s, bad && i == N - 1 ? 0 : 1);
  }
  uint8_t* sig = new (hk) uint8_t[SG];
  for (size_t i = 0; i < 41; i++) sig[i] = (uint8_t)h_sym("hd", i, 8);
  for (size_t i = 0; i < SG - 41; i++) sig[41 + i] = s.b[i];
  uint8_t* salt = new (hk) uint8_t[40];
  for (size_t i = 0; i < 40; i++) salt[i] = (uint8_t)h_sym("oldsalt", i, 8);
  int32_t *r = new (hk) int32_t[N], *e = new (hk) int32_t[N];
  bool ok = decoding::decode_sig<N>(sig, salt, r);
  bool dec = decoding::decompress_sig<N, SG>(sig, e);
  h_check(ok == (sig[0] == (0x30 | LOGN) && dec), "signature decoding depends on header and body", 0);
  h_check(dec == !bad, "body", 0);
  if (ok) {
    h_cover("accepted");
    for (size_t i = 0; i < 40; i++) h_check(salt[i] == (uint8_t)h_sym("hd", 1 + i, 8), "salt", i);
    for (size_t i = 0; dec && i < N; i++) h_check(r[i] == e[i], "decoded coefficient", i);
  } else
    h_cover("rejected");
}
