// C21-C24, C28: 72-bit integers, base sampler, fixed-point exponential, Bernoulli and
// integer samplers
#include "h.hpp"
#include "samplerz.hpp"
#include <cstring>
typedef unsigned __int128 u128;
using u72::u72_t;
static u72_t usym(const char* n) { return u72_t(h_sym(n, 1, 8), h_sym(n, 0, 64)); }
static u128 val(const u72_t& a) { return ((u128)a.hi << 64) | a.lo; }
static u128 vsym(const char* n) { return ((u128)h_sym(n, 1, 8) << 64) | h_sym(n, 0, 64); }
static const u128 M72 = ((u128)1 << 72) - 1;

H_ENTRY e_u72_add()
{
  u72_t a = usym("a"), b = usym("b"), c = a + b;
  h_check(val(c) == ((vsym("a") + vsym("b")) & M72), "72-bit addition", 0);
  h_check(c.hi < 256, "addition keeps the high part below 256", 0);
  h_check(val(a) == vsym("a") && val(b) == vsym("b"), "operands unchanged", 0);
}
H_ENTRY e_u72_sub()
{
  u72_t a = usym("a"), b = usym("b"), c = a - b, d = -a;
  h_check(val(c) == ((vsym("a") - vsym("b")) & M72), "72-bit subtraction", 0);
  h_check(c.hi < 256 && d.hi < 256, "subtraction keeps the high part below 256", 0);
  h_check(val(d) == (((u128)0 - vsym("a")) & M72), "72-bit negation", 0);
  h_check(val(u72_t::zero()) == 0, "zero", 0);
}
H_ENTRY e_u72_cmp()
{
  u72_t a = usym("a"), b = usym("b");
  h_check((a > b) == (vsym("a") > vsym("b")), "72-bit greater-than", 0);
  h_check((a < b) == (vsym("a") < vsym("b")), "72-bit less-than", 0);
}
H_ENTRY e_u72_bytes()
{
  std::array<uint8_t, 9> x;
  for (size_t i = 0; i < 9; i++) x[i] = (uint8_t)h_sym("x", i, 8);
  u128 le = 0, be = 0;
  for (size_t i = 0; i < 9; i++) le |= (u128)h_sym("x", i, 8) << (8 * i), be |= (u128)h_sym("x", i, 8) << (8 * (8 - i));
  auto p = x, q = x;
  u72_t a = u72_t::from_le_bytes(std::move(p)), b = u72_t::from_be_bytes(std::move(q));
  h_check(val(a) == le, "from little-endian bytes", 0);
  h_check(val(b) == be, "from big-endian bytes", 0);
  auto r = a.to_le_bytes(), s = b.to_be_bytes(), t = a.to_be_bytes(), v = b.to_le_bytes();
  for (size_t i = 0; i < 9; i++) {
    h_check(r[i] == (uint8_t)h_sym("x", i, 8), "little-endian round trip", i);
    h_check(s[i] == (uint8_t)h_sym("x", i, 8), "big-endian round trip", i);
    h_check(t[i] == (uint8_t)h_sym("x", 8 - i, 8), "to big-endian bytes", i);
    h_check(v[i] == (uint8_t)h_sym("x", 8 - i, 8), "to little-endian bytes", i);
  }
  u72_t c = usym("c");
  auto e = c.to_le_bytes(), f = c.to_be_bytes();
  h_check(val(u72_t::from_le_bytes(std::move(e))) == vsym("c"), "bytes to number, little-endian", 0);
  h_check(val(u72_t::from_be_bytes(std::move(f))) == vsym("c"), "bytes to number, big-endian", 0);
}

// ---- base sampler: the 18 thresholds of table 3.1 (reverse cumulative distribution, times 2^72)
static u128 dec(const char* s)
{
  u128 v = 0;
  for (; *s; s++) v = v * 10 + (u128)(*s - '0');
  return v;
}
static uint32_t spec_base(u128 u)
{
  static const char* const T[18] = {
    "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903",
    "8595902006365044063", "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299",
    "638331848991", "14602316184", "247426747", "3104126", "28824", "198", "1"
  };
  uint32_t z = 0;
  for (int i = 0; i < 18; i++) z += u < dec(T[i]);
  return z;
}
H_ENTRY e_base()
{
  std::array<uint8_t, 9> x;
  u128 u = 0;
  for (size_t i = 0; i < 9; i++) x[i] = (uint8_t)h_sym("xof", i, 8), u |= (u128)h_sym("xof", i, 8) << (8 * i);
  if (!h_symbolic()) { // concrete runs: stay near a threshold
    uint64_t k = h_sym("near", 0, 8);
    if (k < 36) {
      static const u128 T[] = { 1, 198, 28824 };
      u = (T[k % 3] + (k & 8 ? 0 : (u128)0 - 1)) & M72;
      for (size_t i = 0; i < 9; i++) x[i] = (uint8_t)(u >> (8 * i));
    }
  }
  uint32_t z = samplerz::base_sampler(std::move(x));
  h_check(z <= 18, "base sample range", 0);
  h_check(z == spec_base(u), "base sampler table lookup", 0);
}
H_ENTRY e_base_rng()
{
  prng::prng_t rng;
  uint32_t z = samplerz::base_sampler(rng);
  u128 u = 0;
  for (size_t i = 0; i < 9; i++) u |= (u128)h_sym("xof", i, 8) << (8 * i);
  h_check(z == spec_base(u), "base sampler (generator) table lookup", 0);
  h_check(shake256::lg.reads == 9, "base sampler draws nine bytes", 0);
  uint8_t n;
  rng.read(&n, 1);
  h_check(n == (uint8_t)h_sym("xof", 9, 8), "next byte of the generator", 0);
}

// ---- 64 x 64 -> 128 multiplication and the fixed-point exponential
H_ENTRY e_mul()
{
  uint64_t a = h_sym("a", 1, 32) << 32 | h_sym("a", 0, 32), b = h_sym("b", 1, 32) << 32 | h_sym("b", 0, 32);
  auto r = samplerz::full_mul_u64(a, b);
  u128 p = (u128)a * b;
  h_check(r.second == (uint64_t)p, "low half of the product", 0);
  h_check(r.first == (uint64_t)(p >> 64), "high half of the product", 0);
}
H_ENTRY e_top63()
{
  uint64_t a = h_sym("a", 0, 62), b = h_sym("b", 0, 64);
  h_check(samplerz::top_63_bits({ a, b }) == (uint64_t)((((u128)a << 64) | b) >> 63), "top 63 bits", 0);
}
// summary used in place of full_mul_u64 while the exponential is executed symbolically
extern "C" std::pair<uint64_t, uint64_t> hk_mul(const uint64_t a, const uint64_t b)
{
  u128 p = (u128)a * b;
  return { (uint64_t)(p >> 64), (uint64_t)p };
}
static const uint64_t SC[13] = { 0x00000004741183A3ull, 0x00000036548CFC06ull, 0x0000024FDCBF140Aull, 0x0000171D939DE045ull,
                                 0x0000D00CF58F6F84ull, 0x000680681CF796E3ull, 0x002D82D8305B0FEAull, 0x011111110E066FD0ull,
                                 0x0555555555070F00ull, 0x155555555581FF00ull, 0x400000000002B400ull, 0x7FFFFFFFFFFF4800ull,
                                 0x8000000000000000ull };
static uint64_t step(uint64_t z, uint64_t y) { return (uint64_t)(((u128)z * y) >> 63) & 0x7fffffffffffffffull; }
H_ENTRY e_exp()
{
  double x = h_funi("x", 0, 0, 0x1.fffffffffffffp-1), ccs = h_funi("ccs", 0, 0, 0x1.fffffffffffffp-1);
  uint64_t z = (uint64_t)std::floor(0x1p63 * x), y = SC[0];
  for (int u = 1; u < 13; u++) y = SC[u] - step(z, y);
  uint64_t w = (uint64_t)std::floor(0x1p63 * ccs);
  uint64_t r = samplerz::approx_exp(x, ccs);
  h_check(r == step(w, y), "fixed-point exponential", 0);
}
// no step of the evaluation exceeds 63 + 1 bits: y <= C[u], so the product is below 2^126
H_ENTRY e_exp_step()
{
  uint64_t u = h_param("u", 1);
  uint64_t z = h_sym("z", 0, 63), y = h_sym("y", 0, 64);
  h_assume(y <= SC[u - 1]);
  u128 p = (u128)z * y;
  h_check((p >> 126) == 0, "product below 2^126", 0);
  h_check((uint64_t)(p >> 63) <= SC[u - 1] && SC[u - 1] < SC[u], "step does not go negative", 0);
}

// ---- Bernoulli sampler
static const double LN2 = 0.69314718055994530942, SIGMAX = 1.8205;
static uint64_t nexp;
static double exp_r, exp_c;
extern "C" uint64_t hk_exp(const double r, const double ccs)
{
  exp_r = r;
  exp_c = ccs;
  nexp++;
  return h_sym("E", 0, 63);
}
static uint64_t expo(double r, double ccs) { return h_symbolic() ? h_sym("E", 0, 63) : samplerz::approx_exp(r, ccs); }
// x lies strictly between s*ln2 and (s+1)*ln2 (all but a few floating-point neighbours)
static double xwin(double s)
{
  double lo = s == 0 ? 0x1p-60 : s * LN2 * (1 + 0x1p-50), hi = (s + 1) * LN2 * (1 - 0x1p-50);
  return h_funi("x", 0, lo, hi);
}
static uint8_t byte_at(uint64_t i, uint64_t z)
{
  // concrete runs: most bytes agree with the threshold
  if (!h_symbolic() && h_sym("eq", i, 3) != 0) return (uint8_t)(z >> (56 - 8 * i));
  return (uint8_t)h_sym("b", i, 8);
}
static uint64_t zthr;
static uint8_t ber_stream(uint64_t, uint64_t pos) { return pos < 8 ? byte_at(pos, zthr) : (uint8_t)h_sym("b", pos, 8); }
static void ber_spec(uint64_t z, size_t avail, uint8_t* bit, size_t* used)
{
  size_t i = 0;
  int w = 0;
  while (i < 8 && i < avail) {
    uint8_t t = byte_at(i, z), zb = (uint8_t)(z >> (56 - 8 * i));
    i++;
    w = (int)t - (int)zb;
    if (w) break;
  }
  *bit = w < 0;
  *used = i;
}
H_ENTRY e_ber_rng()
{
  double s = (double)h_param("s", 0), x = xwin(s), ccs = h_funi("ccs", 0, 0.5, 0x1.fffffffffffffp-1);
  double rr = x - s * LN2;
  uint64_t sh = s > 63 ? 63 : (uint64_t)s;
  uint64_t z = (2 * expo(rr < 0 ? 0 : rr, ccs) - 1) >> sh;
  zthr = z;
  shake256::stream = ber_stream;
  prng::prng_t rng;
  uint8_t got = samplerz::ber_exp(x, ccs, rng), want;
  size_t used;
  ber_spec(z, 8, &want, &used);
  h_check(got == want, "Bernoulli decision", 0);
  h_check(shake256::lg.reads == used, "bytes consumed", 0);
  if (h_symbolic()) {
    h_check(nexp == 1, "one exponential", 0);
    h_feq(exp_c, ccs, "scale passed to the exponential", 0);
    h_feq(exp_r, x - s * LN2, "remainder passed to the exponential", 0);
    h_check(exp_r >= 0, "remainder not negative", 0);
    h_check(exp_r <= LN2, "remainder at most ln 2", 0);
  }
}
H_ENTRY e_ber_buf()
{
  double s = (double)h_param("s", 0), x = xwin(s), ccs = h_funi("ccs", 0, 0.5, 0x1.fffffffffffffp-1);
  double rr = x - s * LN2;
  uint64_t sh = s > 63 ? 63 : (uint64_t)s;
  uint64_t z = (2 * expo(rr < 0 ? 0 : rr, ccs) - 1) >> sh;
  size_t len = h_param("len", 8);
  uint8_t* b = new (hk) uint8_t[len];
  for (size_t i = 0; i < len; i++) b[i] = i < 8 ? byte_at(i, z) : (uint8_t)h_sym("b", i, 8);
  auto [got, n] = samplerz::ber_exp(x, ccs, b, len);
  uint8_t want;
  size_t used;
  ber_spec(z, len, &want, &used);
  h_check(got == want, "Bernoulli decision (buffer)", 0);
  h_check(n == used, "bytes consumed (buffer)", 0);
  if (h_symbolic()) {
    h_feq(exp_c, ccs, "scale passed to the exponential", 0);
    h_feq(exp_r, x - s * LN2, "remainder passed to the exponential", 0);
    h_check(exp_r >= 0 && exp_r <= LN2, "remainder in [0, ln 2]", 0);
  }
}
// x within rounding distance of s*ln2: the quotient may be s or s-1
H_ENTRY e_ber_gap()
{
  double s = (double)h_param("s", 1);
  double x = h_funi("x", 0, s * LN2 * (1 - 0x1p-50), s * LN2 * (1 + 0x1p-50)), ccs = h_funi("ccs", 0, 0.5, 0x1.fffffffffffffp-1);
  if (!h_symbolic()) { // concrete runs: the remainder is below the first threshold byte, so x decides the bit
    prng::prng_t rng;
    uint8_t got = samplerz::ber_exp(x, ccs, rng);
    h_check(got <= 1 && shake256::lg.reads >= 1 && shake256::lg.reads <= 8, "one to eight bytes", 0);
    return;
  }
  uint8_t b[8];
  for (size_t i = 0; i < 8; i++) b[i] = (uint8_t)h_sym("b", i, 8);
  prng::prng_t rng;
  if (h_param("buf", 0)) samplerz::ber_exp(x, ccs, b, 8);
  else samplerz::ber_exp(x, ccs, rng);
  h_check(nexp == 1, "one exponential", 0);
  h_check(exp_r >= 0, "remainder not negative", 0);
  h_check(exp_r <= LN2 * (1 + 0x1p-40), "remainder at most ln 2 up to rounding", 0);
}

// ---- integer sampler
static uint64_t nber, nbase;
static double ber_x[520], ber_c[520];
static uint64_t acc_at; // the attempt that is accepted
static uint64_t zc[520], bc[520];
extern "C" uint8_t hk_ber(const double x, const double ccs, prng::prng_t& rng)
{
  ber_x[nber] = x;
  ber_c[nber] = ccs;
  uint8_t t;
  rng.read(&t, 1); // one byte per trial
  return nber++ == acc_at;
}
extern "C" std::pair<uint8_t, size_t> hk_ber_buf(const double x, const double ccs, const uint8_t* const, const size_t)
{
  ber_x[nber] = x;
  ber_c[nber] = ccs;
  return { nber++ == acc_at, 1 };
}
extern "C" uint32_t hk_base(std::array<uint8_t, 9>&& by)
{
  for (size_t i = 0; i < 9; i++)
    h_check(by[i] == (uint8_t)h_sym("xof", 11 * nbase + 8 - i, 8), "bytes of the base sample (buffer)", i);
  return (uint32_t)zc[nbase++];
}
extern "C" uint32_t hk_base_rng(prng::prng_t& rng)
{
  uint8_t by[9];
  rng.read(by, 9);
  for (size_t i = 0; i < 9; i++) h_check(by[i] == (uint8_t)h_sym("xof", 11 * nbase + i, 8), "bytes of the base sample", i);
  return (uint32_t)zc[nbase++];
}
static uint8_t z_stream(uint64_t, uint64_t pos)
{
  uint8_t v = (uint8_t)h_sym("xof", pos, 8);
  if (pos % 11 == 9) v = (uint8_t)((h_sym("hi", pos, 7) << 1) | bc[pos / 11]);
  return v;
}
// concrete runs: a byte string built so that each Bernoulli trial is decided by a byte next to
// the specified threshold
static uint8_t zs[16384];
static size_t zlen;
static uint8_t zs_stream(uint64_t, uint64_t pos) { return pos < zlen ? zs[pos] : 0; }
static uint64_t spec_thr(double x, double ccs)
{
  if (x < 0) x = 0; // a rounding error: no negative exponent
  double s = std::floor(x / LN2), r = x - s * LN2;
  uint64_t z = (uint64_t)std::floor(0x1p63 * (r < 0 ? 0 : r)), y = SC[0];
  for (int u = 1; u < 13; u++) y = SC[u] - step(z, y);
  y = step((uint64_t)std::floor(0x1p63 * ccs), y);
  return (2 * y - 1) >> (s > 63 ? 63 : (int)s);
}
static void z_native(bool buf, double mu, double sp, double sm, int64_t k)
{
  static const char* const T[19] = {
    "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903",
    "8595902006365044063", "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299",
    "638331848991", "14602316184", "247426747", "3104126", "28824", "198", "1", "0"
  };
  size_t n = 0;
  for (size_t a = 0; a <= acc_at; a++) {
    u128 u = dec(T[zc[a]]);
    for (size_t i = 0; i < 9; i++) zs[n + (buf ? 8 - i : i)] = (uint8_t)(u >> (8 * i));
    n += 9;
    zs[n++] = (uint8_t)(h_sym("hi", a, 7) << 1 | bc[a]);
    double z0 = (double)zc[a], d = (bc[a] ? 1 + z0 : -z0) - (mu - (double)k);
    double x = d * d / (2 * sp * sp) - z0 * z0 / (2 * SIGMAX * SIGMAX), eps = 0x1p-44 * (1 + std::fabs(x));
    uint64_t t = spec_thr(x, sm / sp), tl = spec_thr(x + eps, sm / sp * (1 - 0x1p-44)), th = spec_thr(x - eps, sm / sp * (1 + 0x1p-44));
    size_t p = (h_sym("pos", a, 8) + 3) % 5, i = 0;
    for (size_t l = 0; l < 7 && !(uint8_t)(t >> (56 - 8 * l)); l++) p++;
    for (; i < 8; i++) {
      uint8_t tb = (uint8_t)(t >> (56 - 8 * i));
      // a byte that another order of rounding could change decides nothing
      if ((uint8_t)(tl >> (56 - 8 * i)) != tb || (uint8_t)(th >> (56 - 8 * i)) != tb) return;
      bool last = i >= p && (a < acc_at ? tb < 255 : tb > 0);
      zs[n++] = last ? (a < acc_at ? tb + 1 : tb - 1) : tb;
      if (last) break;
    }
    if (i == 8) return; // no such byte string (threshold zero)
  }
  zlen = n;
  int64_t e = (bc[acc_at] ? 1 + (int64_t)zc[acc_at] : -(int64_t)zc[acc_at]) + k;
  if (buf) {
    uint8_t* b = new (hk) uint8_t[n];
    memcpy(b, zs, n);
    auto [z, used] = samplerz::samplerz(mu, sp, sm, b, n);
    h_check(z == (int32_t)e, "sample (buffer)", 0);
    h_check(used == n, "bytes consumed (buffer)", 0);
  } else {
    shake256::stream = zs_stream;
    prng::prng_t rng;
    int32_t z = samplerz::samplerz(mu, sp, sm, rng);
    h_check(z == (int32_t)e, "sample", 0);
    h_check(shake256::lg.reads == n, "bytes consumed", 0);
  }
}
static void z_common(bool buf)
{
  int64_t k = (int64_t)h_param("k", 0);
  if (h_param("neg", 0)) k = -k;
  acc_at = h_param("rej", 0);
  for (size_t i = 0; i <= acc_at; i++) zc[i] = (h_param("z", 0) + 7 * i) % 19, bc[i] = (h_param("b", 0) + i) & 1;
  double fl = (double)k;
  uint64_t mb; // largest double below fl + 1
  double up = fl + 1;
  memcpy(&mb, &up, 8);
  mb = up > 0 ? mb - 1 : up < 0 ? mb + 1 : 0x8000000000000001ull;
  memcpy(&up, &mb, 8);
  double mu = h_funi("mu", 0, fl, up);
  // sigma_min <= sigma' <= 1.8205
  bool low = h_param("low", 0);
  double sp = h_funi("sigma'", 0, low ? 1.27784 : 1.2983, low ? 1.2983 : 1.8205), sm = h_funi("sigma_min", 0, 1.2778, low ? 1.27784 : 1.2983);
  if (!h_symbolic()) return z_native(buf, mu, sp, sm, k);
  int32_t z;
  if (buf) {
    static uint8_t b[11 * 520];
    for (size_t i = 0; i < 11 * (acc_at + 1); i++) b[i] = z_stream(0, i);
    auto [z_, used] = samplerz::samplerz(mu, sp, sm, b, 11 * (acc_at + 1));
    z = z_;
    h_check(used == 11 * (acc_at + 1), "bytes consumed (buffer)", 0);
  } else {
    shake256::stream = z_stream;
    prng::prng_t rng;
    z = samplerz::samplerz(mu, sp, sm, rng);
    h_check(shake256::lg.reads == 11 * (acc_at + 1), "bytes consumed", 0);
  }
  h_check(nber == acc_at + 1 && nbase == acc_at + 1, "one base sample and one trial per attempt", 0);
  for (size_t i = 0; i <= acc_at; i++) {
    double z0 = (double)zc[i], zz = bc[i] ? 1 + z0 : -z0;
    double d = zz - (mu - fl);
    h_feq(ber_c[i], sm / sp, "scale", i);
    h_feq(ber_x[i], d * d / (2 * sp * sp) - z0 * z0 / (2 * SIGMAX * SIGMAX), "exponent", i);
  }
  int64_t e = (bc[acc_at] ? 1 + (int64_t)zc[acc_at] : -(int64_t)zc[acc_at]) + k;
  h_check(z == (int32_t)e, "sample", 0);
}
H_ENTRY e_z_rng() { z_common(false); }
H_ENTRY e_z_buf() { z_common(true); }
