From f908d3c1ca7ee7fa35a1aa4afab3e0195ff5fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 01/10] fix: verify accumulates the squared norm in 64 bits

The squared norm of (s1, s2) reaches about 2^35 for N = 1024, overflowing
the 32-bit accumulator, so that invalid signatures could be accepted.
---
 include/verification.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..7bbe207 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,13 +67,13 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * s2[i];
   }
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += normalized_s1[i] * normalized_s1[i];
+    sqrd_norm += static_cast<int64_t>(normalized_s1[i]) * normalized_s1[i];
   }
 
   return sqrd_norm <= β2;
-- 
2.43.0


From f59255a47f3fb3a6707b8262fa8e779ca018bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 02/10] fix: verify centres s1 in [-6144, 6144]

The residue 6144 was mapped to -6145 instead of 6144.
---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 7bbe207..86dd4a3 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From 83ad25519097fcd08027eb88e486749358f26ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:40 +0000
Subject: [PATCH 03/10] fix: decompress coefficients of absolute value 1024 and
 above

A unary run of eight or more zero bits was skipped without adding it to
the coefficient, and the bit index was moved past the end of the run.
---
 include/decoding.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..530f452 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -305,18 +305,19 @@ decompress_sig(const uint8_t* const __restrict sig,
           size_t v = 0;
           if (ebits < 8) {
             const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::countl_zero(t);
+            v = std::min<size_t>(std::countl_zero(t), ebits);
           } else {
             const auto t = extract_8_contiguous_bits(sig, bit_idx);
             v = std::countl_zero(t);
           }
           k += v;
-          bit_idx += ebits;
+          bit_idx += v;
 
           if (v < ebits) {
             break;
           }
         }
+        coeff += (1 << 7) * k;
       }
     }
 
-- 
2.43.0


From 818428e481bb09df9d366a12b86ca4d810262b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 04/10] fix: decompress_sig does not read past the signature

Eight bits were extracted near the end of the signature without checking
that they are there, reading up to two bytes after the buffer.
---
 include/decoding.hpp | 48 +++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 530f452..fc8adf5 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -215,7 +215,7 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t bit_at = bitoff & 7ul;
 
   const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
-                        static_cast<uint16_t>(bytes[byte_at + 1]);
+                        (bit_at > 0 ? bytes[byte_at + 1] : 0);
 
   return static_cast<uint8_t>(word >> (8 - bit_at));
 }
@@ -283,6 +283,10 @@ decompress_sig(const uint8_t* const __restrict sig,
     uint8_t sign_bit = 0;
 
     // extracts sign bit and low ( least significant ) 7 bits of coefficient
+    if (slen - bit_idx < 8) {
+      failed = true;
+      break;
+    }
     {
       const uint8_t res = extract_8_contiguous_bits(sig, bit_idx);
 
@@ -293,32 +297,26 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
-      if (k < 8) [[likely]] {
-        coeff += (1 << 7) * k;
-        bit_idx += k;
-      } else {
-        bit_idx += k;
-        for (; bit_idx < slen;) {
-          const auto ebits = std::min(8ul, slen - bit_idx);
-
-          size_t v = 0;
-          if (ebits < 8) {
-            const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
-            v = std::min<size_t>(std::countl_zero(t), ebits);
-          } else {
-            const auto t = extract_8_contiguous_bits(sig, bit_idx);
-            v = std::countl_zero(t);
-          }
-          k += v;
-          bit_idx += v;
-
-          if (v < ebits) {
-            break;
-          }
+      size_t k = 0;
+      for (; bit_idx < slen;) {
+        const auto ebits = std::min(8ul, slen - bit_idx);
+
+        size_t v = 0;
+        if (ebits < 8) {
+          const auto t = extract_rem_contiguous_bits_in_byte(sig, bit_idx);
+          v = std::min<size_t>(std::countl_zero(t), ebits);
+        } else {
+          const auto t = extract_8_contiguous_bits(sig, bit_idx);
+          v = std::countl_zero(t);
+        }
+        k += v;
+        bit_idx += v;
+
+        if (v < ebits) {
+          break;
         }
-        coeff += (1 << 7) * k;
       }
+      coeff += (1 << 7) * k;
     }
 
     // recompute coefficient s_i
-- 
2.43.0


From 98776fb0a74e8213b691385a0087938eded2d21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 05/10] fix: accept signatures whose compressed body fills all
 available bits

Algorithms 17 and 18 of the specification fail only when more bits than
available are needed.
---
 include/decoding.hpp | 2 +-
 include/encoding.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index fc8adf5..b8f391f 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -336,7 +336,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= (bit_idx > slen) | (coeff_idx < N);
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From 30b989d6a58b01d289b85100632504f461fe84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 06/10] fix: decode_pkey rejects coefficients which are not
 below q

Such keys decoded to values outside of Z_q.
---
 include/decoding.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index b8f391f..45de1df 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -44,6 +44,13 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
+  const bool invalid =
+    std::any_of(h, h + N, [](const ff::ff_t& e) { return e.v >= ff::Q; });
+  if (invalid) [[unlikely]] {
+    std::fill_n(h, N, 0);
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 6dda6700a247c19de1dbe0b1e12dcc4a8f340f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 07/10] fix: decode_skey rejects the forbidden minimum
 coefficient value

Section 3.11.5 of the specification forbids -2^(bits-1).
---
 include/decoding.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 45de1df..9008075 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -176,6 +176,22 @@ decode_skey(const uint8_t* const __restrict skey,
     F[Foff] = skey[skoff] - (skey[skoff] > F_max) * F_wrap_at;
   }
 
+  // minimum two's complement value is forbidden, for each of f, g and F
+  constexpr int32_t fg_min = N == 512 ? -32 : -16;
+  constexpr int32_t F_min = -128;
+
+  bool invalid = false;
+  for (size_t i = 0; i < N; i++) {
+    invalid |= (f[i] == fg_min) | (g[i] == fg_min) | (F[i] == F_min);
+  }
+  if (invalid) [[unlikely]] {
+    std::fill_n(f, N, 0);
+    std::fill_n(g, N, 0);
+    std::fill_n(F, N, 0);
+
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 8afcb4000daca704502ed622c36213d5403fe53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 08/10] fix: key generation resamples keys which can not be
 encoded

Coefficients of f, g, F which do not fit in the secret key format were
emitted and silently truncated by encode_skey.
---
 include/ntru_gen.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..ec6a32d 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -547,6 +547,20 @@ ntru_gen(int32_t* const __restrict f,
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
     }
+
+    // all coefficients must fit in the secret key encoding
+    constexpr int32_t fg_max = N == 512 ? 31 : 15;
+    constexpr int32_t FG_max = 127;
+
+    bool fits = true;
+    for (size_t i = 0; i < N; i++) {
+      fits &= (std::abs(f[i]) <= fg_max) & (std::abs(g[i]) <= fg_max);
+      fits &= (abs(ret.first.first[i]) <= FG_max);
+      fits &= (abs(ret.first.second[i]) <= FG_max);
+    }
+    if (!fits) {
+      continue;
+    }
     break;
   }
 }
-- 
2.43.0


From 5593b7d1687ee8079d78c7d5a7159cd7c3141e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 09/10] fix: seed the PRNG with 32 bytes of the system random
 device

All 32 seed bytes were derived from a single 32-bit random number.
---
 include/prng.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..226770e 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -7,8 +7,7 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +22,10 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
     for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+      seed[i] = static_cast<uint8_t>(rd());
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From fdc707de06d80cc07d3dc190e180db392a42c005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:58 +0000
Subject: [PATCH 10/10] fix: ber_exp never passes a negative remainder to
 approx_exp

When x - s * LN2 is contracted to a fused multiply-add (the default of the
build), it is slightly negative for e.g. x = 15 * LN2, and converting the
negative product to uint64_t is undefined.
---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..da5f32a 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -250,7 +250,7 @@ static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(0., x - s * LN2);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -287,7 +287,7 @@ ber_exp(const double x,
         const size_t rblen)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(0., x - s * LN2);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0

