From b2545ee10909545e450877d11b80a81ae4e58510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 01/16] fix: verify must not overflow when computing squared
 norm

Squared norm of (s1, s2) reaches N * (q/2)^2 ~ 2^35, so accumulating it in
int32_t wraps around ( which is also undefined behaviour ) and signatures on
wrong messages were accepted.
---
 include/verification.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 53d33ec..995c5b5 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -67,13 +67,14 @@ verify(const ff::ff_t* const __restrict h,
     normalized_s1[i] = t0 - t1;
   }
 
-  int32_t sqrd_norm = 0;
+  int64_t sqrd_norm = 0;
 
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += s2[i] * s2[i];
+    sqrd_norm += static_cast<int64_t>(s2[i]) * static_cast<int64_t>(s2[i]);
   }
   for (size_t i = 0; i < N; i++) {
-    sqrd_norm += normalized_s1[i] * normalized_s1[i];
+    sqrd_norm += static_cast<int64_t>(normalized_s1[i]) *
+                 static_cast<int64_t>(normalized_s1[i]);
   }
 
   return sqrd_norm <= β2;
-- 
2.43.0


From bb91210ced99140926f5c53ad76dfd3a7ccd5e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 02/16] fix: verify must center residue (q-1)/2 as itself

Centered representation of 6144 is 6144, not 6144 - q = -6145.
---
 include/verification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/verification.hpp b/include/verification.hpp
index 995c5b5..ba76f3e 100644
--- a/include/verification.hpp
+++ b/include/verification.hpp
@@ -60,7 +60,7 @@ verify(const ff::ff_t* const __restrict h,
   int32_t normalized_s1[N];
 
   for (size_t i = 0; i < N; i++) {
-    const bool flg = s1[i].v >= qby2;
+    const bool flg = s1[i].v > qby2;
     const auto t0 = static_cast<int32_t>(s1[i].v);
     const auto t1 = static_cast<int32_t>(flg * ff::Q);
 
-- 
2.43.0


From b4125f81b9bd29386a0c8c8013d87f3a831191e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 03/16] fix: decompress_sig must not read past end of signature

Extracting 8 bits from a byte aligned index, or from last few bits of
signature, used to read one or two bytes beyond the buffer ( also for valid
signatures ).
---
 include/decoding.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 2890634..49b3a7d 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -205,8 +205,8 @@ decode_skey(const uint8_t* const __restrict skey,
 // Now notice, if we're working with a byte array of length 2 and we're asked to
 // extract 8 contiguous bits, starting from bit index 11, we will access memory
 // location which we're not supposed to be. So it's caller's responsibility to
-// ensure that atleast 2 consecutive memory locations ( i.e. bytes ) can be
-// accessed, starting from byte index (bitoff / 8).
+// ensure that all of those 8 contiguous bits live inside byte array. Second byte
+// is accessed only if bit index isn't byte aligned.
 static inline constexpr uint8_t
 extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
                           const size_t bitoff)
@@ -215,7 +215,7 @@ extract_8_contiguous_bits(const uint8_t* const __restrict bytes,
   const size_t bit_at = bitoff & 7ul;
 
   const uint16_t word = (static_cast<uint16_t>(bytes[byte_at]) << 8) |
-                        static_cast<uint16_t>(bytes[byte_at + 1]);
+                        static_cast<uint16_t>(bytes[byte_at + (bit_at > 0)]);
 
   return static_cast<uint8_t>(word >> (8 - bit_at));
 }
@@ -278,7 +278,8 @@ decompress_sig(const uint8_t* const __restrict sig,
   size_t coeff_idx = 0;
   bool failed = false;
 
-  while ((coeff_idx < N) && (bit_idx < slen)) {
+  // sign bit, low 7 bits and atleast one bit of unary code must be available
+  while ((coeff_idx < N) && (bit_idx + 8 < slen)) {
     int32_t coeff = 0;
     uint8_t sign_bit = 0;
 
@@ -293,12 +294,15 @@ decompress_sig(const uint8_t* const __restrict sig,
 
     // extract high bits of coefficient, which was encoded using unary code
     {
-      size_t k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
+      size_t k = 8;
+      if (bit_idx + 8 <= slen) [[likely]] {
+        k = std::countl_zero(extract_8_contiguous_bits(sig, bit_idx));
+      }
       if (k < 8) [[likely]] {
         coeff += (1 << 7) * k;
         bit_idx += k;
       } else {
-        bit_idx += k;
+        k = 0;
         for (; bit_idx < slen;) {
           const auto ebits = std::min(8ul, slen - bit_idx);
 
-- 
2.43.0


From 25dac989cf27e82929c115e1b8d26359ab184bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 04/16] fix: decompress_sig must decode coefficients >= 1024
 correctly

When unary code of high bits is longer than 8 bits, high bits were dropped and
decoding didn't resume right after terminating bit, so such coefficients were
wrongly decoded and many encodings were accepted for same polynomial.
---
 include/decoding.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 49b3a7d..28e22ab 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -315,9 +315,10 @@ decompress_sig(const uint8_t* const __restrict sig,
             v = std::countl_zero(t);
           }
           k += v;
-          bit_idx += ebits;
+          bit_idx += std::min(v, ebits);
 
           if (v < ebits) {
+            coeff += (1 << 7) * k;
             break;
           }
         }
-- 
2.43.0


From 2dcb418d0a86c9f7b42bd5a19445aa3a32d5395a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 05/16] fix: accept compressed signatures filling all available
 bits

Algorithm 17 of specification fails only when encoding is longer than available
space, while exact fit was also refused during both compression and
decompression.
---
 include/decoding.hpp | 2 +-
 include/encoding.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 28e22ab..6e96a46 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -342,7 +342,7 @@ decompress_sig(const uint8_t* const __restrict sig,
   }
 
   // enforce trailing bits are 0
-  failed |= (bit_idx >= slen) | (coeff_idx < N);
+  failed |= (bit_idx > slen) | (coeff_idx < N);
   if (!failed) {
     for (; bit_idx < slen;) {
       const size_t ebits = std::min(8ul, slen - bit_idx);
diff --git a/include/encoding.hpp b/include/encoding.hpp
index 7bfe32b..361ccf7 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -223,10 +223,10 @@ compress_sig(const int32_t* const __restrict poly_s,
     coeff_idx += 1;
   }
 
-  std::memset(sig_buf, 0, max_sbytelen * (bit_idx >= slen));
+  std::memset(sig_buf, 0, max_sbytelen * (bit_idx > slen));
   std::memcpy(sig + (1 + 40), sig_buf, sbytelen - (1 + 40));
 
-  return bit_idx < slen;
+  return bit_idx <= slen;
 }
 
 }
-- 
2.43.0


From 71fdd3c0837667f143c96957f909e7201f833024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 06/16] fix: compress_sig must not write past its buffer

Large coefficients made unary code longer than on-stack buffer. Stop as soon as
encoding doesn't fit anymore.
---
 include/encoding.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/encoding.hpp b/include/encoding.hpp
index 361ccf7..6f0e0a9 100644
--- a/include/encoding.hpp
+++ b/include/encoding.hpp
@@ -182,6 +182,15 @@ compress_sig(const int32_t* const __restrict poly_s,
   size_t coeff_idx = 0;
 
   while (coeff_idx < N) {
+    // magnitude of coefficient
+    const size_t mag = std::abs(static_cast<int64_t>(poly_s[coeff_idx]));
+
+    // abort if this coefficient doesn't fit in remaining bits
+    if (bit_idx + 1 + 7 + (mag >> 7) + 1 > slen) {
+      bit_idx = slen + 1;
+      break;
+    }
+
     // encode sign bit
     {
       const size_t byte_idx = bit_idx >> 3;
@@ -193,12 +202,11 @@ compress_sig(const int32_t* const __restrict poly_s,
 
     // encode low 7 -bits of coefficient
     {
-      const int32_t coeff = std::abs(poly_s[coeff_idx]);
       for (size_t i = bit_idx; i < bit_idx + 7; i++) {
         const size_t byte_idx = i >> 3;
         const size_t from_bit = i & 7ul;
 
-        const uint8_t bit = (coeff >> (6 - (i - bit_idx))) & 0b1;
+        const uint8_t bit = (mag >> (6 - (i - bit_idx))) & 0b1;
         sig_buf[byte_idx] |= bit << (7 - from_bit);
       }
 
@@ -207,7 +215,7 @@ compress_sig(const int32_t* const __restrict poly_s,
 
     // encode high bits of coefficient, in unary code
     {
-      const size_t k = std::abs(poly_s[coeff_idx]) >> 7;
+      const size_t k = mag >> 7;
       for (size_t i = bit_idx; i < bit_idx + k; i++) {
         const size_t byte_idx = i >> 3;
         const size_t from_bit = i & 7ul;
-- 
2.43.0


From 85c666b1e4933c803a1f470caa9d2ee6d0e878c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 07/16] fix: refuse public keys with non-canonical coefficients

Section 3.11.4 of specification requires coefficients in [0, q), decoder used to
accept all 14-bit values, so one public key had many encodings and arithmetic
was run on unreduced field elements.
---
 include/decoding.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/decoding.hpp b/include/decoding.hpp
index 6e96a46..b0cf613 100644
--- a/include/decoding.hpp
+++ b/include/decoding.hpp
@@ -13,8 +13,9 @@ namespace decoding {
 // https://falcon-sign.info/falcon.pdf
 //
 // Note, Falcon public key's first byte i.e. header byte should be encoded as
-// described in specification, otherwise decoding will fail, returning false. In
-// case of successful decoding, truth value is returned.
+// described in specification and each coefficient must be < 12289, otherwise
+// decoding will fail, returning false. In case of successful decoding, truth
+// value is returned.
 template<const size_t N>
 static inline bool
 decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
@@ -44,6 +45,16 @@ decode_pkey(const uint8_t* const __restrict pkey, ff::ff_t* const __restrict h)
                     (static_cast<uint16_t>(pkey[pkoff + 5] >> 2) << 0);
   }
 
+  bool canonical = true;
+  for (size_t i = 0; i < N; i++) {
+    canonical &= h[i].v < ff::Q;
+  }
+
+  if (!canonical) [[unlikely]] {
+    std::fill_n(h, N, 0);
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From f3ee7890afe48f1689a08438e0120a737423d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 08/16] fix: do not generate secret keys which can't be encoded

Coefficients of f, g or F outside of the range supported by secret key encoding
were silently wrapped, so roughly one of thousand generated secret keys was
unusable. Try again when that happens.
---
 include/ntru_gen.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e040a61..e058d59 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -504,6 +504,20 @@ ntru_solve(const std::array<mpz_class, N>& f, const std::array<mpz_class, N>& g)
   }
 }
 
+// Checks whether all coefficients of a polynomial are ∈ [-max, max], so that it
+// can be encoded as part of secret key.
+template<const size_t N>
+static inline bool
+fits_in(const int32_t* const poly, const int32_t max)
+{
+  bool flg = true;
+  for (size_t i = 0; i < N; i++) {
+    flg &= (poly[i] >= -max) & (poly[i] <= max);
+  }
+
+  return flg;
+}
+
 // Given a modulus q ( = 12289 ), this routine generates four polynomials f, g,
 // F, G ∈ Z[x]/(x^N + 1), solving NTRU equation ( see eq 3.15 of Falcon
 // specification ). This routine is an implementation of algorithm 5 of Falcon
@@ -517,10 +531,19 @@ ntru_gen(int32_t* const __restrict f,
          prng::prng_t& rng)
   requires((N == 512) || (N == 1024))
 {
+  // secret key encoding uses {6, 5} -bits for coefficients of f, g and 8 -bits
+  // for coefficients of F, see section 3.11.5 of specification
+  constexpr int32_t fg_max = (N == 512) ? 31 : 15;
+  constexpr int32_t F_max = 127;
+
   while (1) {
     gen_poly<log2<N>()>(f, rng);
     gen_poly<log2<N>()>(g, rng);
 
+    if (!fits_in<N>(f, fg_max) || !fits_in<N>(g, fg_max)) {
+      continue;
+    }
+
     if (!is_poly_invertible<log2<N>()>(f)) {
       continue;
     }
@@ -547,6 +570,10 @@ ntru_gen(int32_t* const __restrict f,
       F[i] = static_cast<int32_t>(ret.first.first[i].get_si());
       G[i] = static_cast<int32_t>(ret.first.second[i].get_si());
     }
+
+    if (!fits_in<N>(F, F_max)) {
+      continue;
+    }
     break;
   }
 }
-- 
2.43.0


From 2b8d7cc8709e18d4e48c609d200e67087fec574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 09/16] fix: seed PRNG with 256 bits of system entropy

Generator was expanded from a single 32-bit output of random device using
Mersenne Twister, so there were only 2^32 distinct keys and salts streams. It
also instantiated uniform_int_distribution with uint8_t, which is undefined.
---
 include/prng.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/prng.hpp b/include/prng.hpp
index 4de0a2d..bb7c543 100644
--- a/include/prng.hpp
+++ b/include/prng.hpp
@@ -1,5 +1,7 @@
 #pragma once
 #include "shake256.hpp"
+#include <cstdint>
+#include <cstring>
 #include <random>
 
 // Pseudo Random Number Generator
@@ -7,8 +9,7 @@ namespace prng {
 
 // Pseudo Random Number Generator s.t. N (>0) -many random bytes are read from
 // SHAKE256 XoF whose state is obtained by hashing 32 random bytes sampled from
-// uniform uint8_t random number generator distribution, using Mersenne Twister
-// engine, which itself is seeded with system random device ( read more @
+// system random device ( read more @
 // https://en.cppreference.com/w/cpp/numeric/random/random_device )
 //
 // Note, std::random_device's behaviour is implementation defined feature, so
@@ -23,12 +24,11 @@ public:
   inline prng_t()
   {
     std::random_device rd;
-    std::mt19937 gen(rd());
-    std::uniform_int_distribution<uint8_t> dis{};
 
     uint8_t seed[32];
-    for (size_t i = 0; i < sizeof(seed); i++) {
-      seed[i] = dis(gen);
+    for (size_t i = 0; i < sizeof(seed); i += sizeof(uint32_t)) {
+      const uint32_t word = rd();
+      std::memcpy(seed + i, &word, sizeof(word));
     }
 
     state.hash(seed, sizeof(seed));
-- 
2.43.0


From b1a6cf592fec887e5e70e71c43ac6492194cc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 10/16] fix: ber_exp must not convert negative double to
 unsigned integer

x - s * LN2 can be slightly negative when x is nearly a multiple of ln(2) (
say, when evaluated using fused multiply-add ), which is undefined in
approx_exp and produced arbitrary acceptance probability.
---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index ab0ab60..8525774 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -250,7 +250,7 @@ static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
@@ -287,7 +287,7 @@ ber_exp(const double x,
         const size_t rblen)
 {
   const double s = std::floor(x * INV_LN2);
-  const double r = x - s * LN2;
+  const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
 
-- 
2.43.0


From 046d48d84d940d15038db8b513706c9a93691fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 11/16] fix: approx_exp must not lose top bit for x = 0, ccs =
 1

Result 2^63 was truncated to 0.
---
 include/samplerz.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index 8525774..c94b1c4 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -206,14 +206,13 @@ full_mul_u64(const uint64_t lhs, const uint64_t rhs)
 #endif
 }
 
-// Given an unsigned 126 -bit result held using two 64 -bit unsigned integers (
-// first high 62 -bits and low 64 -bits ), this routine extracts out and returns
-// top 63 -bits of result.
+// Given an unsigned result <= 2^126, held using two 64 -bit unsigned integers (
+// first high 64 -bits and low 64 -bits ), this routine extracts out and returns
+// top bits of result, after dropping low 63 -bits.
 static inline uint64_t
 top_63_bits(std::pair<uint64_t, uint64_t> v)
 {
-  constexpr uint64_t mask = (1ul << 62) - 1ul;
-  return ((v.first & mask) << 1) | (v.second >> 63);
+  return (v.first << 1) | (v.second >> 63);
 }
 
 // Routine for computing integral approximations of
-- 
2.43.0


From 2c9b444ddbbe408c1c04715e0fce0255e2c80ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 12/16] fix: samplerz must not read past given random bytes

---
 include/samplerz.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index c94b1c4..0e135b7 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -373,7 +373,8 @@ samplerz(const double μ,
   size_t ridx = 0;
   int32_t ret_z = 0;
 
-  while (ridx < rblen) {
+  // each iteration consumes atleast 9 + 1 + 1 bytes
+  while (ridx + 11 <= rblen) {
     std::array<uint8_t, 9> tmp{};
     std::memcpy(tmp.data(), rbytes + ridx, 9);
     std::reverse(tmp.begin(), tmp.end());
-- 
2.43.0


From 26ec5c8b0a2ae8065b84e0c5e443fd69706990e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 13/16] fix: refuse to sign with malformed secret keys

Signing with secret key bytes which don't hold a valid NTRU basis either never
returned, converted NaN to integer ( undefined behaviour ) or silently produced a
signature which doesn't verify.
---
 include/falcon.hpp | 66 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/include/falcon.hpp b/include/falcon.hpp
index 2bdd7c0..c309938 100644
--- a/include/falcon.hpp
+++ b/include/falcon.hpp
@@ -50,8 +50,11 @@ keygen(uint8_t* const __restrict pkey, uint8_t* const __restrict skey)
 // byte encapsulated value of polynomials f, g and F ) and G needs to be
 // computed again because all of four polynomials f, g, F and G are required for
 // computing Falcon Tree T, which is used for signing messages.
+//
+// Returns false if there's no G with coefficients of reasonable size ( say when
+// f isn't invertible ), which means secret key is malformed.
 template<const size_t N>
-static inline void
+static inline bool
 recompute_G(const int32_t* const __restrict f,
             const int32_t* const __restrict g,
             const int32_t* const __restrict F,
@@ -84,9 +87,60 @@ recompute_G(const int32_t* const __restrict f,
 
   fft::ifft<log2<N>()>(G_);
 
+  bool in_range = true;
   for (size_t i = 0; i < N; i++) {
-    G[i] = static_cast<int32_t>(std::round(G_[i].real()));
+    const double v = std::round(G_[i].real());
+    const bool flg = std::abs(v) < static_cast<double>(1 << 30); // also !NaN
+
+    G[i] = flg ? static_cast<int32_t>(v) : 0;
+    in_range &= flg;
   }
+
+  return in_range;
+}
+
+// Given four degree N polynomials f, g, F and G, this routine checks whether
+// they can be used for signing i.e.
+//
+// - f is invertible mod q
+// - Gram-Schmidt norm is within bound, enforced during key generation
+// - they satisfy NTRU equation fG - gF = q mod φ
+template<const size_t N>
+static inline bool
+is_valid_basis(const int32_t* const __restrict f,
+               const int32_t* const __restrict g,
+               const int32_t* const __restrict F,
+               const int32_t* const __restrict G)
+  requires((N == 512) || (N == 1024))
+{
+  if (!ntru_gen::is_poly_invertible<log2<N>()>(f)) {
+    return false;
+  }
+
+  const double gsnorm = ntru_gen::gram_schmidt_norm<log2<N>()>(f, g);
+  if (!(gsnorm <= ntru_gen::GS_NORM_THRESHOLD)) {
+    return false;
+  }
+
+  for (size_t i = 0; i < N; i++) {
+    int64_t pos = 0;
+    int64_t neg = 0;
+
+    for (size_t j = 0; j <= i; j++) {
+      pos += static_cast<int64_t>(f[j]) * G[i - j];
+      pos -= static_cast<int64_t>(g[j]) * F[i - j];
+    }
+    for (size_t j = i + 1; j < N; j++) {
+      neg += static_cast<int64_t>(f[j]) * G[N + i - j];
+      neg -= static_cast<int64_t>(g[j]) * F[N + i - j];
+    }
+
+    if ((pos - neg) != (i == 0) * static_cast<int64_t>(ff::Q)) {
+      return false;
+    }
+  }
+
+  return true;
 }
 
 // Given four degree N polynomials f, g, F and G, in coefficient form, this
@@ -186,6 +240,8 @@ sign(const fft::cmplx* const __restrict B, // 2x2 matrix [[g, -f], [G, -F]]
 // when one signs many messages - one after another say. But for single shot
 // usecases, where secret key is loaded into memory just to sign a single
 // message, one might prefer using this routine.
+//
+// Returns false if secret key is malformed, without producing a signature.
 template<const size_t N>
 static inline bool
 sign(const uint8_t* const __restrict skey,
@@ -207,7 +263,11 @@ sign(const uint8_t* const __restrict skey,
     return decoded;
   }
 
-  recompute_G<N>(f, g, F, G);
+  const bool recomputed = recompute_G<N>(f, g, F, G);
+  if (!recomputed || !is_valid_basis<N>(f, g, F, G)) [[unlikely]] {
+    return false;
+  }
+
   compute_matrix_B<N>(f, g, F, G, B);
   compute_falcon_tree<N>(B, T);
   sign<N>(B, T, msg, mlen, sig, rng);
-- 
2.43.0


From 5d2c2457d5db3097a05df0e4344b067cff4df2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:11 +0000
Subject: [PATCH 14/16] fix: reduction must terminate when quotient is one half

---
 include/ntru_gen.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index e058d59..f55a074 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -418,9 +418,14 @@ reduce(const std::array<mpz_class, N>& f,
     polynomial::div<log2<N>()>(FfGg_add, ffgg_add, k);
     fft::ifft<log2<N>()>(k);
 
+    // quotients of exactly 1/2 ( give or take error of floating point arithmetic
+    // ) are rounded towards zero, otherwise next iteration may undo this one,
+    // forever
+    constexpr double tie = 1. - 0x1p-30;
+
     signed long k_rounded[N];
     for (size_t i = 0; i < N; i++) {
-      k_rounded[i] = static_cast<signed long>(std::round(k[i].real()));
+      k_rounded[i] = static_cast<signed long>(std::round(k[i].real() * tie));
     }
 
     bool atleast_one_nonzero = false;
-- 
2.43.0


From 7ca1c82fe11091666ffcb1e9bc3386814f867136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 15/16] fix: xgcd must not return negative gcd

---
 include/ntru_gen.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ntru_gen.hpp b/include/ntru_gen.hpp
index f55a074..59ff81f 100644
--- a/include/ntru_gen.hpp
+++ b/include/ntru_gen.hpp
@@ -229,6 +229,13 @@ xgcd(const mpz_class& x, const mpz_class& y)
     t = tmp - mpz_class(quotient * t);
   }
 
+  // gcd must be non-negative, also for negative x, y
+  if (old_r < mpz_class{ 0 }) {
+    old_r = -old_r;
+    old_s = -old_s;
+    old_t = -old_t;
+  }
+
   return {
     old_s, // a
     old_t, // b
-- 
2.43.0


From 2392e4c08e538efee256a56bce2fd4c757898753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:36 +0000
Subject: [PATCH 16/16] fix: ber_exp must accept x rounded to slightly below
 zero

---
 include/samplerz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/samplerz.hpp b/include/samplerz.hpp
index 0e135b7..142f762 100644
--- a/include/samplerz.hpp
+++ b/include/samplerz.hpp
@@ -248,7 +248,7 @@ approx_exp(const double x, const double ccs)
 static inline uint8_t
 ber_exp(const double x, const double ccs, prng::prng_t& rng)
 {
-  const double s = std::floor(x * INV_LN2);
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
   const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
@@ -285,7 +285,7 @@ ber_exp(const double x,
         const uint8_t* const rbytes,
         const size_t rblen)
 {
-  const double s = std::floor(x * INV_LN2);
+  const double s = std::floor(std::max(x, 0.) * INV_LN2);
   const double r = std::max(x - s * LN2, 0.);
   const uint64_t s_ = std::min<uint64_t>(static_cast<uint64_t>(s), 63ul);
   const uint64_t z = (2 * approx_exp(r, ccs) - 1) >> s_;
-- 
2.43.0

