From 50131b2378dc18cfa56465285fa4a40320c2b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 01/15] fix: fp6::frobeniusMap for powers congruent to 3 mod 6

---
 src/fp.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index c57d117..a7a82a4 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1128,9 +1128,11 @@ fp6 fp6::frobeniusMap(const uint64_t& power) const
         }
         case 3:
         {
-            _negate(&c.c0.c0, &c1.c1);
-            c.c1.c1 = c1.c0;
-            c.c2 = c2.negate();
+            fp t;
+            _negate(&t, &c.c1.c1);
+            c.c1.c1 = c.c1.c0;
+            c.c1.c0 = t;
+            c.c2 = c.c2.negate();
             break;
         }
         default:
-- 
2.43.0


From b3b33be29ce950ee4aeb413ecb283524ffdb5f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 02/15] fix: fp12 Frobenius map reads past its coefficient
 table for powers above 11

---
 src/fp.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index a7a82a4..925adc5 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1491,7 +1491,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
     fp12 c;
     c.c0 = c0.frobeniusMap(power);
     c.c1 = c1.frobeniusMap(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1504,7 +1504,7 @@ fp12 fp12::frobeniusMap(const uint64_t& power) const
         }
         default:
         {
-            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c.c1 = c.c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
@@ -1515,7 +1515,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
 {
     c0.frobeniusMapAssign(power);
     c1.frobeniusMapAssign(power);
-    switch(power)
+    switch(power % 12)
     {
         case 0:
         {
@@ -1528,7 +1528,7 @@ void fp12::frobeniusMapAssign(const uint64_t& power)
         }
         default:
         {
-            c1 = c1.mulByBaseField(frobeniusCoeffs12[power]);
+            c1 = c1.mulByBaseField(frobeniusCoeffs12[power % 12]);
             break;
         }
     }
-- 
2.43.0


From 67c12e03760677dd8c038f18734ea9f6bf3713b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 03/15] fix: Add64/Sub64 drop the carry when y + carry wraps
 around

---
 src/arithmetic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index acbe906..c5a1f75 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -440,7 +440,7 @@ tuple<uint64_t, uint64_t> Add64(
 )
 {
     uint64_t sum = (x + y) + carry;
-    uint64_t carryOut = (sum < x);
+    uint64_t carryOut = ((x & y) | ((x | y) & ~sum)) >> 63;
     return {sum, carryOut};
 }
 
@@ -456,7 +456,7 @@ tuple<uint64_t, uint64_t> Sub64(
 )
 {
     uint64_t diff = x - y - borrow;
-    uint64_t borrowOut = (diff > x);
+    uint64_t borrowOut = ((~x & y) | (~(x ^ y) & diff)) >> 63;
     return {diff, borrowOut};
 }
 
-- 
2.43.0


From e6a7515c85af25ce266095966572e1b858484dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 04/15] fix: scalar::add stores the final carry one word too
 high

---
 include/bls12-381/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index f53a259..fabfe83 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -114,11 +114,11 @@ std::array<uint64_t, NC> add(const std::array<uint64_t, NA>& a, const std::array
     }
     if(carry > 0)
     {
-        if(NC <= N+1)
+        if(NC <= N)
         {
             throw std::invalid_argument("std::array c not large enough to store result!");
         }
-        c[N+1] = static_cast<uint64_t>(carry);
+        c[N] = static_cast<uint64_t>(carry);
     }
     return c;
 };
-- 
2.43.0


From f0745c2d72b94725cab951fab6ac9e2c38433663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 05/15] fix: compressed encoding of the identity represented as
 (0, 1, 0)

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index b15760a..2b59335 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -180,7 +180,7 @@ void g1::toCompressedBytesBE(const span<uint8_t, 48> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g1 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 48);
         out[0] |= 0xC0;
@@ -898,7 +898,7 @@ void g2::toCompressedBytesBE(const span<uint8_t, 96> out) const
     // check: https://github.com/zcash/librustzcash/blob/6e0364cd42a2b3d2b958a54771ef51a8db79dd29/pairing/src/bls12_381/README.md#serialization
     g2 p = affine();
     // check if point is at infinity
-    if(p.x.isZero() && p.y.isZero())
+    if(p.isZero())
     {
         memset(out.data(), 0, 96);
         out[0] |= 0xC0;
-- 
2.43.0


From 8743ea982e2d9cf79991725018ae1930a8ca7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 06/15] fix: compressed points with an x coordinate >= p are
 rejected

---
 src/g.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/g.cpp b/src/g.cpp
index 2b59335..b306115 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -113,11 +113,11 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     scalar::fromBytesBE(in, p.x.d);
     // erase 3 msbs from given input and perform validity check
     p.x.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x = p.x.toMont();
     if(!p.x.isValid())
     {
         return {};
     }
+    p.x = p.x.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
@@ -831,11 +831,11 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     p.x.c0 = *c0;
     // erase 3 msbs from given input and perform validity check
     p.x.c1.d[5] &= 0x1FFFFFFFFFFFFFFF;
-    p.x.c1 = p.x.c1.toMont();
     if(!p.x.c1.isValid())
     {
         return {};
     }
+    p.x.c1 = p.x.c1.toMont();
     // BLS 12-381 curve equation:
     //      y^2 = x^3 + B
     //  =>  y   = +/- sqrt(x^3 + B)
-- 
2.43.0


From f6ecd54bc87ba6cd729984650524b20b7bc6bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 07/15] fix: hexToBytes reads past the end of strings shorter
 than two characters

---
 src/scalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 908ffa2..93250bb 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -8,7 +8,7 @@ namespace bls12_381
 vector<uint8_t> hexToBytes(std::string_view s)
 {
     uint64_t start_idx = 0;
-    if(s[0] == '0' && s[1] == 'x')
+    if(s.length() >= 2 && s[0] == '0' && s[1] == 'x')
     {
         start_idx = 2;
     }
-- 
2.43.0


From 25136207169751cd7d2affe53af031054e0d6dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 08/15] fix: compressed identity with non-zero trailing bits is
 rejected

---
 src/g.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index b306115..8a712c9 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -105,6 +105,16 @@ optional<g1> g1::fromCompressedBytesBE(const span<const uint8_t, 48> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits must be zero
+        uint8_t rest = in[0] & 0x3F;
+        for(size_t i = 1; i < in.size(); i++)
+        {
+            rest |= in[i];
+        }
+        if(rest != 0)
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
@@ -818,6 +828,16 @@ optional<g2> g2::fromCompressedBytesBE(const span<const uint8_t, 96> in)
     // check if point is infinity
     if(((in[0] >> 6) & 1) == 1)
     {
+        // all other bits must be zero
+        uint8_t rest = in[0] & 0x3F;
+        for(size_t i = 1; i < in.size(); i++)
+        {
+            rest |= in[i];
+        }
+        if(rest != 0)
+        {
+            return {};
+        }
         return zero();
     }
     // reconstruct point from x coordinate
-- 
2.43.0


From aff93f4f3bc35d9b6d72fe66019113d91802960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 09/15] fix: fromMessage uses an uninitialised buffer when
 message expansion fails

---
 src/signatures.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signatures.cpp b/src/signatures.cpp
index 7dbc161..3c2100e 100644
--- a/src/signatures.cpp
+++ b/src/signatures.cpp
@@ -500,7 +500,11 @@ g2 fromMessage(
 )
 {
     uint8_t buf[4 * 64];
-    xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length());
+    if(msg.size() > 0x7FFFFFFF || dst.length() > 255 ||
+       xmd_sh256(buf, 4 * 64, msg.data(), msg.size(), reinterpret_cast<const uint8_t*>(dst.c_str()), dst.length()) != 0)
+    {
+        throw invalid_argument("message or domain separation tag too long");
+    }
 
     array<uint64_t, 8> k = {};
     fp2 t = fp2::zero();
-- 
2.43.0


From a12daaff0c59c9d513c0f883eef83458a6157ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:22 +0000
Subject: [PATCH 10/15] fix: fp6::mulBy01Assign overwrites c2 before reading
 operands that may be part of the element

---
 src/fp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fp.cpp b/src/fp.cpp
index 925adc5..8fd1121 100644
--- a/src/fp.cpp
+++ b/src/fp.cpp
@@ -1025,11 +1025,11 @@ void fp6::mulBy01Assign(const fp2& e0, const fp2& e1)
     t[5] = c0.add(c2);
     t[3] = e0.multiply(t[5]);
     t[3].subtractAssign(t[0]);
-    c2 = t[3].add(t[1]);
     t[4] = e0.add(e1);
     t[5] = c0.add(c1);
     t[4].multiplyAssign(t[5]);
     t[4].subtractAssign(t[0]);
+    c2 = t[3].add(t[1]);
     c1 = t[4].subtract(t[1]);
     c0 = t[2].add(t[0]);
 }
-- 
2.43.0


From 096841141a71e025917e2ae9ab41378e91f2ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 11/15] fix: portable squaring helpers drop carries out of the
 high word

---
 src/arithmetic.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/arithmetic.cpp b/src/arithmetic.cpp
index c5a1f75..dac1543 100644
--- a/src/arithmetic.cpp
+++ b/src/arithmetic.cpp
@@ -546,17 +546,20 @@ tuple<uint64_t, uint64_t, uint64_t> madd2s(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -567,14 +570,16 @@ tuple<uint64_t, uint64_t, uint64_t> madd1s(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
-    tie(hi, _) = Add64(hi, 0, d);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
+    tie(hi, carry) = Add64(hi, 0, d);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -585,16 +590,18 @@ tuple<uint64_t, uint64_t, uint64_t> madd2sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, sum, superhi, hi, lo, _;
+    uint64_t carry, sum, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
 
     tie(sum, carry) = Add64(c, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     tie(lo, carry) = Add64(lo, sum, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
@@ -604,13 +611,14 @@ tuple<uint64_t, uint64_t, uint64_t> madd1sb(
     const uint64_t& e
 )
 {
-    uint64_t carry, superhi, hi, lo, _;
+    uint64_t carry, superhi, hi, lo;
 
     tie(hi, lo) = Mul64(a, b);
     tie(lo, carry) = Add64(lo, lo, 0);
     tie(hi, superhi) = Add64(hi, hi, carry);
     tie(lo, carry) = Add64(lo, e, 0);
-    tie(hi, _) = Add64(hi, 0, carry);
+    tie(hi, carry) = Add64(hi, 0, carry);
+    superhi += carry;
     return {superhi, hi, lo};
 }
 
-- 
2.43.0


From 88f12a73148505002a4d3af91d48d0a44bdc27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:38 +0000
Subject: [PATCH 12/15] fix: bn_divn_low wrote out of bounds when normalization
 made the divisor longer than the dividend

---
 src/scalar.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/scalar.cpp b/src/scalar.cpp
index 93250bb..8f249f8 100644
--- a/src/scalar.cpp
+++ b/src/scalar.cpp
@@ -265,6 +265,13 @@ void bn_divn_low(uint64_t *c, uint64_t *d, uint64_t *a, int sa, uint64_t *b, int
     n = sa - 1;
     t = sb - 1;
 
+    // Normalization may extend y by a digit but not x: the quotient is 0 and the remainder is x.
+    if(n < t)
+    {
+        bn_rshb_low(d, a, sb, norm);
+        return;
+    }
+
     // Shift y so that the most significant digit of y is aligned with the most significant digit of x.
     dv_lshd(b, b, sb + (n - t), (n - t));
 
-- 
2.43.0


From ee153695dd35d9362b4dcae8f368d6b7bd9d638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 13/15] fix: bn_divn_safe hung or returned wrong results for
 divisors with leading zero words

---
 include/bls12-381/scalar.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/bls12-381/scalar.hpp b/include/bls12-381/scalar.hpp
index fabfe83..61334ec 100644
--- a/include/bls12-381/scalar.hpp
+++ b/include/bls12-381/scalar.hpp
@@ -232,10 +232,18 @@ void bn_divn_safe(std::array<uint64_t, N>& c, std::array<uint64_t, M>& d, const
     std::array<uint64_t, N+2> quotient = {};
     std::array<uint64_t, N+2> remainder = {};
 
-    bn_divn_low(quotient.data(), remainder.data(), dividend.data(), N, modulus.data(), M);
+    // The leading word of the divisor must not be zero
+    int size = M;
+    while(size > 1 && modulus[size - 1] == 0)
+    {
+        size--;
+    }
+
+    bn_divn_low(quotient.data(), remainder.data(), dividend.data(), N, modulus.data(), size);
 
     memcpy(c.data(), quotient.data(), N * sizeof(uint64_t));
-    memcpy(d.data(), remainder.data(), M * sizeof(uint64_t));
+    d = {};
+    memcpy(d.data(), remainder.data(), size * sizeof(uint64_t));
 }
 
 template<size_t N>
-- 
2.43.0


From bc17b71021edaab84462fc66ba831114f802e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 14/15] fix: g1::mapToCurve returned an off-curve point for
 inputs mapped into the kernel of the isogeny

---
 src/g.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/g.cpp b/src/g.cpp
index 8a712c9..cb57cc9 100644
--- a/src/g.cpp
+++ b/src/g.cpp
@@ -549,6 +549,11 @@ g1 g1::mapToCurve(const fp& e)
     fp x, y, z = fp::one();
     tie(x, y) = swuMapG1(e);
     isogenyMapG1(x, y);
+    // points of the isogeny's kernel (zero denominator) are mapped to infinity
+    if(x.isZero() && y.isZero())
+    {
+        return zero();
+    }
     g1 p({x, y, z});
     p = p.clearCofactor();
     return p;
-- 
2.43.0


From fd2492c8d7b0031e3834992deb963d23cae5b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 15/15] fix: the Miller loop of an empty list does not read out
 of bounds

---
 src/pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pairing.cpp b/src/pairing.cpp
index 1f98083..e744a04 100644
--- a/src/pairing.cpp
+++ b/src/pairing.cpp
@@ -114,7 +114,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         {
             f = f.square();
         }
-        for(uint64_t j = 0; j <= pairs.size()-1; j++)
+        for(uint64_t j = 0; j < pairs.size(); j++)
         {
             t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
             t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
@@ -123,7 +123,7 @@ fp12 miller_loop(std::span<const std::tuple<g1, g2>> pairs, std::function<void()
         if(((g2::cofactorEFF[0] >> i) & 1) == 1)
         {
             k++;
-            for(uint64_t j = 0; j <= pairs.size()-1; j++)
+            for(uint64_t j = 0; j < pairs.size(); j++)
             {
                 t[0] = ellCoeffs[j][k][2].mulByFq(get<g1>(pairs[j]).y);
                 t[1] = ellCoeffs[j][k][1].mulByFq(get<g1>(pairs[j]).x);
-- 
2.43.0

