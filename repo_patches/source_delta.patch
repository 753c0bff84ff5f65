From 81d88e97303f479b8b1218394888faec085c0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 01/23] fix: write binary field elements in binary in
 BINARY_OUTPUT mode

In that mode OUTPUT_NEWLINE and OUTPUT_SEPARATOR are empty, so consecutive
decimal encodings ran together and containers could not be read back.
---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..c70a1b0 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..fe52cf0 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..5248da6 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..6404701 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..a9efc60 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 050e74da24c083d18ecd5952812b07ed07f47c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 02/23] fix: define the declared vector serialization of
 Fp6_2over3_model

---
 .../fields/prime_extension/fp6_2over3.tcc     | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..6b9d41f 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -382,5 +382,37 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s = 0;
+    in >> s;
+    consume_newline(in);
+
+    for (size_t i = 0; i < s && in; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        consume_OUTPUT_NEWLINE(in);
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 3731888840b9c47016fbbe3adcd95afc033ed9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 03/23] fix: consume all that vectors of extension field
 elements write

The reader left the newline after the last element in the stream (text mode),
so that whatever followed was misread; and it looped, and reserved memory,
for a length that was unset or wrong when the input had already failed.
---
 .../fields/prime_extension/fp12_2over3over2.tcc       | 11 ++++-------
 libff/algebra/fields/prime_extension/fp2.tcc          | 11 ++++-------
 libff/algebra/fields/prime_extension/fp3.tcc          | 11 ++++-------
 libff/algebra/fields/prime_extension/fp6_3over2.tcc   | 11 ++++-------
 4 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..fa30359 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -550,18 +550,15 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
+    consume_newline(in);
 
-    char b;
-    in.read(&b, 1);
-
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..a3f8931 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -293,18 +293,15 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
+    consume_newline(in);
 
-    char b;
-    in.read(&b, 1);
-
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..30b2ba3 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -295,18 +295,15 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
+    consume_newline(in);
 
-    char b;
-    in.read(&b, 1);
-
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..361c4b8 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -310,18 +310,15 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
+    consume_newline(in);
 
-    char b;
-    in.read(&b, 1);
-
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0


From b424d18b432bc3b10497e448e98d224cc5dbcfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 04/23] fix: reject unusable text when reading a bigint

Empty input made GMP read nothing at all, other characters were taken for
digits, and an over-long number overflowed the limbs of the bigint. A failed
read now sets failbit and leaves the object unchanged, in binary mode too.
---
 libff/algebra/field_utils/bigint.tcc | 38 ++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/libff/algebra/field_utils/bigint.tcc b/libff/algebra/field_utils/bigint.tcc
index 726ba00..be0d7d8 100755
--- a/libff/algebra/field_utils/bigint.tcc
+++ b/libff/algebra/field_utils/bigint.tcc
@@ -9,9 +9,11 @@
 
 #ifndef BIGINT_TCC_
 #define BIGINT_TCC_
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <random>
+#include <string>
 
 namespace libff {
 
@@ -226,30 +228,44 @@ std::ostream& operator<<(std::ostream &out, const bigint<n> &b)
 template<mp_size_t n>
 std::istream& operator>>(std::istream &in, bigint<n> &b)
 {
+    bigint<n> result;
 #ifdef BINARY_OUTPUT
-    in.read((char*)b.data, sizeof(b.data[0]) * n);
+    in.read((char*)result.data, sizeof(result.data[0]) * n);
 #else
     std::string s;
     in >> s;
 
-    size_t l = s.size();
-    unsigned char* s_copy = new unsigned char[l];
+    if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos)
+    {
+        in.setstate(std::ios_base::failbit);
+        return in;
+    }
+    s.erase(0, std::min(s.find_first_not_of('0'), s.size()));
 
-    for (size_t i = 0; i < l; ++i)
+    // 10^19 < 2^64 < 10^20
+    if (s.size() > 20 * size_t(n))
     {
-        assert(s[i] >= '0' && s[i] <= '9');
-        s_copy[i] = s[i] - '0';
+        in.setstate(std::ios_base::failbit);
+        return in;
     }
 
-    mp_size_t limbs_written = mpn_set_str(b.data, s_copy, l, 10);
-    assert(limbs_written <= n);
-    if (limbs_written < n)
+    for (char &c : s)
     {
-      memset(b.data + limbs_written, 0, (n - limbs_written) * sizeof(mp_limb_t));
+        c -= '0';
     }
 
-    delete[] s_copy;
+    mp_limb_t limbs[20 * 4 * n / GMP_NUMB_BITS + 2] = {0};
+    if (!s.empty() && mpn_set_str(limbs, (const unsigned char*)s.data(), s.size(), 10) > n)
+    {
+        in.setstate(std::ios_base::failbit);
+        return in;
+    }
+    mpn_copyi(result.data, limbs, n);
 #endif
+    if (in)
+    {
+        b = result;
+    }
     return in;
 }
 
-- 
2.43.0


From c14b925e8fbced84733887ee556b4ed95d3d6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 05/23] fix: reject residues that are not reduced when reading
 a prime field element

They broke the invariant that the representation is below the modulus: equal
elements compared different and arithmetic on them was wrong.
---
 libff/algebra/fields/prime_base/fp.tcc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 75304b0..69178dd 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -816,7 +816,18 @@ std::ostream& operator<<(std::ostream &out, const Fp_model<n, modulus> &p)
 template<mp_size_t n, const bigint<n>& modulus>
 std::istream& operator>>(std::istream &in, Fp_model<n, modulus> &p)
 {
-    in >> p.mont_repr;
+    bigint<n> repr;
+    in >> repr;
+    if (!in)
+    {
+        return in;
+    }
+    if (!(repr < modulus))
+    {
+        in.setstate(std::ios_base::failbit);
+        return in;
+    }
+    p.mont_repr = repr;
 #ifndef MONTGOMERY_OUTPUT
     p.mul_reduce(Fp_model<n,modulus>::Rsquared);
 #endif
-- 
2.43.0


From f01c9dab4b9239079f466a483e14b3fe0cce1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 06/23] fix: let from_words report values above the modulus
 without MONTGOMERY_OUTPUT

The documented result was computed after the reduction, hence always true.
---
 libff/algebra/fields/prime_base/fp.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 69178dd..24a9fdb 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -800,10 +800,11 @@ bool Fp_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::copy(words.begin() + start_word, words.end(), this->mont_repr.data);
     // Zero out the left-most bit_offset bits.
     this->mont_repr.data[n - 1] = mp_limb_t((uint64_t(this->mont_repr.data[n - 1]) << bit_offset) >> bit_offset);
+    const bool is_reduced = this->mont_repr < modulus;
 #ifndef MONTGOMERY_OUTPUT
     this->mul_reduce(Rsquared);
 #endif
-    return this->mont_repr < modulus;
+    return is_reduced;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From 3f0201dfc4ac19f37f7ed62382c07ac1fe9faf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 07/23] fix: stop reading containers when the input has failed

The length was read into an unset variable and the loops ran to its end
whatever happened to the stream: a truncated or damaged length kept the
reader busy, and allocating, for up to 2^64 elements.
---
 libff/common/serialization.tcc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index e00f2be..d0991da 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -55,7 +55,7 @@ inline void output_bool(std::ostream &out, const bool b)
 
 inline void input_bool(std::istream &in, bool &b)
 {
-    size_t tmp;
+    size_t tmp = 0;
     in >> tmp;
     consume_newline(in);
     assert(tmp == 0 || tmp == 1);
@@ -74,15 +74,15 @@ inline void output_bool_vector(std::ostream &out, const std::vector<bool> &v)
 
 inline void input_bool_vector(std::istream &in, std::vector<bool> &v)
 {
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
-    v.resize(size);
-    for (size_t i = 0; i < size; ++i)
+    v.clear();
+    for (size_t i = 0; i < size && in; ++i)
     {
         bool b;
         input_bool(in, b);
-        v[i] = b;
+        v.push_back(b);
     }
 }
 
@@ -113,12 +113,12 @@ template<typename T>
 std::istream& operator>>(std::istream& in, std::vector<T> &v)
 {
     static_assert(!std::is_same<T, bool>::value, "this does not work for std::vector<bool>");
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
     v.resize(0);
-    for (size_t i = 0; i < size; ++i)
+    for (size_t i = 0; i < size && in; ++i)
     {
         T elt;
         in >> elt;
@@ -147,11 +147,11 @@ template<typename T1, typename T2>
 std::istream& operator>>(std::istream& in, std::map<T1, T2> &m)
 {
     m.clear();
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
-    for (size_t i = 0; i < size; ++i)
+    for (size_t i = 0; i < size && in; ++i)
     {
         T1 k;
         T2 v;
@@ -183,11 +183,11 @@ template<typename T>
 std::istream& operator>>(std::istream& in, std::set<T> &s)
 {
     s.clear();
-    size_t size;
+    size_t size = 0;
     in >> size;
     consume_newline(in);
 
-    for (size_t i = 0; i < size; ++i)
+    for (size_t i = 0; i < size && in; ++i)
     {
         T el;
         in >> el;
-- 
2.43.0


From 25ff7403ed52a7080b2a3d89a6d64190b24852f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 08/23] fix: read bit vectors to the end of what was written

The last newline was left in the stream, where the next reader of binary data
took it for its first byte; and a failed read was followed by a resize to,
and a loop over, an unset length.
---
 libff/common/utils.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..d7436c9 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -11,6 +11,7 @@
 #include <cstdarg>
 #include <cstdint>
 
+#include <libff/common/serialization.hpp>
 #include <libff/common/utils.hpp>
 
 namespace libff {
@@ -137,14 +138,16 @@ void serialize_bit_vector(std::ostream &out, const bit_vector &v)
 
 void deserialize_bit_vector(std::istream &in, bit_vector &v)
 {
-    size_t size;
+    size_t size = 0;
     in >> size;
-    v.resize(size);
-    for (size_t i = 0; i < size; ++i)
+    consume_newline(in);
+    v.clear();
+    for (size_t i = 0; i < size && in; ++i)
     {
-        bool b;
+        bool b = false;
         in >> b;
-        v[i] = b;
+        consume_newline(in);
+        v.push_back(b);
     }
 }
 
-- 
2.43.0


From 76ca61fcd1080f7b508dc1e273f4a24589c783dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:58 +0000
Subject: [PATCH 09/23] fix: fail instead of looping when decompressing what is
 not a point

A truncated or damaged first coordinate is not the coordinate of a point half
of the time. The square root then never terminated, and after a failed read
it was taken of unset memory. The readers now set failbit.
---
 libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp  | 16 ++++++++++++++++
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp  | 16 ++++++++++++++++
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp  | 16 ++++++++++++++++
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp  | 16 ++++++++++++++++
 libff/algebra/curves/edwards/edwards_g1.cpp      | 16 ++++++++++++++++
 libff/algebra/curves/edwards/edwards_g2.cpp      | 16 ++++++++++++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp        | 16 ++++++++++++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp        | 16 ++++++++++++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp        | 16 ++++++++++++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp        | 16 ++++++++++++++++
 libff/algebra/field_utils/algorithms.tcc         |  9 +++++++--
 libff/algebra/fields/field.hpp                   |  2 +-
 libff/algebra/fields/fpn_field.hpp               |  2 +-
 libff/algebra/fields/prime_base/fp.hpp           |  2 +-
 .../fields/prime_extension/fp12_2over3over2.hpp  |  2 +-
 libff/algebra/fields/prime_extension/fp2.hpp     |  2 +-
 libff/algebra/fields/prime_extension/fp3.hpp     |  2 +-
 libff/algebra/fields/prime_extension/fp4.hpp     |  2 +-
 .../fields/prime_extension/fp6_2over3.hpp        |  2 +-
 .../fields/prime_extension/fp6_3over2.hpp        |  2 +-
 20 files changed, 176 insertions(+), 11 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
index 4811e9d..6542144 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
@@ -388,6 +388,11 @@ std::istream& operator>>(std::istream &in, alt_bn128_G1 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -399,12 +404,23 @@ std::istream& operator>>(std::istream &in, alt_bn128_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
         alt_bn128_Fq tX2 = tX.squared();
         alt_bn128_Fq tY2 = tX2*tX + alt_bn128_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..0478428 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -403,6 +403,11 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -414,12 +419,23 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
         alt_bn128_Fq2 tX2 = tX.squared();
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index e90c9c2..3f95f81 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -372,6 +372,11 @@ std::istream& operator>>(std::istream &in, bls12_381_G1 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -383,12 +388,23 @@ std::istream& operator>>(std::istream &in, bls12_381_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
         bls12_381_Fq tX2 = tX.squared();
         bls12_381_Fq tY2 = tX2*tX + bls12_381_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..88d83ba 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -389,6 +389,11 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -400,12 +405,23 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + b)
     if (is_zero == 0)
     {
         bls12_381_Fq2 tX2 = tX.squared();
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/edwards/edwards_g1.cpp b/libff/algebra/curves/edwards/edwards_g1.cpp
index 3a500b9..82de6fc 100755
--- a/libff/algebra/curves/edwards/edwards_g1.cpp
+++ b/libff/algebra/curves/edwards/edwards_g1.cpp
@@ -322,6 +322,11 @@ std::istream& operator>>(std::istream &in, edwards_G1 &g)
     in >> tX;
     consume_OUTPUT_SEPARATOR(in);
     in >> tY;
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     /*
       a x^2 + y^2 = 1 + d x^2 y^2
@@ -334,10 +339,21 @@ std::istream& operator>>(std::istream &in, edwards_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     edwards_Fq tX2 = tX.squared();
     edwards_Fq tY2 = (edwards_Fq::one() - tX2) * // a = 1 for G1 (not a twist)
         (edwards_Fq::one() - edwards_coeff_d * tX2).inverse();
     tY = tY2.sqrt();
+    if (tY.squared() != tY2)
+    {
+        // not the first coordinate of a point
+        in.setstate(std::ios_base::failbit);
+        return in;
+    }
 
     if ((tY.as_bigint().data[0] & 1) != Y_lsb)
     {
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..c42dcbc 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -351,6 +351,11 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
     in >> tX;
     consume_OUTPUT_SEPARATOR(in);
     in >> tY;
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     /*
       a x^2 + y^2 = 1 + d x^2 y^2
@@ -363,11 +368,22 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     edwards_Fq3 tX2 = tX.squared();
     const edwards_Fq3 tY2 =
         (edwards_Fq3::one() - edwards_G2::mul_by_a(tX2)) *
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
+    if (tY.squared() != tY2)
+    {
+        // not the first coordinate of a point
+        in.setstate(std::ios_base::failbit);
+        return in;
+    }
 
     if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
     {
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index e0d3123..f11b7e2 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -417,6 +417,11 @@ std::istream& operator>>(std::istream &in, mnt4_G1 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1);
     is_zero -= '0';
@@ -428,12 +433,23 @@ std::istream& operator>>(std::istream &in, mnt4_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
         mnt4_Fq tX2 = tX.squared();
         mnt4_Fq tY2 = (tX2 + mnt4_G1::coeff_a) * tX + mnt4_G1::coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..4ad8102 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -440,6 +440,11 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -451,12 +456,23 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
         mnt4_Fq2 tX2 = tX.squared();
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index d5a3640..1f0fd52 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -417,6 +417,11 @@ std::istream& operator>>(std::istream &in, mnt6_G1 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -428,12 +433,23 @@ std::istream& operator>>(std::istream &in, mnt6_G1 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
         mnt6_Fq tX2 = tX.squared();
         mnt6_Fq tY2 = (tX2 + mnt6_G1::coeff_a) * tX + mnt6_G1::coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..2048b38 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -446,6 +446,11 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
 #ifdef NO_PT_COMPRESSION
     in >> is_zero >> tX >> tY;
     is_zero -= '0';
+
+    if (!in)
+    {
+        return in;
+    }
 #else
     in.read((char*)&is_zero, 1); // this reads is_zero;
     is_zero -= '0';
@@ -457,12 +462,23 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
     in.read((char*)&Y_lsb, 1);
     Y_lsb -= '0';
 
+    if (!in)
+    {
+        return in;
+    }
+
     // y = +/- sqrt(x^3 + a*x + b)
     if (is_zero == 0)
     {
         const mnt6_Fq3 tX2 = tX.squared();
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
+        if (tY.squared() != tY2)
+        {
+            // not the first coordinate of a point
+            in.setstate(std::ios_base::failbit);
+            return in;
+        }
 
         if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
         {
diff --git a/libff/algebra/field_utils/algorithms.tcc b/libff/algebra/field_utils/algorithms.tcc
index 0109a00..aea986c 100755
--- a/libff/algebra/field_utils/algorithms.tcc
+++ b/libff/algebra/field_utils/algorithms.tcc
@@ -131,19 +131,24 @@ FieldT tonelli_shanks_sqrt(const FieldT &value)
 #endif
 
     // compute square root with Tonelli--Shanks
-    // (does not terminate if not a square!)
+    // (returns zero if not a square)
 
     while (b != one)
     {
         size_t m = 0;
         FieldT b2m = b;
-        while (b2m != one)
+        while (b2m != one && m < v)
         {
             /* invariant: b2m = b^(2^m) after entering this loop */
             b2m = b2m.squared();
             m += 1;
         }
 
+        if (m == v)
+        {
+            return FieldT::zero();
+        }
+
         int j = v-m-1;
         w = z;
         while (j > 0)
diff --git a/libff/algebra/fields/field.hpp b/libff/algebra/fields/field.hpp
index 1e8b675..ff87162 100644
--- a/libff/algebra/fields/field.hpp
+++ b/libff/algebra/fields/field.hpp
@@ -55,7 +55,7 @@ public:
 
     virtual T squared() const;
     virtual T inverse() const;
-    /** HAS TO BE A SQUARE (else does not terminate). */
+    /** HAS TO BE A SQUARE (else returns zero). */
     virtual T sqrt() const = 0;
 
     virtual T operator^(const unsigned long pow) const;
diff --git a/libff/algebra/fields/fpn_field.hpp b/libff/algebra/fields/fpn_field.hpp
index 9628d80..f020161 100644
--- a/libff/algebra/fields/fpn_field.hpp
+++ b/libff/algebra/fields/fpn_field.hpp
@@ -78,7 +78,7 @@ public:
 
     virtual T squared() const;
     virtual T inverse() const;
-    /** HAS TO BE A SQUARE (else does not terminate). */
+    /** HAS TO BE A SQUARE (else returns zero). */
     virtual T sqrt() const = 0;
 
     bool operator==(const T& other) const = 0;
diff --git a/libff/algebra/fields/prime_base/fp.hpp b/libff/algebra/fields/prime_base/fp.hpp
index e30210c..f9685b3 100755
--- a/libff/algebra/fields/prime_base/fp.hpp
+++ b/libff/algebra/fields/prime_base/fp.hpp
@@ -123,7 +123,7 @@ public:
     Fp_model& invert();
     Fp_model inverse() const;
     Fp_model Frobenius_map(unsigned long power) const;
-    Fp_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     static std::size_t ceil_size_in_bits() { return num_bits; }
     static std::size_t floor_size_in_bits() { return num_bits - 1; }
diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.hpp b/libff/algebra/fields/prime_extension/fp12_2over3over2.hpp
index 01daed4..85eb10c 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.hpp
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.hpp
@@ -107,7 +107,7 @@ public:
     Fp12_2over3over2_model Frobenius_map(unsigned long power) const;
     Fp12_2over3over2_model unitary_inverse() const;
     Fp12_2over3over2_model cyclotomic_squared() const;
-    Fp12_2over3over2_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp12_2over3over2_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     Fp12_2over3over2_model mul_by_024(const my_Fp2 &ell_0, const my_Fp2 &ell_VW, const my_Fp2 &ell_VV) const;
     Fp12_2over3over2_model mul_by_045(const my_Fp2 &ell_0, const my_Fp2 &ell_VW, const my_Fp2 &ell_VV) const;
diff --git a/libff/algebra/fields/prime_extension/fp2.hpp b/libff/algebra/fields/prime_extension/fp2.hpp
index f8b6151..e6d2c8d 100755
--- a/libff/algebra/fields/prime_extension/fp2.hpp
+++ b/libff/algebra/fields/prime_extension/fp2.hpp
@@ -97,7 +97,7 @@ public:
     Fp2_model& invert();
     Fp2_model inverse() const;
     Fp2_model Frobenius_map(unsigned long power) const;
-    Fp2_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp2_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
     Fp2_model squared_karatsuba() const;
     Fp2_model squared_complex() const;
 
diff --git a/libff/algebra/fields/prime_extension/fp3.hpp b/libff/algebra/fields/prime_extension/fp3.hpp
index 0df80ca..2247839 100755
--- a/libff/algebra/fields/prime_extension/fp3.hpp
+++ b/libff/algebra/fields/prime_extension/fp3.hpp
@@ -98,7 +98,7 @@ public:
     Fp3_model& invert();
     Fp3_model inverse() const;
     Fp3_model Frobenius_map(unsigned long power) const;
-    Fp3_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp3_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     static std::size_t ceil_size_in_bits() { return 3 * my_Fp::ceil_size_in_bits(); }
     static std::size_t floor_size_in_bits() { return 3 * my_Fp::floor_size_in_bits(); }
diff --git a/libff/algebra/fields/prime_extension/fp4.hpp b/libff/algebra/fields/prime_extension/fp4.hpp
index fd1ba51..79a2cab 100755
--- a/libff/algebra/fields/prime_extension/fp4.hpp
+++ b/libff/algebra/fields/prime_extension/fp4.hpp
@@ -102,7 +102,7 @@ public:
     Fp4_model Frobenius_map(unsigned long power) const;
     Fp4_model unitary_inverse() const;
     Fp4_model cyclotomic_squared() const;
-    Fp4_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp4_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     static my_Fp2 mul_by_non_residue(const my_Fp2 &elt);
 
diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.hpp b/libff/algebra/fields/prime_extension/fp6_2over3.hpp
index 417d6af..9a65eeb 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.hpp
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.hpp
@@ -105,7 +105,7 @@ public:
     Fp6_2over3_model Frobenius_map(unsigned long power) const;
     Fp6_2over3_model unitary_inverse() const;
     Fp6_2over3_model cyclotomic_squared() const;
-    Fp6_2over3_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp6_2over3_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     static my_Fp3 mul_by_non_residue(const my_Fp3 &elem);
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.hpp b/libff/algebra/fields/prime_extension/fp6_3over2.hpp
index e7aa149..933c02c 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.hpp
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.hpp
@@ -100,7 +100,7 @@ public:
     Fp6_3over2_model& invert();
     Fp6_3over2_model inverse() const;
     Fp6_3over2_model Frobenius_map(unsigned long power) const;
-    Fp6_3over2_model sqrt() const; // HAS TO BE A SQUARE (else does not terminate)
+    Fp6_3over2_model sqrt() const; // HAS TO BE A SQUARE (else returns zero)
 
     static my_Fp2 mul_by_non_residue(const my_Fp2 &elt);
 
-- 
2.43.0


From 9c1e6a7dbf6c3501e729494eb4c23a9afdeb705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 10/23] fix: stop reading points and precomputations when the
 input has failed

---
 libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp      |  6 ++----
 libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp |  6 ++----
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp      |  6 ++----
 libff/algebra/curves/bls12_381/bls12_381_pairing.cpp |  6 ++----
 libff/algebra/curves/edwards/edwards_g1.cpp          |  5 ++---
 libff/algebra/curves/edwards/edwards_pairing.cpp     | 12 ++++--------
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp            |  6 ++----
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp       | 12 ++++--------
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp            |  6 ++----
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp       | 12 ++++--------
 10 files changed, 26 insertions(+), 51 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
index 6542144..89dcee3 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g1.cpp
@@ -458,13 +458,11 @@ std::istream& operator>>(std::istream& in, std::vector<alt_bn128_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         alt_bn128_G1 g;
         in >> g;
diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index eb368fd..482ddd2 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -89,14 +89,12 @@ std::istream& operator>>(std::istream& in, alt_bn128_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.coeffs.clear();
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
 
-    prec_Q.coeffs.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         alt_bn128_ate_ell_coeffs c;
         in >> c;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index 3f95f81..778613b 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -442,13 +442,11 @@ std::istream& operator>>(std::istream& in, std::vector<bls12_381_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         bls12_381_G1 g;
         in >> g;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index 20b7cde..8e18fc7 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -90,14 +90,12 @@ std::istream& operator>>(std::istream& in, bls12_381_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.coeffs.clear();
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
 
-    prec_Q.coeffs.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         bls12_381_ate_ell_coeffs c;
         in >> c;
diff --git a/libff/algebra/curves/edwards/edwards_g1.cpp b/libff/algebra/curves/edwards/edwards_g1.cpp
index 82de6fc..397a4ae 100755
--- a/libff/algebra/curves/edwards/edwards_g1.cpp
+++ b/libff/algebra/curves/edwards/edwards_g1.cpp
@@ -388,12 +388,11 @@ std::istream& operator>>(std::istream& in, std::vector<edwards_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
-    v.reserve(s);
     consume_newline(in);
 
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         edwards_G1 g;
         in >> g;
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 537c33d..f8181d7 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -55,13 +55,11 @@ std::istream& operator>>(std::istream& in, edwards_tate_G1_precomp &prec_P)
 {
     prec_P.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
-    prec_P.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         edwards_Fq_conic_coefficients cc;
         in >> cc;
@@ -130,14 +128,12 @@ std::istream& operator>>(std::istream& in, edwards_ate_G2_precomp &prec_Q)
 {
     prec_Q.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
 
-    prec_Q.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         edwards_Fq3_conic_coefficients cc;
         in >> cc;
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index f11b7e2..6009340 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -487,14 +487,12 @@ std::istream& operator>>(std::istream& in, std::vector<mnt4_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
 
     consume_newline(in);
 
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         mnt4_G1 g;
         in >> g;
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 53c936e..c251bf0 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -145,13 +145,11 @@ std::istream& operator>>(std::istream& in, mnt4_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.dbl_coeffs.clear();
-    size_t dbl_s;
+    size_t dbl_s = 0;
     in >> dbl_s;
     consume_newline(in);
 
-    prec_Q.dbl_coeffs.reserve(dbl_s);
-
-    for (size_t i = 0; i < dbl_s; ++i)
+    for (size_t i = 0; i < dbl_s && in; ++i)
     {
         mnt4_ate_dbl_coeffs dc;
         in >> dc;
@@ -160,13 +158,11 @@ std::istream& operator>>(std::istream& in, mnt4_ate_G2_precomp &prec_Q)
     }
 
     prec_Q.add_coeffs.clear();
-    size_t add_s;
+    size_t add_s = 0;
     in >> add_s;
     consume_newline(in);
 
-    prec_Q.add_coeffs.reserve(add_s);
-
-    for (size_t i = 0; i < add_s; ++i)
+    for (size_t i = 0; i < add_s && in; ++i)
     {
         mnt4_ate_add_coeffs ac;
         in >> ac;
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index 1f0fd52..c9d647f 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -487,13 +487,11 @@ std::istream& operator>>(std::istream& in, std::vector<mnt6_G1> &v)
 {
     v.clear();
 
-    size_t s;
+    size_t s = 0;
     in >> s;
     consume_newline(in);
 
-    v.reserve(s);
-
-    for (size_t i = 0; i < s; ++i)
+    for (size_t i = 0; i < s && in; ++i)
     {
         mnt6_G1 g;
         in >> g;
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..6e91dd2 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -147,13 +147,11 @@ std::istream& operator>>(std::istream& in, mnt6_ate_G2_precomp &prec_Q)
     consume_newline(in);
 
     prec_Q.dbl_coeffs.clear();
-    size_t dbl_s;
+    size_t dbl_s = 0;
     in >> dbl_s;
     consume_newline(in);
 
-    prec_Q.dbl_coeffs.reserve(dbl_s);
-
-    for (size_t i = 0; i < dbl_s; ++i)
+    for (size_t i = 0; i < dbl_s && in; ++i)
     {
         mnt6_ate_dbl_coeffs dc;
         in >> dc;
@@ -162,13 +160,11 @@ std::istream& operator>>(std::istream& in, mnt6_ate_G2_precomp &prec_Q)
     }
 
     prec_Q.add_coeffs.clear();
-    size_t add_s;
+    size_t add_s = 0;
     in >> add_s;
     consume_newline(in);
 
-    prec_Q.add_coeffs.reserve(add_s);
-
-    for (size_t i = 0; i < add_s; ++i)
+    for (size_t i = 0; i < add_s && in; ++i)
     {
         mnt6_ate_add_coeffs ac;
         in >> ac;
-- 
2.43.0


From 9d9bcc5d4d9d14a5cea7c8513a153d2c8918aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 11/23] fix: guard the profiling records against concurrent
 enter_block/leave_block

In the MULTICORE build only the printing was in a critical section; the maps,
the list of open blocks and the indentation were updated by all threads at once
(multi-exponentiations, batch normalisations and pairings enter blocks).
---
 libff/common/profiling.cpp | 65 ++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index dcf41c7..93fcf8c 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -8,11 +8,15 @@
  *             and contributors (see AUTHORS).
  * @copyright  MIT license (see LICENSE file)
  *****************************************************************************/
+#include <atomic>
 #include <cassert>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
 #include <list>
+#ifdef MULTICORE
+#include <mutex>
+#endif
 #include <stdexcept>
 #include <vector>
 
@@ -71,7 +75,7 @@ std::map<std::string, long long> last_cpu_times;
 std::map<std::pair<std::string, std::string>, long long> op_counts;
 std::map<std::pair<std::string, std::string>, long long> cumulative_op_counts; // ((msg, data_point), value)
     // TODO: Convert op_counts and cumulative_op_counts from pair to structs
-size_t indentation = 0;
+std::atomic<size_t> indentation(0);
 
 std::vector<std::string> block_names;
 
@@ -247,6 +251,11 @@ void op_profiling_enter(const std::string &msg)
     }
 }
 
+#ifdef MULTICORE
+/* Guards the records above: blocks are entered and left by concurrent threads. */
+static std::mutex records_mutex;
+#endif
+
 void enter_block(const std::string &msg, const bool indent)
 {
     if (inhibit_profiling_counters)
@@ -254,6 +263,10 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
+#ifdef MULTICORE
+    const std::lock_guard<std::mutex> lock(records_mutex);
+#endif
+
     block_names.emplace_back(msg);
     long long t = get_nsec_time();
     enter_times[msg] = t;
@@ -265,22 +278,17 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
-#ifdef MULTICORE
-#pragma omp critical
-#endif
-    {
-        op_profiling_enter(msg);
+    op_profiling_enter(msg);
 
-        print_indent();
-        printf("(enter) %-35s\t", msg.c_str());
-        print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-        printf("\n");
-        fflush(stdout);
+    print_indent();
+    printf("(enter) %-35s\t", msg.c_str());
+    print_times_from_last_and_start(t, t, cpu_t, cpu_t);
+    printf("\n");
+    fflush(stdout);
 
-        if (indent)
-        {
-            ++indentation;
-        }
+    if (indent)
+    {
+        ++indentation;
     }
 }
 
@@ -291,7 +299,9 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
-#ifndef MULTICORE
+#ifdef MULTICORE
+    const std::lock_guard<std::mutex> lock(records_mutex);
+#else
     assert(*(--block_names.end()) == msg);
 #endif
     block_names.pop_back();
@@ -317,22 +327,17 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
-#ifdef MULTICORE
-#pragma omp critical
-#endif
+    if (indent)
     {
-        if (indent)
-        {
-            --indentation;
-        }
-
-        print_indent();
-        printf("(leave) %-35s\t", msg.c_str());
-        print_times_from_last_and_start(t, enter_times[msg], cpu_t, enter_cpu_times[msg]);
-        print_op_profiling(msg);
-        printf("\n");
-        fflush(stdout);
+        --indentation;
     }
+
+    print_indent();
+    printf("(leave) %-35s\t", msg.c_str());
+    print_times_from_last_and_start(t, enter_times[msg], cpu_t, enter_cpu_times[msg]);
+    print_op_profiling(msg);
+    printf("\n");
+    fflush(stdout);
 }
 
 void print_mem(const std::string &s)
-- 
2.43.0


From 1885babfa13421489f619429f41116b23053c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 12/23] fix: define the operation counters of the binary fields
 once, so that PROFILE_OP_COUNTS links

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf128.hpp | 8 --------
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.hpp | 8 --------
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.hpp | 8 --------
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf32.hpp  | 8 --------
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.hpp  | 8 --------
 10 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index c70a1b0..f283cd6 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf128::add_cnt = 0;
+long long gf128::sub_cnt = 0;
+long long gf128::mul_cnt = 0;
+long long gf128::sqr_cnt = 0;
+long long gf128::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf128::modulus_;
diff --git a/libff/algebra/fields/binary/gf128.hpp b/libff/algebra/fields/binary/gf128.hpp
index 7b50aa6..aed94ab 100644
--- a/libff/algebra/fields/binary/gf128.hpp
+++ b/libff/algebra/fields/binary/gf128.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[2];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf128::add_cnt = 0;
-long long gf128::sub_cnt = 0;
-long long gf128::mul_cnt = 0;
-long long gf128::sqr_cnt = 0;
-long long gf128::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf128.tcc>
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index fe52cf0..e047482 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf192::add_cnt = 0;
+long long gf192::sub_cnt = 0;
+long long gf192::mul_cnt = 0;
+long long gf192::sqr_cnt = 0;
+long long gf192::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf192::modulus_;
diff --git a/libff/algebra/fields/binary/gf192.hpp b/libff/algebra/fields/binary/gf192.hpp
index d6d4069..23465cb 100644
--- a/libff/algebra/fields/binary/gf192.hpp
+++ b/libff/algebra/fields/binary/gf192.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[3];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf192::add_cnt = 0;
-long long gf192::sub_cnt = 0;
-long long gf192::mul_cnt = 0;
-long long gf192::sqr_cnt = 0;
-long long gf192::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf192.tcc>
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 5248da6..bc27421 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf256::add_cnt = 0;
+long long gf256::sub_cnt = 0;
+long long gf256::mul_cnt = 0;
+long long gf256::sqr_cnt = 0;
+long long gf256::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf256::modulus_;
diff --git a/libff/algebra/fields/binary/gf256.hpp b/libff/algebra/fields/binary/gf256.hpp
index 48fcc8a..cbcdd78 100644
--- a/libff/algebra/fields/binary/gf256.hpp
+++ b/libff/algebra/fields/binary/gf256.hpp
@@ -101,14 +101,6 @@ private:
     uint64_t value_[4];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf256::add_cnt = 0;
-long long gf256::sub_cnt = 0;
-long long gf256::mul_cnt = 0;
-long long gf256::sqr_cnt = 0;
-long long gf256::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf256.tcc>
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index 6404701..4c2a498 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf32::add_cnt = 0;
+long long gf32::sub_cnt = 0;
+long long gf32::mul_cnt = 0;
+long long gf32::sqr_cnt = 0;
+long long gf32::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf32::modulus_;
diff --git a/libff/algebra/fields/binary/gf32.hpp b/libff/algebra/fields/binary/gf32.hpp
index 3ad888a..cd10e26 100644
--- a/libff/algebra/fields/binary/gf32.hpp
+++ b/libff/algebra/fields/binary/gf32.hpp
@@ -95,14 +95,6 @@ private:
     uint32_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf32::add_cnt = 0;
-long long gf32::sub_cnt = 0;
-long long gf32::mul_cnt = 0;
-long long gf32::sqr_cnt = 0;
-long long gf32::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf32.tcc>
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index a9efc60..c89e8ab 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf64::add_cnt = 0;
+long long gf64::sub_cnt = 0;
+long long gf64::mul_cnt = 0;
+long long gf64::sqr_cnt = 0;
+long long gf64::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf64::modulus_;
diff --git a/libff/algebra/fields/binary/gf64.hpp b/libff/algebra/fields/binary/gf64.hpp
index 497b7a5..85f112a 100644
--- a/libff/algebra/fields/binary/gf64.hpp
+++ b/libff/algebra/fields/binary/gf64.hpp
@@ -96,14 +96,6 @@ private:
     uint64_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf64::add_cnt = 0;
-long long gf64::sub_cnt = 0;
-long long gf64::mul_cnt = 0;
-long long gf64::sqr_cnt = 0;
-long long gf64::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf64.tcc>
 
-- 
2.43.0


From 417b9e0363f8d0f51b3d27dcb56441a2ebac92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 13/23] fix: measure durations with a clock that is never set
 back

---
 libff/common/profiling.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 93fcf8c..5b5e729 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -34,7 +34,7 @@ using std::size_t;
 
 long long get_nsec_time()
 {
-    auto timepoint = std::chrono::high_resolution_clock::now();
+    auto timepoint = std::chrono::steady_clock::now();
     return std::chrono::duration_cast<std::chrono::nanoseconds>(timepoint.time_since_epoch()).count();
 }
 
-- 
2.43.0


From 4de8a74a1ac6461693d3aa95f9e9ac5b70bceece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 14/23] fix: track nesting and operation counts of blocks also
 while output is inhibited

---
 libff/common/profiling.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 5b5e729..4d7a35d 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -273,18 +273,16 @@ void enter_block(const std::string &msg, const bool indent)
     long long cpu_t = get_nsec_cpu_time();
     enter_cpu_times[msg] = cpu_t;
 
-    if (inhibit_profiling_info)
-    {
-        return;
-    }
-
     op_profiling_enter(msg);
 
-    print_indent();
-    printf("(enter) %-35s\t", msg.c_str());
-    print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-    printf("\n");
-    fflush(stdout);
+    if (!inhibit_profiling_info)
+    {
+        print_indent();
+        printf("(enter) %-35s\t", msg.c_str());
+        print_times_from_last_and_start(t, t, cpu_t, cpu_t);
+        printf("\n");
+        fflush(stdout);
+    }
 
     if (indent)
     {
@@ -322,14 +320,14 @@ void leave_block(const std::string &msg, const bool indent)
     }
 #endif
 
-    if (inhibit_profiling_info)
+    if (indent)
     {
-        return;
+        --indentation;
     }
 
-    if (indent)
+    if (inhibit_profiling_info)
     {
-        --indentation;
+        return;
     }
 
     print_indent();
-- 
2.43.0


From ee3c9fa5d1ec1a7645bf51848b3806f143116e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 15/23] fix: clear the cumulative operation counts with the
 other counters

---
 libff/common/profiling.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 4d7a35d..60a05dc 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -105,6 +105,7 @@ void clear_profiling_counters()
     last_times.clear();
     last_cpu_times.clear();
     cumulative_times.clear();
+    cumulative_op_counts.clear();
 }
 
 void print_cumulative_time_entry(const std::string &key, const long long factor)
-- 
2.43.0


From fe326502c3130e89b824ea9feb3cb09696f75ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 16/23] fix: leave the profiling records as they were when a
 clock cannot be read

---
 libff/common/profiling.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 60a05dc..24d83a0 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -268,10 +268,11 @@ void enter_block(const std::string &msg, const bool indent)
     const std::lock_guard<std::mutex> lock(records_mutex);
 #endif
 
-    block_names.emplace_back(msg);
     long long t = get_nsec_time();
-    enter_times[msg] = t;
     long long cpu_t = get_nsec_cpu_time();
+
+    block_names.emplace_back(msg);
+    enter_times[msg] = t;
     enter_cpu_times[msg] = cpu_t;
 
     op_profiling_enter(msg);
@@ -303,15 +304,15 @@ void leave_block(const std::string &msg, const bool indent)
 #else
     assert(*(--block_names.end()) == msg);
 #endif
+    long long t = get_nsec_time();
+    long long cpu_t = get_nsec_cpu_time();
+
     block_names.pop_back();
 
     ++invocation_counts[msg];
 
-    long long t = get_nsec_time();
     last_times[msg] = (t - enter_times[msg]);
     cumulative_times[msg] += (t - enter_times[msg]);
-
-    long long cpu_t = get_nsec_cpu_time();
     last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
 
 #ifdef PROFILE_OP_COUNTS
-- 
2.43.0


From 741648dac43dcac3e8f6fe3b143339c9d1cba4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 17/23] fix: declare the vector extraction operator on an input
 stream

With the declaration on std::ostream, extracting a vector from a
std::stringstream, and so reserialize of a vector, was ambiguous.
---
 libff/common/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/serialization.hpp b/libff/common/serialization.hpp
index dbe4a51..8db2e79 100755
--- a/libff/common/serialization.hpp
+++ b/libff/common/serialization.hpp
@@ -82,7 +82,7 @@ template<typename T>
 std::ostream& operator<<(std::ostream& out, const std::vector<T> &v);
 
 template<typename T>
-std::istream& operator>>(std::ostream& out, std::vector<T> &v);
+std::istream& operator>>(std::istream& in, std::vector<T> &v);
 
 template<typename T1, typename T2>
 std::ostream& operator<<(std::ostream& out, const std::map<T1, T2> &m);
-- 
2.43.0


From 7eeefa0d18005a3f0352d5c770da82e23a671e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 18/23] fix: reserialize reports a failed stream

When its stream failed (an allocation failure inside it, say), reserialize
returned whatever the reader had left in the object.
---
 libff/common/serialization.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index d0991da..75a5774 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -13,6 +13,7 @@
 
 #include <cassert>
 #include <sstream>
+#include <stdexcept>
 
 #include <libff/common/utils.hpp>
 
@@ -93,6 +94,10 @@ T reserialize(const T &obj)
     ss << obj;
     T tmp;
     ss >> tmp;
+    if (!ss)
+    {
+        throw std::runtime_error("libff: could not reserialize an object");
+    }
     return tmp;
 }
 
-- 
2.43.0


From 19b2bf385454abc3ad963c24d34a7c702dff4708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 19/23] fix: carry exceptions out of parallel loops instead of
 ending the process

---
 .../scalar_multiplication/multiexp.tcc        | 64 ++++++++++++++-----
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index 5b9d8fb..d29c052 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <exception>
 #include <type_traits>
 
 #include <libff/algebra/field_utils/bigint.hpp>
@@ -102,6 +103,48 @@ public:
     }
 };
 
+/**
+ * Calls body(0), ..., body(n-1), concurrently in the MULTICORE build.
+ * An exception that left a parallel region would end the process, so the first
+ * one is kept and thrown again after the region.
+ */
+template<typename Body>
+void parallel_for(const size_t n, const Body &body)
+{
+#ifdef MULTICORE
+    std::exception_ptr failure;
+
+#pragma omp parallel for
+    for (size_t i = 0; i < n; ++i)
+    {
+        try
+        {
+            body(i);
+        }
+        catch (...)
+        {
+#pragma omp critical(libff_parallel_for)
+            {
+                if (!failure)
+                {
+                    failure = std::current_exception();
+                }
+            }
+        }
+    }
+
+    if (failure)
+    {
+        std::rethrow_exception(failure);
+    }
+#else
+    for (size_t i = 0; i < n; ++i)
+    {
+        body(i);
+    }
+#endif
+}
+
 /**
  * multi_exp_inner<T, FieldT, Method>() implementes the specified
  * multiexponentiation method.
@@ -416,17 +459,14 @@ T multi_exp(typename std::vector<T>::const_iterator vec_start,
 
     std::vector<T> partial(chunks, T::zero());
 
-#ifdef MULTICORE
-#pragma omp parallel for
-#endif
-    for (size_t i = 0; i < chunks; ++i)
+    parallel_for(chunks, [&](const size_t i)
     {
         partial[i] = multi_exp_inner<T, FieldT, Method>(
              vec_start + i*one,
              (i == chunks-1 ? vec_end : vec_start + (i+1)*one),
              scalar_start + i*one,
              (i == chunks-1 ? scalar_end : scalar_start + (i+1)*one));
-    }
+    });
 
     T final = T::zero();
 
@@ -629,10 +669,7 @@ std::vector<T> batch_exp(const size_t scalar_size,
     }
     std::vector<T> res(v.size(), table[0][0]);
 
-#ifdef MULTICORE
-#pragma omp parallel for
-#endif
-    for (size_t i = 0; i < v.size(); ++i)
+    parallel_for(v.size(), [&](const size_t i)
     {
         res[i] = windowed_exp(scalar_size, window, table, v[i]);
 
@@ -641,7 +678,7 @@ std::vector<T> batch_exp(const size_t scalar_size,
             printf(".");
             fflush(stdout);
         }
-    }
+    });
 
     if (!inhibit_profiling_info)
     {
@@ -664,10 +701,7 @@ std::vector<T> batch_exp_with_coeff(const size_t scalar_size,
     }
     std::vector<T> res(v.size(), table[0][0]);
 
-#ifdef MULTICORE
-#pragma omp parallel for
-#endif
-    for (size_t i = 0; i < v.size(); ++i)
+    parallel_for(v.size(), [&](const size_t i)
     {
         res[i] = windowed_exp(scalar_size, window, table, coeff * v[i]);
 
@@ -676,7 +710,7 @@ std::vector<T> batch_exp_with_coeff(const size_t scalar_size,
             printf(".");
             fflush(stdout);
         }
-    }
+    });
 
     if (!inhibit_profiling_info)
     {
-- 
2.43.0


From 68172e1b7a434222e74c5569f866a2b5fd24f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 20/23] fix: let the invariant checks of the extended points
 compile when assertions are on

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 4 ++--
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp   | 2 +-
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index f8181d7..3fdfb89 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -242,7 +242,7 @@ struct extended_edwards_G1_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T*Z == X*Y);
     }
@@ -460,7 +460,7 @@ struct extended_edwards_G2_projective {
             T.print();
         }
 
-    static void test_invariant()
+    void test_invariant() const
         {
             assert(T*Z == X*Y);
         }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index c251bf0..9ba3220 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -399,7 +399,7 @@ struct extended_mnt4_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 6e91dd2..d347e5a 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -405,7 +405,7 @@ struct extended_mnt6_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
-- 
2.43.0


From 317e883c9e8640c3ce2ede71639db5ac1db5bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 21/23] fix: let sqrt return zero for non-squares in DEBUG
 builds too, so that damaged points are rejected

---
 libff/algebra/field_utils/algorithms.tcc | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/libff/algebra/field_utils/algorithms.tcc b/libff/algebra/field_utils/algorithms.tcc
index aea986c..6e89723 100755
--- a/libff/algebra/field_utils/algorithms.tcc
+++ b/libff/algebra/field_utils/algorithms.tcc
@@ -120,16 +120,6 @@ FieldT tonelli_shanks_sqrt(const FieldT &value)
     FieldT x = value * w;
     FieldT b = x * w; // b = value^t
 
-#if DEBUG
-    // check if square with euler's criterion
-    FieldT check = b;
-    for (size_t i = 0; i < v-1; ++i)
-    {
-        check = check.squared();
-    }
-    assert(check == one);
-#endif
-
     // compute square root with Tonelli--Shanks
     // (returns zero if not a square)
 
-- 
2.43.0


From c2d77bf88b5ba2ec5a4588541b1547d13be61970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:31 +0000
Subject: [PATCH 22/23] fix: reject booleans other than 0 and 1 instead of
 asserting

---
 libff/common/serialization.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libff/common/serialization.tcc b/libff/common/serialization.tcc
index 75a5774..79f34fd 100755
--- a/libff/common/serialization.tcc
+++ b/libff/common/serialization.tcc
@@ -59,7 +59,10 @@ inline void input_bool(std::istream &in, bool &b)
     size_t tmp = 0;
     in >> tmp;
     consume_newline(in);
-    assert(tmp == 0 || tmp == 1);
+    if (tmp > 1)
+    {
+        in.setstate(std::ios_base::failbit);
+    }
 
     b = (tmp == 1 ? true : false);
 }
-- 
2.43.0


From a0ccbb07857c4551f69a47e4bdb1226295b82668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 23/23] fix: multi-exponentiation: tell the compiler which
 memory the comparison reads

The inline assembly of ordered_exponent::operator< reads both exponents
through pointers, but says so neither by memory operands nor by a "memory"
clobber, so a compiler may leave their limbs unwritten before it.  clang 18
does (-O1 -DUSE_ASM): the heap of Bos-Coster is then out of order and
multi_exp<multi_exp_method_bos_coster> returns wrong sums.
All other inline assembly of the library has the clobber.
---
 libff/algebra/scalar_multiplication/multiexp.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index d29c052..1496fa5 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -53,7 +53,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 4)
@@ -72,7 +72,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 5)
@@ -92,7 +92,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else
-- 
2.43.0

