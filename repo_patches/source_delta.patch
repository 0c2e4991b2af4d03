From d040d948b4f2340026672ed939a853811f7cdd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 01/53] fix: let bounded ranges and char arrays be written and
 read through forward iterators

---
 src/cxon/lang/common/container.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index 49f8018..cfcf46e 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -343,7 +343,7 @@ namespace cxon { namespace cnt {
 
             template <typename II>
                 auto append(II f, II l) noexcept
-                    -> enable_if_t<is_random_access_iterator<II>::value, bool>
+                    -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic push
@@ -351,7 +351,7 @@ namespace cxon { namespace cnt {
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         auto const s = std::distance(f, l);
-                        return s <= std::distance(e_, l_) && (std::copy(f, l, e_), e_ += s, true);
+                        return s <= std::distance(e_, l_) && (std::copy(f, l, e_), std::advance(e_, s), true);
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
 #                       pragma GCC diagnostic pop
 #                   endif
-- 
2.43.0


From ae6ea7822d59bfc09bd6c99933b7c9b8d8284b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 02/53] fix: read CBOR arrays of strings and other non-byte
 elements into sequence containers

---
 src/cxon/lang/cbor/common/container.hxx | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index dda1b6c..15308cb 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -195,9 +195,18 @@ namespace cxon { namespace cbor { namespace cnt {
 
     namespace imp {
 
+        // a byte is a valid element, i.e. the elements can be read from a byte/text string
+        template <typename T, typename II>
+            struct has_byte_elements_
+            :   std::integral_constant<bool,
+                    std::is_assignable<decltype(*std::begin(std::declval<T&>())), decltype(*std::declval<II&>())>::value &&
+                    std::is_convertible<decltype(*std::declval<II&>()), typename T::value_type>::value
+                >
+            {};
+
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t< has_byte_elements_<T, II>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
@@ -208,7 +217,7 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_array_(T& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*std::begin(t)), decltype(*i)>::value, bool>
+                -> enable_if_t<!has_byte_elements_<T, II>::value, bool>
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
-- 
2.43.0


From c6116630793dfe747989029555f54ee7ddf34f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 03/53] fix: copy plain string tails without decrementing the
 iterator

---
 src/cxon/lang/common/cio/string.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 50e37cc..14e3a88 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -107,7 +107,7 @@ namespace cxon { namespace cio { namespace str {
                 {
                     II l = i;
                         constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
-                        for ( ; i != e; ++i) {
+                        while (i != e) {
                             if (HANDLE_ESCAPES && *i == '\\') {
                                 if (l != i && !cxon::cnt::append(c, l, i))
                                     return rewind(i, l), cx/X::read_error::overflow;
@@ -122,7 +122,7 @@ namespace cxon { namespace cio { namespace str {
                                         if (c32 == chr::bad_utf32) return rewind(i, o), false;
                                     if (!char_append_(c, c32))
                                         return rewind(i, o), cx/X::read_error::overflow;
-                                l = i, --i;
+                                l = i;
                             }
                             else {
                                 CXON_IF_CONSTEXPR (!is_unquoted_key_context<X>::value) {
@@ -134,12 +134,11 @@ namespace cxon { namespace cio { namespace str {
                                 }
                                 CXON_IF_CONSTEXPR (X::validate_string_encoding) {
                                     if ((unsigned char)*i > 0x7F) {
-                                        auto bs = chr::utf8_check(i, e);
+                                        auto const bs = chr::utf8_check(i, e);
                                         if (bs == 0)
                                             return cx/X::read_error::character_invalid;
-                                        while ((bs = chr::utf8_check(i += bs, e)))
-                                            ;
-                                        --i;
+                                        std::advance(i, bs);
+                                        continue;
                                     }
                                     else CXON_IF_CONSTEXPR (X::validate_string_escapes) {
                                         if (chr::is<X>::ctrl(*i))
@@ -150,6 +149,7 @@ namespace cxon { namespace cio { namespace str {
                                     if (chr::is<X>::ctrl(*i))
                                         return cx/X::read_error::unexpected;
                                 }
+                                ++i;
                             }
                         }
                     return cx/X::read_error::unexpected;
-- 
2.43.0


From e94a8d74732151599738c296745d3c4bc02fbe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 04/53] fix: CBOR std::bitset from char input, overwriting
 instead of merging with the old value

---
 src/cxon/lang/cbor/lib/std/bitset.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/std/bitset.hxx b/src/cxon/lang/cbor/lib/std/bitset.hxx
index c995f8c..da8d86c 100644
--- a/src/cxon/lang/cbor/lib/std/bitset.hxx
+++ b/src/cxon/lang/cbor/lib/std/bitset.hxx
@@ -26,7 +26,7 @@ namespace cxon {
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
                         if (N % 8)
-                            t |= std::bitset<N> {*i++};
+                            t = std::bitset<N>(bio::byte(*i)), ++i;
                         std::size_t n = N / 8;
                             for ( ; n != 0 && i != e; --n, ++i) {
                                 bio::byte const b = *i; t <<= 8;
@@ -52,7 +52,7 @@ namespace cxon {
                             return cx/cbor::read_error::size_invalid;
                         if (++i == e)
                             return cx/cbor::read_error::unexpected;
-                        return t |= std::bitset<N> {*i}, ++i, true;
+                        return t = std::bitset<N>(bio::byte(*i)), ++i, true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From e2548b8f8ac68089e9d85b9f0858587783019464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 05/53] fix: range-check CBOR integers and floating-point
 numbers instead of asserting or narrowing

---
 src/cxon/lang/cbor/fundamental.hxx | 60 +++++++++++++++++++-----------
 src/cxon/lang/common/bio/io.hxx    | 23 ++++++------
 2 files changed, 50 insertions(+), 33 deletions(-)

diff --git a/src/cxon/lang/cbor/fundamental.hxx b/src/cxon/lang/cbor/fundamental.hxx
index 3e5ff39..ecaa608 100644
--- a/src/cxon/lang/cbor/fundamental.hxx
+++ b/src/cxon/lang/cbor/fundamental.hxx
@@ -8,6 +8,8 @@
 
 #include "cxon/lang/common/bio/bio.hxx"
 #include "cxon/lang/cbor/common/tag.hxx"
+#include <cmath>
+#include <limits>
 
 namespace cxon { // nullptr_t
 
@@ -60,14 +62,17 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename X, typename T, typename II, typename Cx>
-            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+        template <typename T>
+            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
+
+        template <typename X, typename II, typename Cx>
+            inline bool read_argument_(unsigned long long& t, II& i, II e, Cx& cx) {
                 II const o = i;
                 switch (auto const b = bio::get(i, e) & X::mnr) {
                     case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
                     case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
                     case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                        return  (t = T(b), true);
+                        return  (t = b, true);
                     case 0x18: case 0x19: case 0x1A: case 0x1B:
                         return  (bio::get(t, 1 << (b - 0x18), i, e)) ||
                                 (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
@@ -79,9 +84,34 @@ namespace cxon { // numeric|character/read
                 }
             }
 
+        // the character types are written as unsigned (see is_quantum_), a byte can be read in any type of its size
+        template <typename T>
+            struct max_unsigned_ {
+                using type = typename std::make_unsigned<T>::type;
+                static constexpr unsigned long long value = is_quantum_<T>::value || sizeof(T) == 1 ?
+                    static_cast<unsigned long long>(std::numeric_limits<type>::max()) :
+                    static_cast<unsigned long long>(std::numeric_limits<T>::max())
+                ;
+            };
+
+        template <typename X, typename T, typename II, typename Cx>
+            inline bool read_unsigned_(T& t, II& i, II e, Cx& cx) {
+                II const o = i; unsigned long long u;
+                if (!read_argument_<X>(u, i, e, cx))
+                    return false;
+                return  (u <= max_unsigned_<T>::value && (t = T(u), true)) ||
+                        (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                ;
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_signed_(T& t, II& i, II e, Cx& cx) {
-                return read_unsigned_<X>(t, i, e, cx) && (t = -1 - t, true);
+                II const o = i; unsigned long long u;
+                if (!read_argument_<X>(u, i, e, cx))
+                    return false;
+                return  (std::is_signed<T>::value && u <= static_cast<unsigned long long>(std::numeric_limits<T>::max()) && (t = T(-1 - static_cast<long long>(u)), true)) ||
+                        (bio::rewind(i, o), cx/cbor::read_error::integer_invalid)
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
@@ -107,18 +137,6 @@ namespace cxon { // numeric|character/read
 
     namespace cbor { namespace imp {
 
-        template <typename T>   struct unsigned_;
-        template <>             struct unsigned_<float>     { using type = unsigned long; };
-        template <>             struct unsigned_<double>    { using type = unsigned long long; };
-        template <typename T>
-            using unsigned_type_ = typename unsigned_<T>::type;
-
-        template <typename T>   struct signed_;
-        template <>             struct signed_<float>       { using type = long; };
-        template <>             struct signed_<double>      { using type = long long; };
-        template <typename T>
-            using signed_type_ = typename signed_<T>::type;
-
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_floating_point_(T& t, II& i, II e, Cx& cx) {
                 switch (bio::peek(i, e) & X::mjr) {
@@ -144,12 +162,12 @@ namespace cxon { // numeric|character/read
                     }
                     // from integral
                     case X::pint: {
-                        unsigned_type_<T> u;
-                        return read_unsigned_<X>(u, i, e, cx) && (t = T(u), true);
+                        unsigned long long u;
+                        return read_argument_<X>(u, i, e, cx) && (t = T(u), true);
                     }
                     case X::nint: {
-                        signed_type_<T> u;
-                        return read_signed_<X>(u, i, e, cx) && (t = T(u), true);
+                        unsigned long long u; // the value is -1 - u
+                        return read_argument_<X>(u, i, e, cx) && (t = u != std::numeric_limits<decltype(u)>::max() ? -T(u + 1) : -std::ldexp(T(1), 64), true);
                     }
                     default:
                         return cx/cbor::read_error::floating_point_invalid;
@@ -183,8 +201,6 @@ namespace cxon { // numeric|character/write
         template <typename T>
             inline auto power_(T t) -> enable_if_t<sizeof(T) == 8, unsigned> { return !(t >> 32) ? !(t >> 16) ? !(t >> 8) ? 0 : 1 : 2 : 3; }
 
-        template <typename T>
-            struct is_quantum_  : bool_constant<std::is_same<T, char>::value || std::is_same<T, wchar_t>::value> {};
         template <typename T>
             struct is_signed_   : bool_constant<std::is_signed<T>::value   && !is_quantum_<T>::value> {};
         template <typename T>
diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 04866e7..a068329 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -8,6 +8,7 @@
 
 #include "cxon/utility.hxx"
 #include <cmath> // std::ldexp
+#include <limits>
 #include <cstdint>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -178,7 +179,7 @@ namespace cxon { namespace bio {
             }
 
         template <typename T, typename II>
-            inline T be_to_fp_(const buffer_<2, II>& bs) {
+            inline bool be_to_fp_(const buffer_<2, II>& bs, T& t) {
                 // TODO: not correct, but as in RFC7049 Appendix D
                 const unsigned half = (bs[0] << 8) + bs[1];
                 const unsigned exp = (half >> 10) & 0x1f;
@@ -187,29 +188,29 @@ namespace cxon { namespace bio {
                      if (exp == 0)  val = std::ldexp(mant, -24);
                 else if (exp != 31) val = std::ldexp(mant + 1024, exp - 25);
                 else                val = mant == 0 ? INFINITY : NAN;
-                return (T)(half & 0x8000 ? -val : val);
+                return t = (T)(half & 0x8000 ? -val : val), true;
             }
         template <typename T, typename II>
-            inline T be_to_fp_(const buffer_<4, II>& bs) {
-                using R = unsigned long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
+            inline bool be_to_fp_(const buffer_<4, II>& bs, T& t) {
+                using R = std::uint32_t;
                 union { R i; float f; } u;
                 u.i =   (R(bs[3])<< 0) | (R(bs[2])<< 8) |
                         (R(bs[1])<<16) | (R(bs[0])<<24)
                 ;
-                return static_cast<T>(u.f);
+                return t = static_cast<T>(u.f), true;
             }
         template <typename T, typename II>
-            inline T be_to_fp_(const buffer_<8, II>& bs) {
-                using R = unsigned long long;
-                CXON_ASSERT(sizeof(R) <= sizeof(T), "narrowing");
+            inline bool be_to_fp_(const buffer_<8, II>& bs, T& t) {
+                using R = std::uint64_t;
                 union { R i; double f; } u;
                 u.i =   (R(bs[7])<< 0) | (R(bs[6])<< 8) |
                         (R(bs[5])<<16) | (R(bs[4])<<24) |
                         (R(bs[3])<<32) | (R(bs[2])<<40) |
                         (R(bs[1])<<48) | (R(bs[0])<<56)
                 ;
-                return static_cast<T>(u.f);
+                if (std::isfinite(u.f) && std::fabs(u.f) > std::numeric_limits<T>::max())
+                    return false;
+                return t = static_cast<T>(u.f), true;
             }
 
         template <unsigned N, typename T, typename II>
@@ -242,7 +243,7 @@ namespace cxon { namespace bio {
             -> enable_if_t<std::is_floating_point<T>::value, bool>
         {
             imp::buffer_<N, II> bs(i);
-            return imp::get_n_(bs, i, e) && (t = imp::be_to_fp_<T>(bs), true);
+            return imp::get_n_(bs, i, e) && imp::be_to_fp_(bs, t);
         }
     
     template <typename OI, typename II>
-- 
2.43.0


From 6bd5a769228cf1e6193d4a3c0d85026987bcd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 06/53] fix: write cbor::node tags with the tag major type

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index e6e0eae..7334d51 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -194,7 +194,7 @@ namespace cxon {
         struct write<CBOR<X>, cbor::taggle<N, T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const cbor::taggle<N, T>& t, Cx& cx) {
-                    return write_value<Y>(o, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
+                    return cbor::cnt::write_size<Y>(o, Y::tag, t.tag, cx) && write_value<Y>(o, t.value, cx); // TODO: check simple-value values
                 }
         };
 
-- 
2.43.0


From 7ce951022c7f05b79028f8bdf089248e5b9f67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:20 +0000
Subject: [PATCH 07/53] fix: read boost::dynamic_bitset of more than two blocks
 from JSON

---
 .../lang/json/lib/boost/dynamic_bitset.hxx    | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index 275d243..ef2cc74 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -14,17 +14,15 @@ namespace cxon { namespace json { namespace imp {
 
     template <typename X, typename BS, typename II, typename Cx>
         inline bool read_bits_(BS& t, II& i, II e, Cx&) {
-            using st = typename BS::size_type;
-            constexpr st u = sizeof(typename BS::block_type) * 8;
-            st p = u;
-            t.resize(t.size() + u);
-            for ( ; i != e && (*i == '1' || *i == '0'); ++i) {
-                if (p == 0)
-                    t.resize(t.size() * 2), t <<= u, p = u;
-                --p;
-                if (*i == '1') t.set(p);
-            }
-            return t >>= p, t.resize(t.size() - p), true;
+            // the most significant bit comes first
+            BS r(t.get_allocator());
+            for ( ; i != e && (*i == '1' || *i == '0'); ++i)
+                r.push_back(*i == '1');
+            auto const n = r.size();
+            t.reset(), t.resize(n);
+            for (typename BS::size_type j = 0; j != n; ++j)
+                t[n - 1 - j] = r[j];
+            return true;
         }
 
     template <typename X, typename BS, typename O, typename Cx>
-- 
2.43.0


From bafd6e4565ca2873e493f2767ba37efd7564ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 08/53] fix: output of several bytes to sinks that accept
 single bytes only: check every byte

A piece of output was pushed byte by byte with the result ignored if the sink
has no append() for the piece's type: bounded ranges of char were overrun by
CBOR (and ranges of unsigned char by text formats), refusals were not reported.
---
 src/cxon/lang/common/bio/io.hxx | 29 +++++++++++++++++++++++++++-
 src/cxon/lang/common/cio/io.hxx | 34 ++++++++++++++++++++++++++++++++-
 2 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index a068329..44e02bb 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -331,6 +331,29 @@ namespace cxon { namespace bio {
                 push_(option<1>(), o, i, n);
             }
             
+        template <typename O, typename ...P>
+            inline bool poke_(O& o, P... p);
+
+        template <typename O, typename FI>
+            inline auto poke_all_(option<1>, O& o, FI f, FI l) -> decltype(o.append(f, l), bool()) {
+                return o.append(f, l), true;
+            }
+        template <typename O, typename FI>
+            inline bool poke_all_(option<0>, O& o, FI f, FI l) {
+                for ( ; f != l; ++f) if (!poke_(o, *f)) return false;
+                return true;
+            }
+
+        template <typename O, typename FI>
+            inline auto poke_all_(option<1>, O& o, FI i, std::size_t n) -> decltype(o.append(i, n), bool()) {
+                return o.append(i, n), true;
+            }
+        template <typename O, typename FI>
+            inline bool poke_all_(option<0>, O& o, FI i, std::size_t n) {
+                for ( ; n; ++i, --n) if (!poke_(o, *i)) return false;
+                return true;
+            }
+
         template <typename O, typename ...P>
             inline auto poke_(option<2>, O& o, P... p) -> enable_if_t<std::is_same<decltype(o.append(p...)), bool>::value, bool> {
                 return o.append(p...);
@@ -339,9 +362,13 @@ namespace cxon { namespace bio {
             inline auto poke_(option<1>, O& o, P... p) -> decltype(o.good()) {
                 return push_(o, p...), o.good();
             }
+        template <typename O, typename T>
+            inline bool poke_(option<0>, O& o, T t) {
+                return push_(o, t), true;
+            }
         template <typename O, typename ...P>
             inline bool poke_(option<0>, O& o, P... p) {
-                return push_(o, p...), true;
+                return poke_all_(option<1>(), o, p...);
             }
         template <typename O, typename ...P>
             inline bool poke_(O& o, P... p) {
diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 5b00151..fb1fbb6 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -251,6 +251,34 @@ namespace cxon { namespace cio { // output
                 push_(option<1>(), o, n, c);
             }
         // bool bridge
+            template <typename O, typename ...P>
+                inline bool poke_(O& o, P... p);
+            template <typename O, typename P>
+                inline auto poke_all_(option<1>, O& o, const char* f, P p)
+                    -> decltype(o.append(f, p), bool())
+                {
+                    return o.append(f, p), true;
+                }
+            template <typename O>
+                inline bool poke_all_(option<0>, O& o, const char* f, const char* l) {
+                    for ( ; f != l; ++f) if (!poke_(o, *f)) return false;
+                    return true;
+                }
+            template <typename O>
+                inline bool poke_all_(option<0>, O& o, const char* s, std::size_t n) {
+                    return poke_all_(option<0>(), o, s, s + n);
+                }
+            template <typename O>
+                inline auto poke_all_(option<1>, O& o, unsigned n, char c)
+                    -> decltype(o.append(n, c), bool())
+                {
+                    return o.append(n, c), true;
+                }
+            template <typename O>
+                inline bool poke_all_(option<0>, O& o, unsigned n, char c) {
+                    for ( ; n; --n) if (!poke_(o, c)) return false;
+                    return true;
+                }
             template <typename O, typename ...P>
                 inline auto poke_(option<2>, O& o, P... p)
                     -> enable_if_t<std::is_same<decltype(o.append(p...)), bool>::value, bool>
@@ -263,9 +291,13 @@ namespace cxon { namespace cio { // output
                 {
                     return push_(o, p...), o.good();
                 }
+            template <typename O>
+                inline bool poke_(option<0>, O& o, char c) {
+                    return push_(o, c), true;
+                }
             template <typename O, typename ...P>
                 inline bool poke_(option<0>, O& o, P... p) {
-                    return push_(o, p...), true;
+                    return poke_all_(option<1>(), o, p...);
                 }
         template <typename O, typename ...P>
             inline bool poke_(O& o, P... p) {
-- 
2.43.0


From 2710306c5fa7a06e19cb1af05ac6a45a7c3eec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:08 +0000
Subject: [PATCH 09/53] fix: CBOR: report the failure to write the size of an
 empty container

---
 src/cxon/lang/cbor/common/container.hxx | 15 +++++++++------
 src/cxon/lang/cbor/lib/std/valarray.hxx |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 15308cb..2f5a77a 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -280,8 +280,9 @@ namespace cxon { namespace cbor { namespace cnt {
             inline auto write_array_(O& o, FI f, FI l, Cx& cx)
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && write_value<X>(o, *f, cx); ++f) ;
                 return f == l;
             }
 
@@ -298,8 +299,9 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<sizeof(T) != 1 ||  std::is_same<T, bool>::value, bool>
             {
                 auto f = std::begin(t), l = std::end(t);
-                if (write_size<X>(o, X::arr, std::distance(f, l), cx))
-                    for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
+                if (!write_size<X>(o, X::arr, std::distance(f, l), cx))
+                    return false;
+                for ( ; f != l && cxon::cnt::element_write<X, C>(o, *f, cx); ++f) ;
                 return f == l;
             }
         template <typename X, typename C, typename O, typename Cx, typename T = typename C::value_type>
@@ -319,8 +321,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename T, typename O, typename Cx>
         inline bool write_map(O& o, const T& t, Cx& cx) {
             auto f = std::begin(t), l = std::end(t);
-            if (write_size<X>(o, X::map, std::distance(f, l), cx))
-                for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
+            if (!write_size<X>(o, X::map, std::distance(f, l), cx))
+                return false;
+            for ( ; f != l && cxon::cnt::element_write<X, T>(o, *f, cx); ++f) ;
             return f == l;
         }
 
diff --git a/src/cxon/lang/cbor/lib/std/valarray.hxx b/src/cxon/lang/cbor/lib/std/valarray.hxx
index c52d816..0010b81 100644
--- a/src/cxon/lang/cbor/lib/std/valarray.hxx
+++ b/src/cxon/lang/cbor/lib/std/valarray.hxx
@@ -67,8 +67,9 @@ namespace cxon {
         struct write<CBOR<X>, std::valarray<T>> {
             template <typename O, typename Cx, typename Y = CBOR<X>>
                 static bool value(O& o, const std::valarray<T>& t, Cx& cx) {
-                    return (t.size() && cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx)) ||
-                           (cbor::cnt::write_size<Y>(o, Y::arr, 0, cx))
+                    return t.size() ?
+                        cbor::cnt::write_array<Y>(o, std::begin(t), std::end(t), cx) :
+                        cbor::cnt::write_size<Y>(o, Y::arr, 0, cx)
                     ;
                 }
         };
-- 
2.43.0


From 14eb3ddc36869122ff921d2ab44688b30bf5f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 10/53] fix: JSON/CXCF class reader: fail when the separator
 after a member cannot be consumed; loop over consecutive comments

---
 src/cxon/lang/common/cio/class.hxx | 2 +-
 src/cxon/lang/common/cio/io.hxx    | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 396079c..ae904f7 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -325,7 +325,7 @@ namespace cxon { namespace cio { namespace cls {
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
                         if (cnt::consume_sep<X, typename X::map>(i, e, cx))
                             continue;
-                    return consume<X>(X::map::end, i, e, cx);
+                    return cx && consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
             }
diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index fb1fbb6..8edfdf9 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -115,8 +115,7 @@ namespace cxon { namespace cio { // input
             }
         template <typename X, typename II>
             inline auto consume_(II& i, II e) -> enable_if_t< X::allow_comments, bool> {
-                consume_ws_<X>(i, e);
-                if (peek(i, e) == '/') {
+                for (consume_ws_<X>(i, e); peek(i, e) == '/'; consume_ws_<X>(i, e)) {
                     switch (next(i, e)) {
                         case '*':
                             for (++i; i != e; )
@@ -130,7 +129,6 @@ namespace cxon { namespace cio { // input
                         default:
                             return false;
                     }
-                    consume_<X>(i, e);
                 }
                 return true;
             }
-- 
2.43.0


From 9ddb4090ff865c90aee5153cb81b324903b27de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 11/53] fix: JSON numbers: no read past the end, out-of-range
 values are errors (not assertions)

---
 src/cxon/lang/common/cio/numeric.hxx | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 720670d..196e1ec 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -60,18 +60,11 @@ namespace cxon { namespace cio { namespace num { // read
             inline auto number_consume_(const char*& i, const char* e)
                 -> enable_if_t<std::is_integral<T>::value, int>
             {
-                char c = *i;
-                    if (is_sign_<T>(c)) goto trap_neg;
-                // trap_pos
+                char c = peek(i, e);
+                    if (is_sign_<T>(c)) c = next(i, e);
                     if (c == '0') return ++i, 1;
                        if (!chr::is<X>::digit10(c)) return 0;
                     while ( chr::is<X>::digit10(c)) c = next(i, e);
-                    goto trap_end;
-                trap_neg:
-                    c = next(i, e);
-                       if (!chr::is<X>::digit10(c)) return 0;
-                    while ( chr::is<X>::digit10(c)) c = next(i, e);
-                trap_end:
                     return 1;
             }
 
@@ -232,8 +225,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::integral_invalid;
                         default: {
-                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = charconv::from_chars(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::integral_invalid);
                         }
                     }
             }
@@ -246,7 +239,10 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::integral_invalid;
                 if (i - b == 1)
                     return t = *b - '0', true;
-                auto const r = charconv::from_chars(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
+                auto const r = charconv::from_chars(b, i, t);
+                if (r.ec != std::errc())
+                    return i = b, cx/X::read_error::integral_invalid;
+                CXON_ASSERT(r.ptr == i, "unexpected");
                 return true;
             }
         template <typename X, typename T, typename Cx>
@@ -312,8 +308,8 @@ namespace cxon { namespace cio { namespace num { // read
                         case -1: return rewind(i, o), cx/X::read_error::overflow;
                         case  0: return rewind(i, o), cx/X::read_error::floating_point_invalid;
                         default: {
-                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t); CXON_ASSERT(r.ec == std::errc(), "unexpected");
-                            return true;
+                            auto const r = from_chars_<X>(std::begin(s), std::end(s), t);
+                            return r.ec == std::errc() || (rewind(i, o), cx/X::read_error::floating_point_invalid);
                         }
                     }
             }
@@ -326,7 +322,10 @@ namespace cxon { namespace cio { namespace num { // read
                     return i = b, cx/X::read_error::floating_point_invalid;
                 if (i - b == 1)
                     return t = T(*b - '0'), true;
-                auto const r = from_chars_<X>(b, i, t); CXON_ASSERT(r.ec == std::errc() && r.ptr == i, "unexpected");
+                auto const r = from_chars_<X>(b, i, t);
+                if (r.ec != std::errc())
+                    return i = b, cx/X::read_error::floating_point_invalid;
+                CXON_ASSERT(r.ptr == i, "unexpected");
                 return true;
             }
         template <typename X, typename T, typename Cx>
-- 
2.43.0


From 62ad01fcf5520b543c6b95a743aa97eb1c1a1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 12/53] fix: JSON strings: bounded look-ahead, truncated UTF-8
 and lone low surrogates are errors

---
 src/cxon/lang/common/cio/char.hxx | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/cxon/lang/common/cio/char.hxx b/src/cxon/lang/common/cio/char.hxx
index a38592c..8fc609c 100644
--- a/src/cxon/lang/common/cio/char.hxx
+++ b/src/cxon/lang/common/cio/char.hxx
@@ -140,7 +140,8 @@ namespace cxon { namespace cio { namespace chr {
         inline char32_t esc_to_utf32(II& i, II e, Cx& cx) {
             char32_t const c32 = imp::esc_to_utf32_<X>(i, e);
                 if (c32 == bad_utf32) return cx/X::read_error::escape_invalid, bad_utf32;
-            if (c32 < 0xD800 || c32 > 0xDBFF) return c32;
+            if (c32 < 0xD800 || c32 > 0xDFFF) return c32;
+                if (c32 > 0xDBFF) return cx/X::read_error::surrogate_invalid, bad_utf32;
             // surrogate
                 if (peek(i, e) != '\\') return cx/X::read_error::surrogate_invalid, bad_utf32;
             char32_t const s32 = (++i, imp::esc_to_utf32_<X>(i, e));
@@ -152,13 +153,9 @@ namespace cxon { namespace cio { namespace chr {
     namespace imp {
 
         template <typename II>
-            inline auto head_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return next(i, e); }
+            inline unsigned char head_(II& i, II e) { return next(i, e); }
         template <typename II>
-            inline auto head_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
-        template <typename II>
-            inline auto tail_(II& i, II e) -> enable_if_t<!is_random_access_iterator<II>::value, unsigned char> { return i != e ? peek(++i, e) : '\xFF'; }
-        template <typename II>
-            inline auto tail_(II& i, II  ) -> enable_if_t< is_random_access_iterator<II>::value, unsigned char> { return *++i; }
+            inline unsigned char tail_(II& i, II e) { return i != e ? next(i, e) : '\xFF'; }
 
 #       define CXON_EXPECT(c) if (!(c)) return cx/X::read_error::character_invalid, bad_utf32
 
@@ -166,7 +163,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t< X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
+                    CXON_EXPECT(i != e);
                     char32_t const  c0 = (unsigned char)*i;
                     char32_t        c1, c2, c3;
                     if (c0 <= 0x7F)
@@ -219,7 +216,7 @@ namespace cxon { namespace cio { namespace chr {
                 inline auto utf8_to_utf32_(II& i, II e, Cx& cx)
                     -> enable_if_t<!X::validate_string_encoding, char32_t>
                 {   static_assert(is_char_8<typename std::iterator_traits<II>::value_type>::value, "unexpected");
-                    CXON_ASSERT(i != e, "unexpected");
+                    CXON_EXPECT(i != e);
                     char32_t const  c0 = (unsigned char)*i;
                     char32_t        c1, c2, c3;
                     if ((c0 & 0x80) == 0)
-- 
2.43.0


From 11d3b843c488736f5e134e30acffd1070775078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 13/53] fix: CBOR containers: element count from the header
 does not bound a reserve; append failures are reported

---
 src/cxon/lang/cbor/common/container.hxx | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 2f5a77a..887c458 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -112,10 +112,25 @@ namespace cxon { namespace cbor { namespace cnt {
                 -> enable_if_t<!is_forward_iterator<II>::value, bool>
             {
                 for ( ; n != 0 && f != l; --n, ++f)
-                    cxon::cnt::append(c, *f);
+                    if (!cxon::cnt::append(c, *f))
+                        return false;
                 return n == 0;
             }
 
+        // the size is claimed by the input, do not allocate for more than what may follow
+        template <typename II>
+            inline auto reservable_(std::size_t n, II i, II e)
+                -> enable_if_t< is_random_access_iterator<II>::value, std::size_t>
+            {
+                return std::min(n, static_cast<std::size_t>(e - i));
+            }
+        template <typename II>
+            inline auto reservable_(std::size_t n, II, II)
+                -> enable_if_t<!is_random_access_iterator<II>::value, std::size_t>
+            {
+                return std::min<std::size_t>(n, 256);
+            }
+
         template <typename X, typename T, typename II, typename Cx>
             inline bool read_bytes_(T& t, std::size_t n, II& i, II e, Cx& cx) {
                 return  elements_read_<X>(t, n, i, e, cx) ||
@@ -127,7 +142,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_b_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, size_(t) + n) &&
+                        cxon::cnt::reserve(t, size_(t) + reservable_(n, i, e)) &&
                         read_bytes_<X>(t, n, i, e, cx)
                 ;
             }
@@ -167,7 +182,7 @@ namespace cxon { namespace cbor { namespace cnt {
             inline bool read_array_w_fix_(T& t, II& i, II e, Cx& cx) {
                 std::size_t n;
                 return  read_size_le<X>(n, t.max_size() - size_(t), i, e, cx) &&
-                        cxon::cnt::reserve(t, n) &&
+                        cxon::cnt::reserve(t, size_(t) + reservable_(n, i, e)) &&
                         read_elements_<X>(t, n, i, e, cx)
                 ;
             }
-- 
2.43.0


From 27e2fc0b16711bcdb3d1b0b121693466db7a4c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 14/53] fix: CBOR class reader: a map header is required and
 its size is always initialised

---
 src/cxon/lang/cbor/class.hxx | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index fc07df6..68e7c27 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -145,17 +145,20 @@ namespace cxon { namespace cbor { namespace cls {
     template <typename X, typename T, typename ...Fs, typename II, typename Cx>
         inline bool read_fields(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx) {
             std::size_t n;
-            if (cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx)) {
-                int st[sizeof...(Fs)] = {0};
-                for (char id[bio::ids_len_max::constant<napa_type<Cx>>(64)]; n; --n) {
-                    II const o = i;
-                        if (!read_value<X>(id, i, e, cx))
-                            return false;
-                        if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
-                            return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                }
+            if ((bio::peek(i, e, X::und) & X::mjr) != X::map)
+                return cx/cbor::read_error::unexpected;
+            if (!cbor::cnt::read_size_le<X>(n, sizeof...(Fs), i, e, cx))
+                return false;
+            int st[sizeof...(Fs)] = {0};
+            for ( ; n; --n) {
+                char id[bio::ids_len_max::constant<napa_type<Cx>>(64)] = {0};
+                II const o = i;
+                    if (!read_value<X>(id, i, e, cx))
+                        return false;
+                    if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
+                        return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
             }
-            return n == 0;
+            return true;
         }
 
     namespace imp {
-- 
2.43.0


From 792c80344c1c78808a4d32e47bc4f68bbff845ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 15/53] fix: CBOR dynamic_bitset: reject bad sizes, grow with
 the bytes read

---
 src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
index e24d2aa..20d5844 100644
--- a/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/cbor/lib/boost/dynamic_bitset.hxx
@@ -19,17 +19,23 @@ namespace cxon {
                         std::size_t N;
                         if (!cbor::cnt::read_size<X>(N, i, e, cx))
                             return false;
+                        if (N == 0)
+                            return cx/cbor::read_error::size_invalid;
                         if (i == e)
                             return cx/cbor::read_error::unexpected;
                         bio::byte const S = *i;
-                        t.resize(t.size() + --N * 8);
-                            for (++i; N != 0 && i != e; --N, ++i) {
-                                bio::byte const b = *i; t <<= 8;
+                        if (S > 7 || (S != 0 && N == 1))
+                            return cx/cbor::read_error::size_invalid;
+                        t.clear();
+                            for (++i, --N; N != 0 && i != e; --N, ++i) {
+                                bio::byte const b = *i; t.resize(t.size() + 8); t <<= 8;
                                 t.set(7, b & 0x80); t.set(6, b & 0x40); t.set(5, b & 0x20); t.set(4, b & 0x10);
                                 t.set(3, b & 0x08); t.set(2, b & 0x04); t.set(1, b & 0x02); t.set(0, b & 0x01);
                             }
+                        if (N != 0)
+                            return cx/cbor::read_error::unexpected;
                         t.resize(t.size() - S);
-                        return N == 0 || cx/cbor::read_error::unexpected;
+                        return true;
                     }
                     default:
                         return cx/cbor::read_error::unexpected;
-- 
2.43.0


From 96fe3220367f5c7766ec1d3549ef2b8a3d192517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 16/53] fix: JSON node: digits are required after the decimal
 point and in the exponent

---
 src/cxon/lib/node.json.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cxon/lib/node.json.hxx b/src/cxon/lib/node.json.hxx
index 4346189..c7f3914 100644
--- a/src/cxon/lib/node.json.hxx
+++ b/src/cxon/lib/node.json.hxx
@@ -169,6 +169,8 @@ namespace cxon {
                     if (c == '.') {
                         CXON_STORE('.');
                         r = 1; c = cio::next(i, e);
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
@@ -181,6 +183,8 @@ namespace cxon {
                             CXON_STORE(c);
                             c = cio::next(i, e);
                         }
+                        if (c < '0' || c > '9')
+                            return cx/X::read_error::floating_point_invalid;
                         for ( ; c >= '0' && c <= '9'; c = cio::next(i, e)) {
                             CXON_STORE(c);
                         }
-- 
2.43.0


From f9184165301f30ebb396f3ba6b0a85f0cb5a27d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 17/53] fix: JSON/CXCF member names: decode escapes whatever
 the kind of input iterator

---
 src/cxon/lang/common/cio/key.hxx    |  4 ++--
 src/cxon/lang/common/cio/string.hxx | 19 ++-----------------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/src/cxon/lang/common/cio/key.hxx b/src/cxon/lang/common/cio/key.hxx
index 4aa6cec..592a3ab 100644
--- a/src/cxon/lang/common/cio/key.hxx
+++ b/src/cxon/lang/common/cio/key.hxx
@@ -102,8 +102,8 @@ namespace cxon { namespace cio { namespace key {
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_key_(T& t, II& i, II e, Cx& cx) -> enable_if_t<!needs_quotes<X, T>::value, bool> {
                 using Y = conditional_t<X::unquote_quoted_keys, quoted_key_context<X>, X>;
-                using Z = conditional_t<!is_unquoted_key_context<Y>::value, replace_traits_t<Y, key::simple_traits, str::raw_traits>, Y>;
-                return  read_value<Z>(t, i, e, cx);
+                using Z = conditional_t<!is_unquoted_key_context<Y>::value, unbind_traits_t<Y, key::simple_traits>, Y>;
+                return  read_value<Z>(t, i, e, cx); // the peer may have escaped the key
             }
 
     }
diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 14e3a88..1ed8972 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -100,10 +100,9 @@ namespace cxon { namespace cio { namespace str {
                 }
                 return cx/X::read_error::unexpected;
             }
-        namespace imp { // str::raw_traits
+        namespace imp {
             template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
-                inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                    -> enable_if_t<!has_traits<X, str::raw_traits>::value, bool>
+                inline bool string_read_tail_(C& c, II& i, II e, Cx& cx)
                 {
                     II l = i;
                         constexpr bool HANDLE_ESCAPES = is_unquoted_key_context<X>::value || !X::assume_no_escapes;
@@ -154,20 +153,6 @@ namespace cxon { namespace cio { namespace str {
                         }
                     return cx/X::read_error::unexpected;
                 }
-            template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
-                inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-                    -> enable_if_t< has_traits<X, str::raw_traits>::value, bool>
-                {
-                    II l = i;
-                        for ( ; i != e; ++i) {
-                            if (delim_en_check<X>(*i)) {
-                                if (l == i || cxon::cnt::append(c, l, i))
-                                    return delim_en_read<X>(i, e);
-                                return rewind(i, l), cx/X::read_error::overflow;
-                            }
-                        }
-                    return cx/X::read_error::unexpected;
-                }
         }
         template <typename X, typename C, typename II, typename Cx, typename T = typename C::value_type>
             inline auto string_read_tail_(C& c, II& i, II e, Cx& cx)
-- 
2.43.0


From f14c1e6e2f6e4674557dc8151051d4b9b0e66f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 18/53] fix: CBOR: byte strings read into wider elements are
 unsigned, whatever the type of the input

---
 src/cxon/lang/cbor/common/container.hxx | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 887c458..7c8a1ab 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -99,9 +99,19 @@ namespace cxon { namespace cbor { namespace cnt {
                 return size_(option<1>(), c);
             }
 
+        // the bytes are unsigned, whatever the type of the source's elements
+        template <typename C>
+            struct has_unit_elements_
+            :   std::integral_constant<bool, sizeof(typename C::value_type) == 1 && !std::is_same<typename C::value_type, bool>::value>
+            {};
+        template <typename C, typename V>
+            inline auto element_(V v) -> enable_if_t< has_unit_elements_<C>::value, V> { return v; }
+        template <typename C, typename V>
+            inline auto element_(V v) -> enable_if_t<!has_unit_elements_<C>::value, bio::byte> { return bio::byte(v); }
+
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t< is_forward_iterator<II>::value, bool>
+                -> enable_if_t< is_forward_iterator<II>::value &&  has_unit_elements_<C>::value, bool>
             {
                 auto const m = std::min(n, static_cast<std::size_t>(std::distance(f, l)));
                 II e = f; std::advance(e, m);
@@ -109,10 +119,10 @@ namespace cxon { namespace cbor { namespace cnt {
             }
         template <typename X, typename C, typename II, typename Cx>
             inline auto elements_read_(C& c, std::size_t n, II& f, II l, Cx&)
-                -> enable_if_t<!is_forward_iterator<II>::value, bool>
+                -> enable_if_t<!is_forward_iterator<II>::value || !has_unit_elements_<C>::value, bool>
             {
                 for ( ; n != 0 && f != l; --n, ++f)
-                    if (!cxon::cnt::append(c, *f))
+                    if (!cxon::cnt::append(c, element_<C>(*f)))
                         return false;
                 return n == 0;
             }
-- 
2.43.0


From c545ddca42a285bca65b22801f7e40a7b5f2da6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:27 +0000
Subject: [PATCH 19/53] fix: CBOR: a number is not a zero-terminated character
 array

---
 src/cxon/lang/cbor/compound.hxx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index dd3c38c..2495fd1 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -41,7 +41,18 @@ namespace cxon { // pointer/read
     namespace cbor { namespace imp {
 
         template <typename X, typename T, typename II, typename Cx>
-            inline bool read_pointer_t_(T*& t, II& i, II e, Cx& cx) {
+            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< is_char<T>::value, bool>
+            {   // a character is not a (zero-terminated) string
+                return bio::peek(i, e) == X::nil ?
+                    (bio::get(i, e), t = nullptr, true) :
+                    cx/cbor::read_error::integer_invalid
+                ;
+            }
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_pointer_t_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t<!is_char<T>::value, bool>
+            {
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-- 
2.43.0


From 32e7c81e760725f8efaffa82895f51944cf2af28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 20/53] fix: CBOR: array and map headers are not
 interchangeable

---
 src/cxon/lang/cbor/common/container.hxx   | 28 ++++++++++++++++++++++-
 src/cxon/lang/cbor/lib/boost/variant.hxx  |  2 +-
 src/cxon/lang/cbor/lib/boost/variant2.hxx |  2 +-
 src/cxon/lang/cbor/lib/std/complex.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/imp/map.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/tuple.hxx      |  4 ++--
 src/cxon/lang/cbor/lib/std/utility.hxx    |  2 +-
 src/cxon/lang/cbor/lib/std/variant.hxx    |  2 +-
 src/cxon/lib/node.ordered.hxx             |  2 +-
 9 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/src/cxon/lang/cbor/common/container.hxx b/src/cxon/lang/cbor/common/container.hxx
index 7c8a1ab..f053150 100644
--- a/src/cxon/lang/cbor/common/container.hxx
+++ b/src/cxon/lang/cbor/common/container.hxx
@@ -20,6 +20,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename II, typename Cx>
         inline bool read_size_eq(std::size_t n, II& i, II e, Cx& cx);
 
+    template <typename X, typename II, typename Cx> // array of exactly n elements
+        inline bool read_array_size_eq(std::size_t n, II& i, II e, Cx& cx);
+
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx);
 
@@ -37,6 +40,9 @@ namespace cxon { namespace cbor { namespace cnt {
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, typename X::tag_type tag, II& i, II e, Cx& cx);
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx);
+
     template <typename X, typename FI, typename O, typename Cx>
         inline bool write_array(O& o, FI f, FI l, Cx& cx);
     template <typename X, typename C, typename O, typename Cx> // container
@@ -71,6 +77,14 @@ namespace cxon { namespace cbor { namespace cnt {
             ;
         }
 
+    template <typename X, typename II, typename Cx>
+        inline bool read_array_size_eq(std::size_t n, II& i, II e, Cx& cx) {
+            return (bio::peek(i, e, X::und) & X::mjr) == X::arr ?
+                read_size_eq<X>(n, i, e, cx) :
+                cx/cbor::read_error::size_invalid
+            ;
+        }
+
     template <typename X, typename O, typename Cx>
         inline bool write_size(O& o, bio::byte m, std::size_t s, Cx& cx) {
             unsigned const p = cbor::imp::power_(s);
@@ -246,7 +260,7 @@ namespace cxon { namespace cbor { namespace cnt {
             {
                 auto const m = bio::peek(i, e);
                 switch (m & X::mjr) {
-                    case X::arr: case X::map:   return imp::read_array_w_<X>(t, m, i, e, cx);
+                    case X::arr:                return imp::read_array_w_<X>(t, m, i, e, cx);
                     default:                    return cx/cbor::read_error::array_invalid;
                 }
             }
@@ -265,6 +279,18 @@ namespace cxon { namespace cbor { namespace cnt {
             return imp::read_array_<X>(t, i, e, cx);
         }
 
+    template <typename X, typename T, typename II, typename Cx>
+        inline bool read_map(T& t, II& i, II e, Cx& cx) {
+            typename X::tag_type tag;
+            if (!tag::read<X>(tag, i, e, cx))
+                return false;
+            auto const m = bio::peek(i, e, X::und);
+            return (m & X::mjr) == X::map ?
+                imp::read_array_w_<X>(t, m, i, e, cx) :
+                cx/cbor::read_error::array_invalid
+            ;
+        }
+
     template <typename X, typename FI, typename II, typename Cx>
         inline bool read_array(FI f, FI l, II& i, II e, Cx& cx) {
             typename X::tag_type tag;
diff --git a/src/cxon/lang/cbor/lib/boost/variant.hxx b/src/cxon/lang/cbor/lib/boost/variant.hxx
index efd8fc6..05d04c2 100644
--- a/src/cxon/lang/cbor/lib/boost/variant.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant.hxx
@@ -91,7 +91,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(2, i, e, cx) &&
                             cbor::imp::boost::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/boost/variant2.hxx b/src/cxon/lang/cbor/lib/boost/variant2.hxx
index 303b666..4f5068a 100644
--- a/src/cxon/lang/cbor/lib/boost/variant2.hxx
+++ b/src/cxon/lang/cbor/lib/boost/variant2.hxx
@@ -98,7 +98,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(boost::variant2::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(2, i, e, cx) &&
                             cbor::imp::boost::variant2::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/complex.hxx b/src/cxon/lang/cbor/lib/std/complex.hxx
index b43faf5..bac545c 100644
--- a/src/cxon/lang/cbor/lib/std/complex.hxx
+++ b/src/cxon/lang/cbor/lib/std/complex.hxx
@@ -16,7 +16,7 @@ namespace cxon {
                 static bool value(std::complex<T>& t, II& i, II e, Cx& cx) {
                     T rl, mg;
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(2, i, e, cx) &&
                                 read_value<Y>(rl, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
                             (t.real(rl), t.imag(mg), true)
diff --git a/src/cxon/lang/cbor/lib/std/imp/map.hxx b/src/cxon/lang/cbor/lib/std/imp/map.hxx
index fb290f0..f48449a 100644
--- a/src/cxon/lang/cbor/lib/std/imp/map.hxx
+++ b/src/cxon/lang/cbor/lib/std/imp/map.hxx
@@ -38,7 +38,7 @@ namespace cxon { namespace cbor { namespace imp {
         struct map_reader_ {
             template <typename II, typename Cx>
                 static bool value(M& m, II& i, II e, Cx& cx) {
-                    return cbor::cnt::read_array<X>(m, i, e, cx);
+                    return cbor::cnt::read_map<X>(m, i, e, cx);
                 }
         };
 
diff --git a/src/cxon/lang/cbor/lib/std/tuple.hxx b/src/cxon/lang/cbor/lib/std/tuple.hxx
index 3a6bcf1..1c1c354 100644
--- a/src/cxon/lang/cbor/lib/std/tuple.hxx
+++ b/src/cxon/lang/cbor/lib/std/tuple.hxx
@@ -65,7 +65,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<>&, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(0, i, e, cx)
+                            cbor::cnt::read_array_size_eq<Y>(0, i, e, cx)
                     ;
                 }
         };
@@ -75,7 +75,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(sizeof...(T), i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(sizeof...(T), i, e, cx) &&
                             cbor::cnt::read_tuple<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lang/cbor/lib/std/utility.hxx b/src/cxon/lang/cbor/lib/std/utility.hxx
index b416550..34d4c7e 100644
--- a/src/cxon/lang/cbor/lib/std/utility.hxx
+++ b/src/cxon/lang/cbor/lib/std/utility.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::pair<F, S>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(2, i, e, cx) &&
                                 read_value<Y>(t.first, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx)
                     ;
diff --git a/src/cxon/lang/cbor/lib/std/variant.hxx b/src/cxon/lang/cbor/lib/std/variant.hxx
index cdc63cb..4504cc7 100644
--- a/src/cxon/lang/cbor/lib/std/variant.hxx
+++ b/src/cxon/lang/cbor/lib/std/variant.hxx
@@ -69,7 +69,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::variant<T...>& t, II& i, II e, Cx& cx) {
                     return  cbor::tag::read<Y>(i, e, cx) &&
-                            cbor::cnt::read_size_eq<Y>(2, i, e, cx) &&
+                            cbor::cnt::read_array_size_eq<Y>(2, i, e, cx) &&
                             cbor::imp::variant_read_<Y>(t, i, e, cx)
                     ;
                 }
diff --git a/src/cxon/lib/node.ordered.hxx b/src/cxon/lib/node.ordered.hxx
index ce5ee25..ebf3177 100644
--- a/src/cxon/lib/node.ordered.hxx
+++ b/src/cxon/lib/node.ordered.hxx
@@ -152,7 +152,7 @@ namespace cxon { // hash
             struct read<CBOR<X>, ordered::object<K, V, Al>> {
                 template <typename II, typename Cx, typename Y = CBOR<X>>
                     static bool value(ordered::object<K, V, Al>& t, II& i, II e, Cx& cx) {
-                        return cbor::cnt::read_array<Y>(t, i, e, cx);
+                        return cbor::cnt::read_map<Y>(t, i, e, cx);
                     }
             };
         template <typename X, typename K, typename V, typename Al>
-- 
2.43.0


From 2fb5f3585147c676e3ff5927a969740067c04d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 21/53] fix: JSON/CXCF single characters: no white space,
 delimiter or control inside of the quotes

---
 src/cxon/lang/json/fundamental.hxx | 43 ++++++++++++++++++------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/cxon/lang/json/fundamental.hxx b/src/cxon/lang/json/fundamental.hxx
index 9869777..faf911f 100644
--- a/src/cxon/lang/json/fundamental.hxx
+++ b/src/cxon/lang/json/fundamental.hxx
@@ -91,39 +91,48 @@ namespace cxon { // bool
 
 namespace cxon { // character
 
+    namespace json { namespace imp {
+
+        template <typename X, typename II, typename Cx>
+            inline bool read_char_(char32_t& c, II& i, II e, char32_t max, Cx& cx) {
+                if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
+                    CXON_IF_CONSTEXPR (!cio::is_key_context<X>::value) {
+                        if (i != e && *i == X::string::del)             return cx/json::read_error::character_invalid;
+                    }
+                    CXON_IF_CONSTEXPR (X::validate_string_escapes) {
+                        if (i != e && cio::chr::is<X>::ctrl(*i))        return cx/json::read_error::unexpected;
+                    }
+                    II const o = i;
+                        c = cio::chr::utf8_to_utf32<X>(i, e, cx);
+                            if (c == cio::chr::bad_utf32)               return cio::rewind(i, o), false;
+                            if (c > max)                                return cio::rewind(i, o), cx/json::read_error::character_invalid;
+                return cio::str::delim_en_read<X>(i, e) || cx/json::read_error::unexpected;
+            }
+
+    }}
+
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_8<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
-                        II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
-                                if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                                if (c32 >  0xFF)                return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = char(c32), true);
+                    char32_t c32;
+                    return json::imp::read_char_<X>(c32, i, e, 0xFF, cx) && (t = char(c32), true);
                 }
             };
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_16<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
-                        II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
-                                if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                                if (c32 >  0xFFFF)              return cio::rewind(i, o), cx/json::read_error::character_invalid;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    char32_t c32;
+                    return json::imp::read_char_<X>(c32, i, e, 0xFFFF, cx) && (t = T(c32), true);
                 }
         };
     template <typename X, typename T>
         struct read<JSON<X>, T, enable_if_t<cio::chr::is_char_32<T>::value>> {
             template <typename II, typename Cx>
                 static bool value(T& t, II& i, II e, Cx& cx) {
-                    if (!cio::consume<X>(cio::str::delim_be_read<X, II>, i, e, cx)) return false;
-                        II const o = i;
-                            char32_t const c32 = cio::chr::utf8_to_utf32<X>(i, e, cx);
-                                if (c32 == cio::chr::bad_utf32) return cio::rewind(i, o), false;
-                    return cio::consume<X>(cio::str::delim_en_read<X, II>, i, e, cx) && (t = T(c32), true);
+                    char32_t c32;
+                    return json::imp::read_char_<X>(c32, i, e, 0x10FFFF, cx) && (t = T(c32), true);
                 }
         };
 
-- 
2.43.0


From 0a9e2b234e98056d627c2d0c4b9bfee1f8e4bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 22/53] fix: JSON/CXCF: no white space inside of quoted numeric
 keys and bitsets

---
 src/cxon/lang/common/cio/key.hxx                | 5 +++--
 src/cxon/lang/json/lib/boost/dynamic_bitset.hxx | 2 +-
 src/cxon/lang/json/lib/std/bitset.hxx           | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/common/cio/key.hxx b/src/cxon/lang/common/cio/key.hxx
index 592a3ab..433b353 100644
--- a/src/cxon/lang/common/cio/key.hxx
+++ b/src/cxon/lang/common/cio/key.hxx
@@ -95,8 +95,9 @@ namespace cxon { namespace cio { namespace key {
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_key_(T& t, II& i, II e, Cx& cx) -> enable_if_t< needs_quotes<X, T>::value, bool> {
                 return  consume<X>(str::delim_be_read<X, II>, i, e, cx) &&
-                            read_value<unquoted_key_context<X>>(t, i, e, cx) &&
-                        consume<X>(str::delim_en_read<X, II>, i, e, cx)
+                            (!chr::is<X>::space(peek(i, e)) || cx/X::read_error::unexpected) && // the white space in quotes
+                            read_value<unquoted_key_context<X>>(t, i, e, cx) &&                 // belongs to the key
+                        (str::delim_en_read<X>(i, e) || cx/X::read_error::unexpected)
                 ;
             }
         template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
index ef2cc74..0dcad8f 100644
--- a/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
+++ b/src/cxon/lang/json/lib/boost/dynamic_bitset.hxx
@@ -43,7 +43,7 @@ namespace cxon {
                 static bool value(boost::dynamic_bitset<B, A>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/bitset.hxx b/src/cxon/lang/json/lib/std/bitset.hxx
index 1e0938c..cf401eb 100644
--- a/src/cxon/lang/json/lib/std/bitset.hxx
+++ b/src/cxon/lang/json/lib/std/bitset.hxx
@@ -45,7 +45,7 @@ namespace cxon {
                 static bool value(std::bitset<N>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(cio::str::delim_be_read<Y, II>, i, e, cx) &&
                                 json::imp::read_bits_<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(cio::str::delim_en_read<Y, II>, i, e, cx)
+                            (cio::str::delim_en_read<Y>(i, e) || cx/json::read_error::unexpected)
                     ;
                 }
         };
-- 
2.43.0


From c69ca841311d113ab705b22f56daa05fe1ec188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 23/53] fix: JSON: vertical tab and form feed are not white
 space

---
 src/cxon/lang/common/cio/chcls.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/chcls.hxx b/src/cxon/lang/common/cio/chcls.hxx
index b327420..35f92f5 100644
--- a/src/cxon/lang/common/cio/chcls.hxx
+++ b/src/cxon/lang/common/cio/chcls.hxx
@@ -62,7 +62,7 @@ namespace cxon { namespace cio { namespace chr { // character classes
         struct is {
             static bool ctrl   (char c) noexcept { return (unsigned char)c < 0x20; }
             static bool real   (char c) noexcept { return (unsigned char)c > 0x1F; }
-            static bool space  (char c) noexcept { return CXSP & is_x_[(unsigned char)c]; }
+            static bool space  (char c) noexcept { return (X::allow_comments ? CXSP : JSSP) & is_x_[(unsigned char)c]; } // RFC8259 has no \v and \f
             static bool digit8 (char c) noexcept { return DGOC & is_x_[(unsigned char)c]; }
             static bool digit10(char c) noexcept { return DGDC & is_x_[(unsigned char)c]; }
             static bool digit16(char c) noexcept { return DGHX & is_x_[(unsigned char)c]; }
-- 
2.43.0


From 5d0567bb62f14ff9328a75f3bd774b2b94d04804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 24/53] fix: class fields: no embedded zeros in names, no
 trailing separators in JSON

---
 src/cxon/lang/cbor/class.hxx       |  5 ++++-
 src/cxon/lang/common/cio/class.hxx | 28 +++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 68e7c27..9e35c8a 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -7,6 +7,7 @@
 #define CXON_CBOR_CLASS_HXX_
 
 #include "common/sink.hxx"
+#include <algorithm>
 #include <tuple>
 
 // interface ///////////////////////////////////////////////////////////////////
@@ -153,8 +154,10 @@ namespace cxon { namespace cbor { namespace cls {
             for ( ; n; --n) {
                 char id[bio::ids_len_max::constant<napa_type<Cx>>(64)] = {0};
                 II const o = i;
-                    if (!read_value<X>(id, i, e, cx))
+                    if (!cbor::cnt::read_array<X>(std::begin(id), std::end(id) - 1, i, e, cx))
                         return false;
+                    if (std::any_of(id + std::char_traits<char>::length(id), std::end(id), [](char c) { return c != 0; }))
+                        return bio::rewind(i, o), cx/cbor::read_error::unexpected; // embedded zeros
                     if (!imp::read_field_<X>(t, id, fs, st, i, e, cx))
                         return cx && (bio::rewind(i, o), cx/cbor::read_error::unexpected);
             }
diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index ae904f7..4ab9521 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -8,6 +8,7 @@
 
 #include "cio.hxx"
 #include "key.hxx"
+#include "string.hxx"
 #include "value.hxx"
 #include <tuple>
 
@@ -304,6 +305,20 @@ namespace cxon { namespace cio { namespace cls {
                 return imp::read_field_<Y>(option<3>(), t, name, fs, st, i, e, cx);
             }
 
+        // the name of a field, without embedded zeros as they don't occur in the names of the known ones
+        template <typename X, std::size_t N, typename II, typename Cx>
+            inline bool read_field_name_(char (&id)[N], II& i, II e, Cx& cx) {
+                using Y = conditional_t<X::unquote_quoted_keys, quoted_key_context<X>, X>;
+                using Z = unbind_traits_t<Y, key::simple_traits>;
+                auto c = cxon::cnt::make_range_container(std::begin(id), std::end(id) - 1);
+                if (!consume<Z>(i, e, cx) || !str::string_read<Z>(c, i, e, cx))
+                    return false;
+                *c.end() = '\0';
+                if (std::char_traits<char>::length(id) != c.size())
+                    return cx/X::read_error::unexpected;
+                return consume<X>(X::map::div, i, e, cx);
+            }
+
         template <typename X, typename T, typename ...Fs, typename II, typename Cx>
             inline auto read_fields_(T& t, const fields<Fs...>& fs, II& i, II e, Cx& cx)
                 -> enable_if_t<!is_bare_class<T>::value, bool>
@@ -319,12 +334,19 @@ namespace cxon { namespace cio { namespace cls {
                     if (peek(i, e) == X::map::end)
                         return ++i, true;
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        if (!read_field_name_<X>(id, i, e, cx))
                             return rewind(i, o), false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
-                        if (cnt::consume_sep<X, typename X::map>(i, e, cx))
+                        if (cnt::consume_sep<X, typename X::map>(i, e, cx)) {
+                            CXON_IF_CONSTEXPR (!X::allow_trailing_separators && X::map::sep != ' ') {
+                                if (!consume<X>(i, e, cx))
+                                    return false;
+                                if (peek(i, e) == X::map::end)
+                                    return cx/X::read_error::unexpected;
+                            }
                             continue;
+                        }
                     return cx && consume<X>(X::map::end, i, e, cx);
                 }
                 return true;
@@ -340,7 +362,7 @@ namespace cxon { namespace cio { namespace cls {
                         std::fill_n(st, sizeof...(Fs), 0);
                 for (char id[ids_len_max::constant<napa_type<Cx>>(64)]; i != e && *i; ) {
                     II const o = i;
-                        if (!read_map_key<X>(id, i, e, cx))
+                        if (!read_field_name_<X>(id, i, e, cx))
                             return false;
                         if (!read_field_<X>(t, id, fs, st, i, e, cx))
                             return cx && (rewind(i, o), cx/X::read_error::unexpected);
-- 
2.43.0


From 9a11a7fcc43381278b807bf5de60400cea2b85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 25/53] fix: JSON/CXCF pointers to characters: null resets,
 malformed null is an error, keys are not null

---
 src/cxon/lang/common/cio/string.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/string.hxx b/src/cxon/lang/common/cio/string.hxx
index 1ed8972..89368ad 100644
--- a/src/cxon/lang/common/cio/string.hxx
+++ b/src/cxon/lang/common/cio/string.hxx
@@ -191,8 +191,10 @@ namespace cxon { namespace cio { namespace str {
         {
             if (!consume<X>(i, e, cx))
                 return false;
-            if (peek(i, e) == *X::id::nil && consume<X>(X::id::nil, i, e))
-                return true;
+            CXON_IF_CONSTEXPR (!is_key_context<X>::value) {
+                if (peek(i, e) == *X::id::nil)
+                    return consume<X>(X::id::nil, i, e) ? (t = nullptr, true) : cx/X::read_error::unexpected;
+            }
             auto c = cxon::cnt::make_pointer_container<X, T>(cx);
             return string_read<X>(c, i, e, cx) && (c.push_back({}), t = c.release(), true);
         }
-- 
2.43.0


From f02e3ff9ea8b1f9c80f184f2c8c293d5d2a6e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:45 +0000
Subject: [PATCH 26/53] fix: CBOR node: simple values that cannot be encoded
 are rejected

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 7334d51..1e29595 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -152,7 +152,7 @@ namespace cxon {
                                 case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F: case 0x10: case 0x11: case 0x12: case 0x13:
                                     return  (t = T(b & Y::mnr), true);
                                 case 0x18:
-                                    return  (bio::get(t.value, 1, i, e)) ||
+                                    return  (bio::get(t.value, 1, i, e) && (t.value > 0x1F || t.value == 0x18 || t.value < 0x14)) || // what can be written
                                             (bio::rewind(i, o), cx/cbor::read_error::unexpected)
                                     ;
                                 case 0x14: case 0x15: case 0x16: case 0x17:
-- 
2.43.0


From c1d86eb9e38b579f2114b9fec4271663943fd9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:55 +0000
Subject: [PATCH 27/53] fix: skip nested CBOR data items without recursion

---
 src/cxon/lang/cbor/common/sink.hxx | 159 +++++++++++++----------------
 1 file changed, 71 insertions(+), 88 deletions(-)

diff --git a/src/cxon/lang/cbor/common/sink.hxx b/src/cxon/lang/cbor/common/sink.hxx
index 55e209e..e32e97a 100644
--- a/src/cxon/lang/cbor/common/sink.hxx
+++ b/src/cxon/lang/cbor/common/sink.hxx
@@ -6,6 +6,9 @@
 #ifndef CXON_CBOR_SINK_HXX_
 #define CXON_CBOR_SINK_HXX_
 
+#include <limits>
+#include <vector>
+
 // interface ///////////////////////////////////////////////////////////////////
 
 namespace cxon { namespace cbor {
@@ -96,103 +99,83 @@ namespace cxon { namespace cbor { namespace imp {
         struct sink_reader_<CBOR<X>, S> {
             template<typename II, typename Cx, typename Y = CBOR<X>>
                 static bool read(S& s, II& i, II e, Cx& cx) {
+                    II const o = i;
+                    return  read_items_<Y>(s, i, e) ||
+                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
+                    ;
+                }
+        private:
+            struct open_ { std::size_t left; unsigned step; };  // indefinite-length container: items left behind it, items per element
+            template<typename Y, typename II>
+                static bool read_items_(S& s, II& i, II e) { // nested items are counted, so that the nesting isn't bounded by the stack
                     auto t = std::back_inserter(s);
-                    auto const b = bio::peek(i, e);
-                    unsigned const mjr = b & Y::mjr;
-                    unsigned const mnr = b & Y::mnr;
-                    switch (mjr) {
-                        case Y::pint: case Y::nint: case Y::tag: case Y::svn: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e));
-                                case 0x18: case 0x19: case 0x1A: case 0x1B:
-                                    return  (bio::get(t, i, e, 1 + (1 << (mnr - 0x18)))) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x1C: case 0x1D: case 0x1E: case 0x1F:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
-                            }
-                        }
-                        case Y::bstr: case Y::tstr: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    return  (bio::get(t, i, e, 1 + mnr)) ||
-                                            (bio::rewind(i, o), cx/cbor::read_error::unexpected)
-                                    ;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    return  (
-                                                bio::get(t, i, e) &&
-                                                bio::get(n, 1U << (mnr - 0x18), i, e) &&
-                                                bio::poke(t, n, 1U << (mnr - 0x18)) &&
-                                                bio::get(t, i, e, n)
-                                            )   ||
-                                            (   bio::rewind(i, o), cx/cbor::read_error::unexpected
-                                            )
-                                    ;
-                                }
-                                case 0x1F:
-                                    do      (bio::get(t, i, e)); // should not fail
-                                    while   (bio::peek(i, e) != Y::brk);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                    std::vector<open_> open;
+                    for (std::size_t n = 1; n != 0 || !open.empty(); ) {
+                        if (n == 0) {
+                            if (bio::peek(i, e) == Y::brk) {
+                                if (!bio::get(t, i, e))
+                                    return false;
+                                n = open.back().left, open.pop_back();
+                                continue;
                             }
+                            n = open.back().step;
                         }
-                        case Y::arr: case Y::map: {
-                            II const o = i;
-                            switch (mnr) {
-                                case 0x00: case 0x01: case 0x02: case 0x03: case 0x04: case 0x05: case 0x06: case 0x07:
-                                case 0x08: case 0x09: case 0x0A: case 0x0B: case 0x0C: case 0x0D: case 0x0E: case 0x0F:
-                                case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: case 0x15: case 0x16: case 0x17:
-                                    bio::get(t, i, e); // should not fail
-                                    for (unsigned j = 0; j != mnr; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                case 0x18: case 0x19: case 0x1A: case 0x1B: {
-                                    std::size_t n;
-                                    if (!bio::get(t, i, e) || !bio::get(n, 1U << (mnr - 0x18), i, e) || !bio::poke(t, n, 1U << (mnr - 0x18)))
-                                        return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    for (unsigned j = 0; j != n; ++j)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  true;
-                                }
-                                case 0x1F:
+                        auto const b = bio::peek(i, e);
+                        unsigned const mjr = b & Y::mjr;
+                        unsigned const mnr = b & Y::mnr;
+                        if (mnr > 0x1B && mnr != 0x1F)
+                            return false;
+                        --n;
+                        switch (mjr) {
+                            case Y::pint: case Y::nint: case Y::tag: case Y::svn:
+                                if (mnr == 0x1F || !bio::get(t, i, e, mnr < 0x18 ? 1 : 1 + (1 << (mnr - 0x18))))
+                                    return false;
+                                break;
+                            case Y::bstr: case Y::tstr:
+                                if (mnr == 0x1F) {
                                     bio::get(t, i, e); // should not fail
                                     while (bio::peek(i, e) != Y::brk)
-                                        if (!read_element(s, mjr, i, e, cx))
-                                            return (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                    return  (bio::get(t, i, e) || (bio::rewind(i, o), cx/cbor::read_error::unexpected));
-                                case 0x1C: case 0x1D: case 0x1E:
-                                    return  (bio::rewind(i, o), cx/cbor::read_error::unexpected);
-                                default:                                            // LCOV_EXCL_LINE
-                                    return  CXON_ASSERT(0, "unexpected"), false;    // LCOV_EXCL_LINE
+                                        bio::get(t, i, e); // should not fail
+                                    if (!bio::get(t, i, e))
+                                        return false;
+                                }
+                                else if (!read_string_<Y>(s, i, e))
+                                    return false;
+                                break;
+                            case Y::arr: case Y::map: {
+                                unsigned const k = mjr == Y::map ? 2 : 1;
+                                std::size_t m = mnr;
+                                bio::get(t, i, e); // should not fail
+                                if (mnr == 0x1F) {
+                                    open.push_back({ n, k }), n = 0;
+                                    break;
+                                }
+                                if (mnr > 0x17 && (!bio::get(m, 1U << (mnr - 0x18), i, e) || !bio::poke(t, m, 1U << (mnr - 0x18))))
+                                    return false;
+                                if (m > (std::numeric_limits<std::size_t>::max() - n) / k)
+                                    return false;
+                                n += m * k;
+                                break;
                             }
+                            default:                                        // LCOV_EXCL_LINE
+                                return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
                         }
-                        default:                                        // LCOV_EXCL_LINE
-                            return CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
                     }
+                    return true;
                 }
-            template<typename II, typename Cx, typename Y = CBOR<X>>
-                static bool read_element(S& s, bio::byte m, II& i, II e, Cx& cx) {
-                    switch (m) {
-                        case Y::map:    return  sink_read<Y>(s, i, e, cx) &&
-                                                sink_read<Y>(s, i, e, cx);
-                        case Y::arr:    return  sink_read<Y>(s, i, e, cx);
-                        default:        return  CXON_ASSERT(0, "unexpected"), false; // LCOV_EXCL_LINE
-                    }
+            template<typename Y, typename II>
+                static bool read_string_(S& s, II& i, II e) {
+                    auto t = std::back_inserter(s);
+                    unsigned const mnr = bio::peek(i, e) & Y::mnr;
+                    if (mnr < 0x18)
+                        return bio::get(t, i, e, 1 + mnr);
+                    std::size_t n;
+                    return  mnr < 0x1C &&
+                            bio::get(t, i, e) &&
+                            bio::get(n, 1U << (mnr - 0x18), i, e) &&
+                            bio::poke(t, n, 1U << (mnr - 0x18)) &&
+                            bio::get(t, i, e, n)
+                    ;
                 }
         };
 
-- 
2.43.0


From fc3b579c6ff332589a7c65a9e42866ec493f5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:55 +0000
Subject: [PATCH 28/53] fix: limit the depth of tags when a JSON node is read
 from CBOR

---
 src/cxon/lib/node.cbor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lib/node.cbor.hxx b/src/cxon/lib/node.cbor.hxx
index 1e29595..6149e73 100644
--- a/src/cxon/lib/node.cbor.hxx
+++ b/src/cxon/lib/node.cbor.hxx
@@ -217,7 +217,7 @@ namespace cxon {
                                 case X::tstr            :                       return read_value<Y>(CXON_IMBUE(string),        i, e, cx);
                                 case X::arr             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(array),         i, e, cx); }
                                 case X::map             : { CXON_NODE_RG();     return read_value<Y>(CXON_IMBUE(object),        i, e, cx); }
-                                case X::tag             :                       return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx);
+                                case X::tag             : { CXON_NODE_RG();     return cbor::tag::read<Y>(i, e, cx) && value(t, i, e, cx); }
                                 case X::svn:
                                     switch (b) {
                                         case X::neg: case X::pos
-- 
2.43.0


From 64506dbe401bc4e95c5bba41b5ea04bdfe5f9ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:55 +0000
Subject: [PATCH 29/53] fix: do not read past the end when a skipped value is
 missing

---
 src/cxon/lang/common/cio/value.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 037578c..1b9e2be 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -35,6 +35,7 @@ namespace cxon { namespace cio { namespace val {
             struct value_ {
                 template <typename O, typename II>
                     static bool skip(O& o, II& i, II e) {
+                        if (i == e)                 return false;
                         if (*i == X::map::end)      return false;
                         CXON_IF_CONSTEXPR (X::list::end != X::map::end)
                             if (*i == X::list::end) return false;
-- 
2.43.0


From c319c18f4ef7faf24144986c153fa60ed6e5b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 30/53] fix: node imbue and construct survive an exception of
 the constructor: the kind was set before and the block leaked

---
 src/cxon/lang/cbor/node/node.hxx    | 3 ++-
 src/cxon/lang/common/node-value.hxx | 8 ++++++--
 src/cxon/lang/json/node/node.hxx    | 3 ++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index 91b4d8a..e299940 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -451,8 +451,9 @@ namespace cxon { namespace cbor { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
+                    reset();
                     value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 2ab8016..21ec8b6 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -275,8 +275,12 @@ namespace cxon { namespace value {
                     {
                         using at = alc::rebind_t<allocator_type, T>;
                         at    al(n.alloc_);
-                        get<T*>(n) = std::allocator_traits<at>::allocate(al, 1);
-                        alc::uninitialized_construct_using_allocator<T>(get<T*>(n), al, std::forward<A>(t)...);
+                        struct guard_ { // the block has to go if the constructor throws
+                            at& al; T* t;
+                            ~guard_() { if (t) std::allocator_traits<at>::deallocate(al, t, 1); }
+                        }     bl = { al, std::allocator_traits<at>::allocate(al, 1) };
+                        alc::uninitialized_construct_using_allocator<T>(bl.t, al, std::forward<A>(t)...);
+                        get<T*>(n) = bl.t, bl.t = nullptr;
                     }
             // destruct
                 template <typename T>
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 5fca298..1e4a7aa 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -387,8 +387,9 @@ namespace cxon { namespace json { // node
                 noexcept(noexcept(value::construct<T>(std::declval<basic_node&>())))
             {
                 if (!is<T>()) {
-                    reset(), kind_ = node_kind_<basic_node, T>::value;
+                    reset();
                     value::construct<T>(*this);
+                    kind_ = node_kind_<basic_node, T>::value;
                 }
                 return value::get<T>(*this);
             }
-- 
2.43.0


From ef49dc66536903cb027def47241c2571a5ac8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 31/53] fix: reading JSON into a static_vector that is not
 empty throws on overflow instead of reporting it

---
 src/cxon/lang/json/lib/boost/container/static_vector.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/lib/boost/container/static_vector.hxx b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
index 9bb0d8c..d1b36de 100644
--- a/src/cxon/lang/json/lib/boost/container/static_vector.hxx
+++ b/src/cxon/lang/json/lib/boost/container/static_vector.hxx
@@ -19,7 +19,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = JSON<X>>
                 static bool value(boost::container::static_vector<T, N>& t, II& i, II e, Cx& cx) {
                     II const o = i;
-                        std::size_t p = 0;
+                        std::size_t p = t.size();
                     return cio::cnt::read_list<Y>(i, e, cx, [&] {
                         if (++p <= N)
                             return read_value<Y>(cnt::emplace(t), i, e, cx);
-- 
2.43.0


From 9348d35a4295021f264157b67b4f7d1016cedb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 32/53] fix: an exception while reading a valarray from JSON
 frees its elements twice

---
 src/cxon/lang/json/lib/std/valarray.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/json/lib/std/valarray.hxx b/src/cxon/lang/json/lib/std/valarray.hxx
index a9970c4..aea822c 100644
--- a/src/cxon/lang/json/lib/std/valarray.hxx
+++ b/src/cxon/lang/json/lib/std/valarray.hxx
@@ -22,16 +22,16 @@ namespace cxon {
                     std::size_t p = 0;
                     bool const r = cio::cnt::read_list<Y>(i, e, cx, [&] {
                         if (p >= v.size()) {
-                            std::valarray<T> n(std::move(v));
-                            v.resize(p + p);
-                                for (std::size_t i = 0; i != p; ++i) v[i] = n[i];
+                            std::valarray<T> n(p + p); // resize may throw and leave the array invalid
+                                for (std::size_t i = 0; i != p; ++i) n[i] = std::move(v[i]);
+                            v.swap(n);
                         }
                         return read_value<Y>(v[p], i, e, cx) && (++p, true);
                     });
                         if (!r) return false;
-                    t.resize(p);
-                        for (std::size_t j = 0; j != p; ++j) t[j] = v[j];
-                    return true;
+                    std::valarray<T> n(p);
+                        for (std::size_t j = 0; j != p; ++j) n[j] = std::move(v[j]);
+                    return t.swap(n), true;
                 }
         };
 
-- 
2.43.0


From 8a07f18dae1f2269f2a04e25880d817c8863b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 33/53] fix: an exception of a random-access source terminates
 the process

---
 src/cxon/lang/common/bio/io.hxx    | 2 +-
 src/cxon/lang/common/container.hxx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/bio/io.hxx b/src/cxon/lang/common/bio/io.hxx
index 44e02bb..a0b90ae 100644
--- a/src/cxon/lang/common/bio/io.hxx
+++ b/src/cxon/lang/common/bio/io.hxx
@@ -126,7 +126,7 @@ namespace cxon { namespace bio {
             struct buffer_<N, II, true> {
                 explicit buffer_(II f) noexcept : s_(f) {}
                 void append(II, II) noexcept {}
-                byte operator [](int i) const noexcept  { return s_[i]; }
+                byte operator [](int i) const           { return s_[i]; }
                 private:
                     II s_;
             };
diff --git a/src/cxon/lang/common/container.hxx b/src/cxon/lang/common/container.hxx
index cfcf46e..fa4a9e9 100644
--- a/src/cxon/lang/common/container.hxx
+++ b/src/cxon/lang/common/container.hxx
@@ -342,7 +342,7 @@ namespace cxon { namespace cnt {
             }
 
             template <typename II>
-                auto append(II f, II l) noexcept
+                auto append(II f, II l)
                     -> enable_if_t<is_forward_iterator<II>::value, bool>
                 {
 #                   if defined(__GNUC__) && __GNUC__ >= 7 && !defined(__clang__)
-- 
2.43.0


From d015f4181298932eb4a0d4eb11063642c1aa378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 34/53] fix: pointers read leak when the read is interrupted by
 an exception

---
 src/cxon/lang/cbor/compound.hxx    |  8 +++----
 src/cxon/lang/common/allocator.hxx | 37 +++++++++++++++++++++++++-----
 src/cxon/lang/json/compound.hxx    |  8 +++----
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 2495fd1..8c0b2a2 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -56,10 +56,10 @@ namespace cxon { // pointer/read
                 if (bio::peek(i, e) == X::nil)
                     return bio::get(i, e), t = nullptr, true;
                 auto al = alc::make_context_allocator<T>(cx);
-                T *const v = al.create();
-                    if (!v || !read_value<X>(*v, i, e, cx))
-                        return al.release(v), false;
-                return t = v, true;
+                typename decltype(al)::holder v(al, al.create());
+                return  v.t && read_value<X>(*v.t, i, e, cx) &&
+                        (t = v.take(), true)
+                ;
             }
 
         template <typename X, typename T, typename II, typename Cx>
diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 78269e1..61c2156 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -207,14 +207,14 @@ namespace cxon { namespace alc {
 
             template <typename ...A>
                 T* create(A&&... as) {
-                    auto t = tr::allocate(al_, 1);
-                    return t ? construct(t, std::forward<A>(as)...), t : t;
+                    block b(*this, 1);
+                    return b.t ? construct(b.t, std::forward<A>(as)...), b.take() : b.t;
                 }
             T* create(std::size_t n) {
-                auto p = tr::allocate(al_, n);
-                    if (p) for (T *t = p, *te = t + n; t != te; ++t)
-                        construct(t);
-                return p;
+                block b(*this, n);
+                    if (b.t) for (T *t = b.t, *te = t + n; t != te; ++t)
+                        construct(t), ++b.constructed;
+                return b.take();
             }
 
             void release(T* t) {
@@ -238,9 +238,34 @@ namespace cxon { namespace alc {
             template <typename U = T> auto destroy(U *)
                 -> enable_if_t< std::is_trivial<U>::value> {}
 
+            struct holder { // releases what is not taken
+                holder(basic_allocator& a, T* t) : t(t), a_(a) {}
+                holder(const holder&) = delete;
+                ~holder()   { a_.release(t); }
+                T* take()   { T *const r = t; return t = nullptr, r; }
+                T* t;
+                private:
+                    basic_allocator& a_;
+            };
+
             private:
                 using tr = std::allocator_traits<type>;
                 type al_;
+
+                struct block { // if a constructor throws
+                    block(basic_allocator& a, std::size_t n) : t(tr::allocate(a.al_, n)), constructed(0), a_(a), n_(n) {}
+                    block(const block&) = delete;
+                    ~block() {
+                        if (t) {
+                            while (constructed) a_.destroy(t + --constructed);
+                            tr::deallocate(a_.al_, t, n_);
+                        }
+                    }
+                    T* take()   { T *const r = t; return t = nullptr, r; }
+                    T* t; std::size_t constructed;
+                    private:
+                        basic_allocator& a_; std::size_t n_;
+                };
         };
 
     template <typename T, typename Cx, typename Al>
diff --git a/src/cxon/lang/json/compound.hxx b/src/cxon/lang/json/compound.hxx
index 460a832..6226dde 100644
--- a/src/cxon/lang/json/compound.hxx
+++ b/src/cxon/lang/json/compound.hxx
@@ -31,10 +31,10 @@ namespace cxon { // pointer
                         ;
                     }
                     auto al = alc::make_context_allocator<T>(cx);
-                    T *const n = al.create();
-                        if (!read_value<Y>(*n, i, e, cx))
-                            return al.release(n), false;
-                    return t = n, true;
+                    typename decltype(al)::holder n(al, al.create());
+                    return  read_value<Y>(*n.t, i, e, cx) &&
+                            (t = n.take(), true)
+                    ;
                 }
         };
     template <typename X, typename T>
-- 
2.43.0


From 306c07067c85dc11405b07c4e2b4dfac0607e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 35/53] fix: node assignment and swap: a part of the target as
 a source, exceptions, unequal allocators

---
 src/cxon/lang/cbor/node/node.hxx    |   2 +-
 src/cxon/lang/common/node-value.hxx | 224 +++++++---------------------
 src/cxon/lang/json/node/node.hxx    |   2 +-
 3 files changed, 60 insertions(+), 168 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index e299940..f6237f6 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -195,7 +195,7 @@ namespace cxon { namespace cbor { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
diff --git a/src/cxon/lang/common/node-value.hxx b/src/cxon/lang/common/node-value.hxx
index 21ec8b6..eaa7761 100644
--- a/src/cxon/lang/common/node-value.hxx
+++ b/src/cxon/lang/common/node-value.hxx
@@ -58,6 +58,8 @@ namespace cxon { namespace value {
 
         template <typename N>
             using is_nothrow_move_constructible = typename controller<N>::is_nothrow_move_constructible;
+        template <typename N>
+            using is_nothrow_move_constructible_using_allocator = typename controller<N>::is_nothrow_move_constructible_using_allocator;
         template <typename N>
             using is_nothrow_move_assignable    = typename controller<N>::is_nothrow_move_assignable;
 
@@ -79,6 +81,7 @@ namespace cxon { namespace value {
             using propagate_on_container_move_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_move_assignment;
             using propagate_on_container_copy_assignment    = typename std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment;
             using propagate_on_container_swap               = typename std::allocator_traits<allocator_type>::propagate_on_container_swap;
+            using has_equal_allocators                      = std::is_empty<allocator_type>;
 
             // value access
                 template <typename T, typename M>
@@ -99,10 +102,13 @@ namespace cxon { namespace value {
                     }
             // move construct
                 template <typename T>
-                    static auto move_construct(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
+                    static auto move_construct(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value && has_equal_allocators::value)
                         -> enable_if_t<!is_dynamic_type<T>::value && !std::is_trivially_assignable<T, T>::value>
                     {
-                        alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            new (&get<T>(n)) T(std::move(get<T>(o)));
+                        else
+                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
                     }
                 template <typename T>
                     static auto move_construct(N& n, N&& o) noexcept
@@ -111,80 +117,33 @@ namespace cxon { namespace value {
                         get<T>(n) = get<T>(o);
                     }
                 template <typename T>
-                    static auto move_construct(N& n, N&& o) noexcept
+                    static auto move_construct(N& n, N&& o) noexcept(has_equal_allocators::value)
                         -> enable_if_t< is_dynamic_type<T>::value>
                     {
-                        get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        if (n.alloc_ == o.alloc_) // TODO: likely
+                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
+                        else
+                            construct<T>(n, std::move(get<T>(o)));
                     }
             // move assign
-                template <typename T>
+                template <typename T, typename P = propagate_on_container_move_assignment>
                     static auto move_assign(N& n, N&& o) noexcept(std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
+                        -> enable_if_t< P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                        }
-                        return n;
+                        auto const k = o.kind_;
+                        N t(std::move(o)); // o may be n or a part of it
+                        n.reset(), n.alloc_ = std::move(t.alloc_);
+                        return move_construct<T>(n, std::move(t)), n.kind_ = k, n;
                     }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o) noexcept
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            destruct<T>(n), n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = std::move(o.alloc_);
-                            get<T*>(n) = get<T*>(o), o.kind_ = N::kind_default_;
-                        }
-                        return n;
-                    }
-                template <typename T>
+                template <typename T, typename P = propagate_on_container_move_assignment>
                     static auto move_assign(N& n, N&& o)
-                        noexcept(std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
+                        noexcept(!is_dynamic_type<T>::value && std::is_nothrow_move_constructible<T>::value && has_equal_allocators::value)
+                        -> enable_if_t<!P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto move_assign(N& n, N&& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_move_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::move(get<T>(o)));
-                            else
-                                alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            if (n.alloc_ == o.alloc_) // TODO: likely
-                                construct<T>(n, std::move(get<T>(o)));
-                            else
-                                construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                        auto const k = o.kind_;
+                        N t(std::move(o), n.alloc_); // o may be n or a part of it
+                        n.reset();
+                        return move_construct<T>(n, std::move(t)), n.kind_ = k, n;
                     }
             // copy construct
                 template <typename T>
@@ -206,65 +165,27 @@ namespace cxon { namespace value {
                         construct<T>(n, get<T>(o));
                     }
             // copy assign
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value &&  propagate_on_container_copy_assignment::value, N&>
-                    {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T(), n.alloc_ = o.alloc_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_, n.alloc_ = o.alloc_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
-                    }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o) noexcept(std::is_nothrow_copy_constructible<T>::value)
-                        -> enable_if_t<!is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
+                template <typename T, typename P = propagate_on_container_copy_assignment>
+                    static auto copy_assign(N& n, const N& o) noexcept(!is_dynamic_type<T>::value && std::is_nothrow_copy_constructible<T>::value)
+                        -> enable_if_t< P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        return n;
+                        auto const k = o.kind_;
+                        N t(o, o.alloc_); // o may be n or a part of it
+                        n.reset(), n.alloc_ = t.alloc_;
+                        return move_construct<T>(n, std::move(t)), n.kind_ = k, n;
                     }
-                template <typename T>
-                    static auto copy_assign(N& n, const N& o)
-                        -> enable_if_t< is_dynamic_type<T>::value && !propagate_on_container_copy_assignment::value, N&>
+                template <typename T, typename P = propagate_on_container_copy_assignment>
+                    static auto copy_assign(N& n, const N& o) noexcept(!is_dynamic_type<T>::value && std::is_nothrow_copy_constructible<T>::value)
+                        -> enable_if_t<!P::value, N&>
                     {
-                        if (n.kind_ == o.kind_) {
-                            get<T>(n).~T();
-                            alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, get<T>(o));
-                        }
-                        else {
-                            n.reset(), n.kind_ = o.kind_;
-                            construct<T>(n, get<T>(o));
-                        }
-                        return n;
+                        auto const k = o.kind_;
+                        N t(o, n.alloc_); // o may be n or a part of it
+                        n.reset();
+                        return move_construct<T>(n, std::move(t)), n.kind_ = k, n;
                     }
             // construct
                 template <typename T, typename ...A>
-                    static auto construct(N& n, A&&... t) noexcept(std::is_nothrow_constructible<T, A&&...>::value)
+                    static auto construct(N& n, A&&... t) noexcept(is_nothrow_constructible<T, A...>::value)
                         ->  enable_if_t<!is_dynamic_type<T>::value>
                     {
                         alc::uninitialized_construct_using_allocator<T>(&get<T>(n), n.alloc_, std::forward<A>(t)...);
@@ -296,55 +217,22 @@ namespace cxon { namespace value {
                     }
             // swap
                 private:
-                    template <typename T>
-                        static auto swap_(option<1>, T& f, T& s) -> decltype(f.swap(s), void()) {
-                            f.swap(s);
-                        }
-                    template <typename T>
-                        static auto swap_(option<0>, T& f, T& s) -> void {
-                            T t = std::move(f); f = std::move(s), s = std::move(t);
-                        }
-                    template <typename T>
-                        static void swap_(T& f, T& s) {
-                            swap_(option<1>(), f, s);
-                        }
-                    template <typename F, typename S>
-                        struct ndes_ {
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value &&  propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    auto a = std::move(f.alloc_);
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)), std::move(s.alloc_));
-                                    destruct<V>(s); construct<U>(s, std::move(t), std::move(a));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                            template <typename U = F, typename V = S>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !std::is_void<V>::value && !propagate_on_container_swap::value> {
-                                    auto t = std::move(get<U>(f));
-                                    destruct<U>(f); construct<V>(f, std::move(get<V>(s)));
-                                    destruct<V>(s); construct<U>(s, std::move(t));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
-                    template <typename T>
-                        struct ndes_<T, T> {
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value &&  propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                    swap_(f.alloc_, s.alloc_);
-                                }
-                            template <typename U = T>
-                                static auto swap(N& f, N& s) -> enable_if_t<!std::is_void<U>::value && !propagate_on_container_swap::value> {
-                                    swap_(get<T>(f), get<T>(s));
-                                    swap_(f.kind_, s.kind_);
-                                }
-                        };
+                    template <typename A>
+                        static auto assign_(A& t, const A& f) -> enable_if_t< propagate_on_container_swap::value && std::is_same<A, allocator_type>::value> { t = f; }
+                    template <typename A>
+                        static auto assign_(A&,   const A&)   -> enable_if_t<!propagate_on_container_swap::value && std::is_same<A, allocator_type>::value> {}
                 public:
 
                 template <typename F, typename S>
                     static void swap(N& f, N& s) {
-                        ndes_<F, S>::swap(f, s);
+                        if (&f == &s) return;
+                        auto const kf = f.kind_;
+                        auto const ks = s.kind_;
+                        N t(std::move(f));
+                        f.reset(), assign_(f.alloc_, s.alloc_);
+                        move_construct<S>(f, std::move(s)), f.kind_ = ks;
+                        s.reset(), assign_(s.alloc_, t.alloc_);
+                        move_construct<F>(s, std::move(t)), s.kind_ = kf;
                     }
 
             // exception specification
@@ -352,9 +240,13 @@ namespace cxon { namespace value {
                 using has_dynamic_types             = type_sequence_disjunction<N::template is_dynamic_type_, dynamic_types>;
 
                 template <typename T, typename ...A>
-                    using is_nothrow_constructible  = bool_constant<!is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value>;
+                    using is_nothrow_constructible  = bool_constant<
+                        !is_dynamic_type<T>::value && std::is_nothrow_constructible<T, A&&...>::value &&
+                        (has_equal_allocators::value || !std::uses_allocator<T, allocator_type>::value)
+                    >;
 
                 using is_nothrow_move_constructible = bool_constant<type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value>;
+                using is_nothrow_move_constructible_using_allocator = bool_constant<is_nothrow_move_constructible::value && has_equal_allocators::value>;
                 using is_nothrow_move_assignable    = bool_constant<
                     !has_dynamic_types::value &&
                     type_sequence_conjunction<std::is_nothrow_move_constructible, dynamic_types>::value &&
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 1e4a7aa..48fe98a 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -160,7 +160,7 @@ namespace cxon { namespace json { // node
                 }
             }
             basic_node(basic_node&& o, const allocator_type& al)
-                noexcept(value::is_nothrow_move_constructible<basic_node>::value)
+                noexcept(value::is_nothrow_move_constructible_using_allocator<basic_node>::value)
             :   kind_(o.kind_), alloc_(al)
             {
                 switch (o.kind_) {
-- 
2.43.0


From ff648f6e7ea4edb082a56ebaba6450d3c60b2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:46 +0000
Subject: [PATCH 36/53] fix: node: assignment of an initializer list keeps the
 members of the old value and leaks on exception

---
 src/cxon/lang/cbor/node/node.hxx | 7 ++++---
 src/cxon/lang/json/node/node.hxx | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index f6237f6..f23290b 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -344,16 +344,17 @@ namespace cxon { namespace cbor { // node
                     bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
+                    basic_node t(alloc_);
                     if (obj) {
-                        auto& o = imbue<map>();
+                        auto& o = t.template imbue<map>();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, {a[0], a[1]});
                         }
                     }
                     else
-                        imbue<array>() = l;
-                    return *this;
+                        t.template imbue<array>() = l;
+                    return *this = std::move(t);
                 }
 
             // literals
diff --git a/src/cxon/lang/json/node/node.hxx b/src/cxon/lang/json/node/node.hxx
index 48fe98a..c570f76 100644
--- a/src/cxon/lang/json/node/node.hxx
+++ b/src/cxon/lang/json/node/node.hxx
@@ -284,16 +284,17 @@ namespace cxon { namespace json { // node
                     bool const obj = l.size() == 0 || std::all_of(l.begin(), l.end(), [&](const basic_node& e) {
                         return e.template is<array>() && e.template get<array>().size() == 2;
                     });
+                    basic_node t(alloc_);
                     if (obj) {
-                        auto& o = imbue<object>();
+                        auto& o = t.template imbue<object>();
                         for (auto& e : l) {
                             auto& a = e.template get<array>();
                             cxon::cnt::append(o, { a[0], a[1] });
                         }
                     }
                     else
-                        imbue<array>() = l;
-                    return *this;
+                        t.template imbue<array>() = l;
+                    return *this = std::move(t);
                 }
 
             // literals
-- 
2.43.0


From 12988d43ea2d2a1c9cab9c3294773ef6821285e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 37/53] fix: skipped values: separators other than a space,
 comments and escapes in CXCF, values at the end of the input

---
 src/cxon/lang/common/cio/value.hxx | 44 ++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/value.hxx b/src/cxon/lang/common/cio/value.hxx
index 1b9e2be..8615c28 100644
--- a/src/cxon/lang/common/cio/value.hxx
+++ b/src/cxon/lang/common/cio/value.hxx
@@ -54,7 +54,15 @@ namespace cxon { namespace cio { namespace val {
                         static bool skip_cnt_(O& o, II& i, II e) {
                             if (!poke(o, *i)) return false;
                             unsigned r = 0;
-                            for (++i; i != e; ++i) {
+                            bool d = true; // comments are possible after delimiters
+                            for (++i; i != e; ) {
+                                CXON_IF_CONSTEXPR (X::allow_comments) {
+                                    if (d && *i == '/') {
+                                        if (!skip_cmt_(o, i, e)) return false;
+                                        continue;
+                                    }
+                                    d = is_del_(*i);
+                                }
                                 switch (*i) {
                                     case CB:                CXON_POKE(o, *i);
                                                             ++r; break;
@@ -63,11 +71,39 @@ namespace cxon { namespace cio { namespace val {
                                                             --r; break;
                                     case X::string::del:    if (!skip_s_(o, i, e)) return false;
                                                             break;
+                                    case '\\':              CXON_POKE(o, *i);
+                                                            if (++i == e) return false;
+                                                            CXON_POKE(o, *i); break;
                                     default:                CXON_POKE(o, *i);
                                 }
+                                ++i;
                             }
                             return false;
                         }
+                    template <typename O, typename II>
+                        static bool skip_cmt_(O& o, II& i, II e) {
+                            CXON_POKE(o, *i);
+                            if (++i == e) return false;
+                            switch (*i) {
+                                case '/':   for ( ; i != e && *i != '\n'; ++i) CXON_POKE(o, *i);
+                                            break;
+                                case '*':   CXON_POKE(o, *i);
+                                            for (char p = (++i, '\0'); i != e && !(p == '*' && *i == '/'); ++i) {
+                                                CXON_POKE(o, *i);
+                                                p = *i;
+                                            }
+                                            if (i == e) return false;
+                                            CXON_POKE(o, *i);
+                                            ++i;
+                            }
+                            return true;
+                        }
+                    static bool is_del_(char c) {
+                        return  c == X::map::beg    || c == X::map::end     || c == X::map::sep     || c == X::map::div ||
+                                c == X::list::beg   || c == X::list::end    || c == X::list::sep    ||
+                                c == X::string::del || chr::is<X>::space(c)
+                        ;
+                    }
                     template <typename O, typename II>
                         static bool skip_str_(O& o, II& i, II e) {
                             return skip_s_(o, i, e) && (++i, true);
@@ -95,9 +131,13 @@ namespace cxon { namespace cio { namespace val {
                                 if (*i == X::map::sep)      return true;
                                 CXON_IF_CONSTEXPR (X::list::sep != X::map::sep)
                                     if (*i == X::list::sep) return true;
+                                CXON_IF_CONSTEXPR (X::map::sep == ' ' || X::list::sep == ' ')
+                                    if (chr::is<X>::space(*i)) return true;
+                                CXON_IF_CONSTEXPR (X::allow_comments)
+                                    if (*i == '/')          return true;
                                 CXON_POKE(o, *i);
                             }
-                            return false;
+                            return true;
                         }
 #               undef CXON_POKE
             };
-- 
2.43.0


From ab6a06c00ec83ae949a2d96f2ca6f98ef50fcdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 38/53] fix: reading classes compared member names longer than
 the name buffer beyond its end

---
 src/cxon/lang/cbor/class.hxx       | 7 ++++++-
 src/cxon/lang/common/cio/class.hxx | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/cbor/class.hxx b/src/cxon/lang/cbor/class.hxx
index 9e35c8a..78b40e0 100644
--- a/src/cxon/lang/cbor/class.hxx
+++ b/src/cxon/lang/cbor/class.hxx
@@ -119,11 +119,16 @@ namespace cxon { namespace cbor { namespace cls {
 
     namespace imp {
 
+        template <typename F>
+            inline bool is_field_name_(const F& f, const char* name) { // the known names may be longer than what the buffer for the read ones can hold
+                return std::char_traits<char>::length(name) == f.nale && std::char_traits<char>::compare(f.name, name, f.nale) == 0;
+            }
+
         template <typename X, std::size_t N, std::size_t L>
             struct read_ {
                 template <typename T, typename Fs, typename II, typename Cx>
                     static bool field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx) {
-                        return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                        return st[N] == 0 && is_field_name_(std::get<N>(fs), name) ?
                             (st[N] = 1, read_field<X>(t, std::get<N>(fs), i, e, cx)) :
                             read_<X, N + 1, L>::field(t, name, fs, st, i, e, cx)
                         ;
diff --git a/src/cxon/lang/common/cio/class.hxx b/src/cxon/lang/common/cio/class.hxx
index 4ab9521..44fe795 100644
--- a/src/cxon/lang/common/cio/class.hxx
+++ b/src/cxon/lang/common/cio/class.hxx
@@ -243,13 +243,18 @@ namespace cxon { namespace cio { namespace cls {
             }
             namespace imp { // linear search
 
+                template <typename F>
+                    inline bool is_field_name_(const F& f, const char* name) { // the known names may be longer than what the buffer for the read ones can hold
+                        return std::char_traits<char>::length(name) == f.nale && std::char_traits<char>::compare(f.name, name, f.nale) == 0;
+                    }
+
                 template <typename X, std::size_t N, std::size_t L>
                     struct read_ {
                         template <typename T, typename Fs, typename II, typename Cx, typename Y = X>
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t< Y::assume_unique_object_keys, bool>
                             {
-                                return st[N] == 0 && std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return st[N] == 0 && is_field_name_(std::get<N>(fs), name) ?
                                     (st[N] = 1, read_field_<Y>(t, std::get<N>(fs), i, e, cx)) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
@@ -258,7 +263,7 @@ namespace cxon { namespace cio { namespace cls {
                             static auto field(T& t, const char* name, const Fs& fs, int (&st)[L], II& i, II e, Cx& cx)
                                 -> enable_if_t<!Y::assume_unique_object_keys, bool>
                             {
-                                return std::char_traits<char>::compare(std::get<N>(fs).name, name, std::get<N>(fs).nale + 1) == 0 ?
+                                return is_field_name_(std::get<N>(fs), name) ?
                                     read_field_<Y>(t, std::get<N>(fs), i, e, cx) :
                                     read_<Y, N + 1, L>::field(t, name, fs, st, i, e, cx)
                                 ;
-- 
2.43.0


From 4f9b1054b2aeeb530ecf5bf73c5bc700cfd7ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 39/53] fix: indenting into a bounded range or a positional
 output iterator wrote pieces through a copy and lost the position

---
 src/cxon/lang/json/tidy.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index c006265..20b96f8 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -207,22 +207,22 @@ namespace cxon { namespace json {
                 }
 
             bool append(const char* f, const char* l) {
-                return append([&](out_type o) {
+                return append([&](typename std::remove_reference<out_type>::type& o) {
                     return cio::poke(o, f, l);
                 });
             }
             bool append(const char* s, std::size_t n) {
-                return append([&](out_type o) {
+                return append([&](typename std::remove_reference<out_type>::type& o) {
                     return cio::poke(o, s, n);
                 });
             }
             bool append(const char* s) {
-                return append([&](out_type o) {
+                return append([&](typename std::remove_reference<out_type>::type& o) {
                     return cio::poke(o, s);
                 });
             }
             bool append(unsigned n, char c) {
-                return append([&](out_type o) {
+                return append([&](typename std::remove_reference<out_type>::type& o) {
                     return cio::poke(o, n, c);
                 });
             }
-- 
2.43.0


From c101587251956733fb35dd0698e92a788794215f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 40/53] fix: a refused line break behind a comma was ignored by
 the indenter

---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index 20b96f8..1617ae1 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -157,7 +157,9 @@ namespace cxon { namespace json {
                             case '}': case ']':
                                 break;
                             default:
-                                mut(stt::grn),   poke(o_, '\n') && poke(o_, lvl_, pad_);
+                                mut(stt::grn);
+                                if (!poke(o_, '\n') || !poke(o_, lvl_, pad_))
+                                    return false;
                         }
                         break;
                 }
-- 
2.43.0


From 119aae1719eec790629debb89d59c32b19075077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:38 +0000
Subject: [PATCH 41/53] fix: a literal (true, false, null) needed a byte behind
 it on single-pass input

---
 src/cxon/lang/common/cio/io.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/io.hxx b/src/cxon/lang/common/cio/io.hxx
index 8edfdf9..f42ac66 100644
--- a/src/cxon/lang/common/cio/io.hxx
+++ b/src/cxon/lang/common/cio/io.hxx
@@ -153,7 +153,7 @@ namespace cxon { namespace cio { // input
         }
     template <typename X, typename II>
         inline bool consume(const char* s, II& i, II e) {
-            for ( ; i != e && *s && *s == *i; ++i, ++s) ;
+            for ( ; *s && i != e && *s == *i; ++i, ++s) ;
             return *s == '\0';
         }
 
-- 
2.43.0


From 80ecfbc7188fbdf8bc056b74acedb13c31d64c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:38 +0000
Subject: [PATCH 42/53] fix: quoted inf and nan (and Infinity, NaN) needed a
 byte behind them on single-pass input

---
 src/cxon/lang/common/cio/numeric.hxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 196e1ec..2834ec9 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -41,6 +41,7 @@ namespace cxon { namespace cio { namespace num { // read
 
 #       define CXON_READ() *f = c, c = next(i, e), ++f;
 #       define CXON_NEXT() { if (f == l) return -1; CXON_READ() }
+#       define CXON_LAST() { if (f == l) return -1; *f = c, ++i, ++f; } // the token ends here, do not look behind it
 
         template <typename X, typename T, typename II>
             inline auto number_consume_(char* f, const char* l, II& i, II e)
@@ -93,7 +94,7 @@ namespace cxon { namespace cio { namespace num { // read
                                 }
                                 else                            return 0;
                                 CXON_NEXT() if (c != '"')       return 0;
-                                CXON_NEXT()                     goto trap_end;
+                                CXON_LAST()                     goto trap_end;
                             }
                         }
                         if (is_sign_<T>(c))                     CXON_READ()
@@ -106,12 +107,12 @@ namespace cxon { namespace cio { namespace num { // read
                                 CXON_NEXT() if (c != 'i')       return 0;
                                 CXON_NEXT() if (c != 't')       return 0;
                                 CXON_NEXT() if (c != 'y')       return 0;
-                                CXON_NEXT()                     goto trap_end;
+                                CXON_LAST()                     goto trap_end;
                             }
                             if (c == 'N') {
                                 CXON_NEXT() if (c != 'a')       return 0;
                                 CXON_NEXT() if (c != 'N')       return 0;
-                                CXON_NEXT()                     goto trap_end;
+                                CXON_LAST()                     goto trap_end;
                             }
                         }
 #                   if defined(__GNUC__) && __GNUC__ == 14 && !defined(__clang__)
@@ -212,6 +213,7 @@ namespace cxon { namespace cio { namespace num { // read
                     return 1;
             }
 
+#       undef CXON_LAST
 #       undef CXON_NEXT
 #       undef CXON_READ
 
-- 
2.43.0


From c4828bc25efd33373af00df69d887072ebd91b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:38 +0000
Subject: [PATCH 43/53] fix: names of enumerations were compared beyond the end
 of the buffer that holds the name just read

---
 src/cxon/lang/common/cio/enum.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/cio/enum.hxx b/src/cxon/lang/common/cio/enum.hxx
index cad694f..f999ca8 100644
--- a/src/cxon/lang/common/cio/enum.hxx
+++ b/src/cxon/lang/common/cio/enum.hxx
@@ -50,9 +50,10 @@ namespace cxon { namespace cio { namespace enm {
                 return false;
             II const o = i;
             char id[ids_len_max::constant<napa_type<Cx>>(64)];
-                if (!cxon::read_value<X>(id, i, e, cx))
+            auto c = cxon::cnt::make_range_container(std::begin(id), std::end(id));
+                if (!str::string_read<X>(c, i, e, cx))
                     return false;
-            for ( ; f != l && std::char_traits<char>::compare(f->name, id, f->nale + 1) != 0; ++f)
+            for ( ; f != l && (f->nale != c.size() || std::char_traits<char>::compare(f->name, id, f->nale) != 0); ++f)
                 ;
             return  (f != l && (t = f->value, true)) ||
                     (rewind(i, o), cx/X::read_error::unexpected);
-- 
2.43.0


From 8b326570e1e6a8eef0a59a6d2a91f7894fb8bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 44/53] fix: writing the least integer of a type before C++17
 negated it (overflow)

---
 src/cxon/lang/common/charconv.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index 85a2999..eadea83 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -132,8 +132,8 @@ namespace cxon { namespace charconv { namespace imp {
             inline auto itoa_(char* b, T t, int base) noexcept -> typename std::enable_if<std::is_signed<T>::value, unsigned>::type {
                 using U = typename std::make_unsigned<T>::type;
                 return t < 0 ?
-                    *b = '-', itoa_<U>(++b, -t, base) + 1 :
-                              itoa_<U>(  b,  t, base)
+                    *b = '-', itoa_<U>(++b, U(0) - U(t), base) + 1 :
+                              itoa_<U>(  b, t, base)
                 ;
             }
 
-- 
2.43.0


From af7af5f7326e5652c7758bee17d0477e634382d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:06 +0000
Subject: [PATCH 45/53] fix: number conversions before C++17 depended on the
 locale, read past the end of the input and took white space, plus and
 hexadecimals

---
 src/cxon/lang/common/charconv.hxx | 148 ++++++++++++++++++++----------
 1 file changed, 100 insertions(+), 48 deletions(-)

diff --git a/src/cxon/lang/common/charconv.hxx b/src/cxon/lang/common/charconv.hxx
index eadea83..4040b8b 100644
--- a/src/cxon/lang/common/charconv.hxx
+++ b/src/cxon/lang/common/charconv.hxx
@@ -11,9 +11,13 @@
 #include <cstdlib>
 #include <cstdio>
 #include <cerrno>
+#include <clocale>
+#include <cstring>
 
 #include <algorithm> // reverse
 #include <limits>
+#include <memory>
+#include <new>
 #include <type_traits>
 
 #ifdef CXON_USE_BOOST_CHARCONV
@@ -46,68 +50,112 @@ namespace cxon { namespace charconv { namespace imp {
 
     namespace {
 
-        template <typename T, typename F>
-            constexpr auto clamp_(F t) noexcept -> enable_if_t<sizeof(T) == sizeof(F), T> {
-                return t;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_signed<T>(), T> {
-                        if (f < std::numeric_limits<T>::min()) errno = ERANGE, f = std::numeric_limits<T>::min();
-                else    if (f > std::numeric_limits<T>::max()) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
-        template <typename T, typename F>
-            inline auto clamp_(F f) noexcept    -> enable_if_t<sizeof(T) < sizeof(F) && std::is_unsigned<T>(), T> {
-                if (std::numeric_limits<T>::max() < f) errno = ERANGE, f = std::numeric_limits<T>::max();
-                return (T)f;
-            }
+        // only what is in [first, last), without white space and plus sign, and whatever the locale is
+
+        inline int digit_(char c) noexcept {
+            return  c >= '0' && c <= '9' ? c - '0' :
+                    c >= 'a' && c <= 'z' ? c - 'a' + 10 :
+                    c >= 'A' && c <= 'Z' ? c - 'A' + 10 :
+                    36
+            ;
+        }
 
         template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_signed<T>::value, bool> {
-                return c == '+';
-            }
-        template <typename T>
-            inline auto is_sign_invalid_(char c) noexcept -> enable_if_t<std::is_unsigned<T>::value, bool> {
-                return c == '+' || c == '-';
+            inline from_chars_result number_from_chars_(const char* first, const char* last, T& value, int base) noexcept {
+                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
+                using U = typename std::make_unsigned<T>::type;
+                const char* c = first;
+                bool const s = std::is_signed<T>::value && c != last && *c == '-';
+                    if (s) ++c;
+                const char* const b = c;
+                U const max = s ? U(U(std::numeric_limits<T>::max()) + 1) : U(std::numeric_limits<T>::max());
+                U u = 0; bool o = false;
+                    for (int d; c != last && (d = digit_(*c)) < base; ++c) {
+                        if (u > U(max / U(base)) || U(d) > U(max - u * U(base)))
+                            o = true;
+                        else
+                            u = U(u * U(base) + U(d));
+                    }
+                if (c == b) return { first, std::errc::invalid_argument };
+                if (o)      return { c, std::errc::result_out_of_range };
+                return value = s ? u == max ? std::numeric_limits<T>::min() : T(-T(u)) : T(u), from_chars_result{ c, std::errc{} };
             }
 
-        template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, int base) noexcept {
-                CXON_ASSERT(base >= 2 && base <= 36, "invalid base");
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
-                char* end;
-                errno = 0; auto const v = clamp_<T>(convert(first, &end, base));
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+        inline const char* digits_end_(const char* first, const char* last) noexcept {
+            while (first != last && digit_(*first) < 10) ++first;
+            return first;
+        }
+        inline const char* float_end_(const char* first, const char* last) noexcept {
+            const char* b = first != last && *first == '-' ? first + 1 : first;
+            if (b != last && digit_(*b) >= 10 && *b != '.') { // inf, nan
+                while (b != last && digit_(*b) < 36) ++b;
+                return b;
+            }
+            const char* c = digits_end_(b, last);
+            bool n = c != b;
+                if (c != last && *c == '.') {
+                    const char* const d = digits_end_(c + 1, last);
+                    n = n || d != c + 1; c = d;
+                }
+            if (!n) return first;
+            if (c != last && (*c == 'e' || *c == 'E')) {
+                const char* d = c + 1;
+                    if (d != last && (*d == '-' || *d == '+')) ++d;
+                const char* const x = digits_end_(d, last);
+                    if (x != d) c = x;
             }
+            return c;
+        }
+
         template <typename T, typename Cv>
-            inline from_chars_result number_from_chars_(const char* first, const char*, Cv convert, T& value, chars_format) noexcept {
-                    if (is_sign_invalid_<T>(*first)) return { first, std::errc::invalid_argument };
+            inline from_chars_result number_from_chars_(const char* first, const char* last, Cv convert, T& value) noexcept {
+                last = float_end_(first, last);
+                    if (first == last) return { first, std::errc::invalid_argument };
+                const char* const point = std::localeconv()->decimal_point;
+                std::size_t const point_size = std::strlen(point), size = (last - first) + point_size + 1;
+                char s[64]; std::unique_ptr<char[]> h;
+                char* b = s;
+                    if (size > sizeof(s)) {
+                        h.reset(new (std::nothrow) char[size]);
+                            if (!h) return { first, std::errc::not_enough_memory };
+                        b = h.get();
+                    }
+                const char* const p = std::find(first, last, '.');
+                char* e = std::copy(first, p, b);
+                    if (p != last)  e = std::copy(p + 1, last, std::copy(point, point + point_size, e));
+                    *e = 0;
                 char* end;
-                errno = 0; auto const v = convert(first, &end);
-                return { end, end != first ? errno != ERANGE ? (value = v, std::errc{}) : std::errc::result_out_of_range : std::errc::invalid_argument };
+                int const no = errno; errno = 0;
+                T const v = convert(b, &end);
+                bool const o = errno == ERANGE && (v == 0 || v - v != 0); errno = no; // not if denormal
+                    if (end == b) return { first, std::errc::invalid_argument };
+                    if (o) return { last, std::errc::result_out_of_range };
+                std::size_t n = end - b;
+                    if (p != last && n > std::size_t(p - first)) n -= point_size - 1;
+                return value = v, from_chars_result{ first + n, std::errc{} };
             }
 
     }
 
-#   define CXON_FROM_CHARS(T, C)\
+#   define CXON_FROM_CHARS(T)\
         inline from_chars_result from_chars(const char* first, const char* last, T& value, int base = 10) noexcept {\
-            return number_from_chars_(first, last, C, value, base);\
+            return number_from_chars_(first, last, value, base);\
         }
-        CXON_FROM_CHARS(char, strtol)
-        CXON_FROM_CHARS(signed char, strtol)
-        CXON_FROM_CHARS(unsigned char, strtoul)
-        CXON_FROM_CHARS(short, strtol)
-        CXON_FROM_CHARS(unsigned short, strtoul)
-        CXON_FROM_CHARS(int, strtol)
-        CXON_FROM_CHARS(unsigned int, strtoul)
-        CXON_FROM_CHARS(long, strtol)
-        CXON_FROM_CHARS(unsigned long, strtoul)
-        CXON_FROM_CHARS(long long, strtoll)
-        CXON_FROM_CHARS(unsigned long long, strtoull)
+        CXON_FROM_CHARS(char)
+        CXON_FROM_CHARS(signed char)
+        CXON_FROM_CHARS(unsigned char)
+        CXON_FROM_CHARS(short)
+        CXON_FROM_CHARS(unsigned short)
+        CXON_FROM_CHARS(int)
+        CXON_FROM_CHARS(unsigned int)
+        CXON_FROM_CHARS(long)
+        CXON_FROM_CHARS(unsigned long)
+        CXON_FROM_CHARS(long long)
+        CXON_FROM_CHARS(unsigned long long)
 #   undef CXON_FROM_CHARS
 #   define CXON_FROM_CHARS(T, C)\
-        inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = chars_format::general) noexcept {\
-            return number_from_chars_(first, last, C, value, fmt);\
+        inline from_chars_result from_chars(const char* first, const char* last, T& value, chars_format = chars_format::general) noexcept {\
+            return number_from_chars_(first, last, C, value);\
         }
         CXON_FROM_CHARS(float, strtof)
         CXON_FROM_CHARS(double, strtod)
@@ -161,7 +209,11 @@ namespace cxon { namespace charconv { namespace imp {
             {
                 std::size_t const l = last - first;
                 int const w = std::snprintf(first, l, fmt_<T>::str, precision, value); CXON_ASSERT(w > 0 && (std::size_t)w < l, "conversion failed");
-                return { first + w, std::errc{} };
+                const char* const point = std::localeconv()->decimal_point;
+                char* e = first + w;
+                char* const p = std::search(first, e, point, point + std::strlen(point));
+                    if (p != e) *p = '.', e = std::copy(p + std::strlen(point), e, p + 1);
+                return { e, std::errc{} };
             }
 
     }
-- 
2.43.0


From ecc2b0ae63def947ff1b4461f289b496862f59db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:53 +0000
Subject: [PATCH 46/53] fix: keys of maps were created with a default allocator
 instead of the one of the map

---
 src/cxon/lang/common/allocator.hxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/allocator.hxx b/src/cxon/lang/common/allocator.hxx
index 61c2156..2561a05 100644
--- a/src/cxon/lang/common/allocator.hxx
+++ b/src/cxon/lang/common/allocator.hxx
@@ -145,18 +145,20 @@ namespace cxon { namespace alc {
             };
         template <typename F, typename S>
             struct using_allocator_<std::pair<F, S>> {
+                using F_ = typename std::remove_cv<F>::type; // a constant could only be copied out
+                using S_ = typename std::remove_cv<S>::type;
                 template <typename Al>
                     static constexpr std::pair<F, S> create(const Al& al) {
                         return std::make_pair(
-                            using_allocator_<F>::create(al),
-                            using_allocator_<S>::create(al)
+                            using_allocator_<F_>::create(al),
+                            using_allocator_<S_>::create(al)
                         );
                     }
                 template <typename Al, typename AF, typename AS>
                     static constexpr std::pair<F, S> create(const Al& al, AF&& af, AS&& as) {
                         return std::make_pair(
-                            using_allocator_<F>::create(al, std::forward<AF>(af)),
-                            using_allocator_<S>::create(al, std::forward<AS>(as))
+                            using_allocator_<F_>::create(al, std::forward<AF>(af)),
+                            using_allocator_<S_>::create(al, std::forward<AS>(as))
                         );
                     }
                 template <typename T, typename Al, typename Tp, std::size_t ...I>
@@ -170,8 +172,8 @@ namespace cxon { namespace alc {
                 template <typename Al, typename ...AF, typename ...AS>
                     static constexpr std::pair<F, S> create(const Al& al, std::piecewise_construct_t, std::tuple<AF...>&& af, std::tuple<AS...>&& as) {
                         return std::make_pair(
-                            create_with_<F>(al, std::forward<std::tuple<AF...>>(af)),
-                            create_with_<S>(al, std::forward<std::tuple<AS...>>(as))
+                            create_with_<F_>(al, std::forward<std::tuple<AF...>>(af)),
+                            create_with_<S_>(al, std::forward<std::tuple<AS...>>(as))
                         );
                     }
             };
-- 
2.43.0


From 9ddc4ca1ffced9eee43f05997bf6b782e3863dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:53 +0000
Subject: [PATCH 47/53] fix: the value of a tag in a CBOR node ignored the
 allocator of the node

---
 src/cxon/lang/cbor/node/node.hxx | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cxon/lang/cbor/node/node.hxx b/src/cxon/lang/cbor/node/node.hxx
index f23290b..1870d60 100644
--- a/src/cxon/lang/cbor/node/node.hxx
+++ b/src/cxon/lang/cbor/node/node.hxx
@@ -675,6 +675,11 @@ namespace cxon { namespace cbor { // helpers
             :   tag(-1), value()
             {
             }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                explicit taggle(const Al& al)
+                :   tag(-1), value(al)
+                {
+                }
             taggle(N n, T&& t) noexcept(std::is_nothrow_move_constructible<T>::value)
             :   tag(n), value(std::move(t)) {}
             taggle(N n, const T& t) noexcept(std::is_nothrow_copy_constructible<T>::value)
@@ -688,6 +693,11 @@ namespace cxon { namespace cbor { // helpers
             :   tag(t.tag), value(std::move(t.value))
             {
             }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(taggle&& t, const Al& al)
+                :   tag(t.tag), value(std::move(t.value), al)
+                {
+                }
             taggle& operator =(taggle&& t) noexcept(std::is_nothrow_move_assignable<T>::value) {
                 return tag = t.tag, value = std::move(t.value), *this;
             }
@@ -696,6 +706,11 @@ namespace cxon { namespace cbor { // helpers
             :   tag(t.tag), value(t.value)
             {
             }
+            template <typename Al, typename = enable_if_t<std::uses_allocator<T, Al>::value>>
+                taggle(const taggle& t, const Al& al)
+                :   tag(t.tag), value(t.value, al)
+                {
+                }
             taggle& operator =(const taggle& t) noexcept(std::is_nothrow_copy_assignable<T>::value) {
                 return tag = t.tag, value = t.value, *this;
             }
-- 
2.43.0


From c66fa35afec92d63864db14f82b3b91cd3fdcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:53 +0000
Subject: [PATCH 48/53] fix: CBOR pointers to strings and containers did not
 round-trip, and arrays read into pointers to one object were released with a
 wrong size

---
 src/cxon/lang/cbor/compound.hxx       | 19 +++++++++++++++++--
 src/cxon/lang/cbor/lib/std/memory.hxx |  6 +++---
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cxon/lang/cbor/compound.hxx b/src/cxon/lang/cbor/compound.hxx
index 8c0b2a2..54573d6 100644
--- a/src/cxon/lang/cbor/compound.hxx
+++ b/src/cxon/lang/cbor/compound.hxx
@@ -64,7 +64,7 @@ namespace cxon { // pointer/read
 
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t< std::is_assignable<decltype(*t), decltype(*i)>::value && !std::is_class<T>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx))
@@ -79,7 +79,7 @@ namespace cxon { // pointer/read
             }
         template <typename X, typename T, typename II, typename Cx>
             inline auto read_pointer_(T*& t, II& i, II e, Cx& cx)
-                -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value, bool>
+                -> enable_if_t<!std::is_assignable<decltype(*t), decltype(*i)>::value ||  std::is_class<T>::value, bool>
             {
                 typename X::tag_type tag;
                 if (!tag::read<X>(tag, i, e, cx))
@@ -93,6 +93,21 @@ namespace cxon { // pointer/read
                 }
             }
 
+        // a pointer to one object, e.g. for something that deletes it as one
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_pointer_to_one_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t< is_char<T>::value, bool>
+            {
+                return read_pointer_<X>(t, i, e, cx);
+            }
+        template <typename X, typename T, typename II, typename Cx>
+            inline auto read_pointer_to_one_(T*& t, II& i, II e, Cx& cx)
+                -> enable_if_t<!is_char<T>::value, bool>
+            {
+                typename X::tag_type tag;
+                return tag::read<X>(tag, i, e, cx) && read_pointer_t_<X>(t, i, e, cx);
+            }
+
     }}
 
     template <typename X, typename T>
diff --git a/src/cxon/lang/cbor/lib/std/memory.hxx b/src/cxon/lang/cbor/lib/std/memory.hxx
index 687964f..51adfce 100644
--- a/src/cxon/lang/cbor/lib/std/memory.hxx
+++ b/src/cxon/lang/cbor/lib/std/memory.hxx
@@ -15,7 +15,7 @@ namespace cxon {
             template <typename II, typename Cx, typename Y = CBOR<X>>
                 static bool value(std::unique_ptr<T, D>& t, II& i, II e, Cx& cx) {
                         T* p;
-                    return read_value<Y>(p, i, e, cx) && (t.reset(p), true);
+                    return cbor::imp::read_pointer_to_one_<Y>(p, i, e, cx) && (t.reset(p), true);
                 }
         };
 
@@ -34,9 +34,9 @@ namespace cxon {
                     auto al = alc::make_context_allocator<T>(cx);
                         T* p;
 #                   if __cplusplus < 201402L
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointer_to_one_<Y>(p, i, e, cx) && (t.reset(p, [al](T* p) mutable { al.release(p); }), true);
 #                   else
-                        return read_value<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
+                        return cbor::imp::read_pointer_to_one_<Y>(p, i, e, cx) && (t.reset(p, [al = std::move(al)](T* p) mutable { al.release(p); }), true);
 #                   endif
                 }
         };
-- 
2.43.0


From 249840fe3fdaba80df8293ea5892e6397f6b842a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:32 +0000
Subject: [PATCH 49/53] fix: lists separated by spaces, with trailing
 separators allowed, do not compile

---
 src/cxon/lang/common/cio/container.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/container.hxx b/src/cxon/lang/common/cio/container.hxx
index 6702732..24c770a 100644
--- a/src/cxon/lang/common/cio/container.hxx
+++ b/src/cxon/lang/common/cio/container.hxx
@@ -55,7 +55,7 @@ namespace cxon { namespace cio { namespace cnt {
                 while (element_add() && consume_sep<X, Cr>(i, e, cx)) ;
             }
         template <typename X, typename Cr, typename II, typename Cx, typename EA>
-            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators> {
+            inline auto list_read_(II& i, II e, Cx& cx, EA element_add) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' '> {
                 // expects non-empty list
                 while (element_add() && consume_sep<X, Cr>(i, e, cx) && (consume<X>(i, e, cx) && peek(i, e) != Cr::end)) ;
             }
-- 
2.43.0


From c72ad70bf42190ba33c0bcc967fe62ce7cb31182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:32 +0000
Subject: [PATCH 50/53] fix: infinities and NaNs are not read back when strings
 are delimited by apostrophes

---
 src/cxon/lang/common/cio/numeric.hxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cxon/lang/common/cio/numeric.hxx b/src/cxon/lang/common/cio/numeric.hxx
index 2834ec9..8d58ec3 100644
--- a/src/cxon/lang/common/cio/numeric.hxx
+++ b/src/cxon/lang/common/cio/numeric.hxx
@@ -81,7 +81,7 @@ namespace cxon { namespace cio { namespace num { // read
 #                       pragma GCC diagnostic ignored "-Wstringop-overflow"
 #                   endif
                         CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                            if (c == '"') {
+                            if (c == X::string::del) {
                                 ;                               CXON_READ()
                                 if (is_sign_<T>(c))             CXON_NEXT()
                                 if (c == 'i') {
@@ -93,7 +93,7 @@ namespace cxon { namespace cio { namespace num { // read
                                     CXON_NEXT() if (c != 'n')   return 0;
                                 }
                                 else                            return 0;
-                                CXON_NEXT() if (c != '"')       return 0;
+                                CXON_NEXT() if (c != X::string::del) return 0;
                                 CXON_LAST()                     goto trap_end;
                             }
                         }
@@ -151,7 +151,7 @@ namespace cxon { namespace cio { namespace num { // read
             {   // as in RFC7159
                 char c = peek(i, e);
                     CXON_IF_CONSTEXPR(!X::allow_javascript_nans) {
-                        if (c == '"') {
+                        if (c == X::string::del) {
                             ;                           c = next(i, e);
                             if (is_sign_<T>(c))         c = next(i, e);
                             if (c == 'i') {
@@ -163,7 +163,7 @@ namespace cxon { namespace cio { namespace num { // read
                                 if (next(i, e) != 'n')  return 0;
                             }
                             else                        return 0;
-                            if (next(i, e) != '"')      return 0;
+                            if (next(i, e) != X::string::del) return 0;
                             return ++i, 1;
                         }
                     }
@@ -260,17 +260,17 @@ namespace cxon { namespace cio { namespace num { // read
             inline charconv::imp::from_chars_result from_chars_(const char* b, const char* e, T& t) noexcept {
                 if (e - b >= 3) {
                     CXON_IF_CONSTEXPR (!X::allow_javascript_nans) {
-                        if (b[0] == '"') {
+                        if (b[0] == X::string::del) {
                             auto s = b[1] == '-' ? ++b + 1 : ++b;
                             switch (s[0]) {
                                 case 'i':
-                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'n' && s[2] == 'f' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::infinity();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
                                     break;
                                 case 'n':
-                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == '"') {
+                                    if (e - s >= 4 && s[1] == 'a' && s[2] == 'n' && s[3] == X::string::del) {
                                         t = s != b ? -std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::quiet_NaN();
                                         return charconv::imp::from_chars_result{ s + 4, std::errc() };
                                     }
-- 
2.43.0


From 8288518beac0f3dead4b5b416f4f01222462061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:32 +0000
Subject: [PATCH 51/53] fix: trailing separators are not accepted in pairs,
 tuples, complex numbers and variants

---
 src/cxon/lang/common/cio/cio.hxx          | 9 +++++++++
 src/cxon/lang/json/lib/boost/variant.hxx  | 2 +-
 src/cxon/lang/json/lib/boost/variant2.hxx | 2 +-
 src/cxon/lang/json/lib/std/complex.hxx    | 2 +-
 src/cxon/lang/json/lib/std/tuple.hxx      | 2 +-
 src/cxon/lang/json/lib/std/utility.hxx    | 2 +-
 src/cxon/lang/json/lib/std/variant.hxx    | 2 +-
 7 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cxon/lang/common/cio/cio.hxx b/src/cxon/lang/common/cio/cio.hxx
index e535e37..6c3486f 100644
--- a/src/cxon/lang/common/cio/cio.hxx
+++ b/src/cxon/lang/common/cio/cio.hxx
@@ -188,6 +188,15 @@ namespace cxon { namespace cio { namespace cnt {
             return consume<X>(i, e, cx) && peek(i, e) != Cr::end;
         }
 
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline auto consume_end(II& i, II e, Cx& cx) -> enable_if_t<!X::allow_trailing_separators || Cr::sep == ' ', bool> {
+            return consume<X>(Cr::end, i, e, cx);
+        }
+    template <typename X, typename Cr, typename II, typename Cx>
+        inline auto consume_end(II& i, II e, Cx& cx) -> enable_if_t< X::allow_trailing_separators && Cr::sep != ' ', bool> {
+            return consume_sep<X, Cr>(i, e, cx), !cx.ec && consume<X>(Cr::end, i, e, cx);
+        }
+
 }}}
 
 #endif // CXON_CIO_HXX_
diff --git a/src/cxon/lang/json/lib/boost/variant.hxx b/src/cxon/lang/json/lib/boost/variant.hxx
index ce19040..8b11d5b 100644
--- a/src/cxon/lang/json/lib/boost/variant.hxx
+++ b/src/cxon/lang/json/lib/boost/variant.hxx
@@ -60,7 +60,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, II, Cx, T...>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename II, typename Cx, typename ...T>
diff --git a/src/cxon/lang/json/lib/boost/variant2.hxx b/src/cxon/lang/json/lib/boost/variant2.hxx
index 26cae2d..6a8f06f 100644
--- a/src/cxon/lang/json/lib/boost/variant2.hxx
+++ b/src/cxon/lang/json/lib/boost/variant2.hxx
@@ -57,7 +57,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             read_<X, V, II, Cx>::variant(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
diff --git a/src/cxon/lang/json/lib/std/complex.hxx b/src/cxon/lang/json/lib/std/complex.hxx
index a9a404e..93e9476 100644
--- a/src/cxon/lang/json/lib/std/complex.hxx
+++ b/src/cxon/lang/json/lib/std/complex.hxx
@@ -21,7 +21,7 @@ namespace cxon {
                                 read_value<Y>(rl, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(mg, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx) &&
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx) &&
                         (t.real(rl), t.imag(mg), true)
                     ;
                 }
diff --git a/src/cxon/lang/json/lib/std/tuple.hxx b/src/cxon/lang/json/lib/std/tuple.hxx
index 239b4a9..036072c 100644
--- a/src/cxon/lang/json/lib/std/tuple.hxx
+++ b/src/cxon/lang/json/lib/std/tuple.hxx
@@ -78,7 +78,7 @@ namespace cxon {
                 static bool value(std::tuple<T...>& t, II& i, II e, Cx& cx) {
                     return  cio::consume<Y>(Y::list::beg, i, e, cx) &&
                                 cio::cnt::read_tuple<Y>(t, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/utility.hxx b/src/cxon/lang/json/lib/std/utility.hxx
index 151fa27..0b7215d 100644
--- a/src/cxon/lang/json/lib/std/utility.hxx
+++ b/src/cxon/lang/json/lib/std/utility.hxx
@@ -20,7 +20,7 @@ namespace cxon {
                                 read_value<Y>(t.first, i, e, cx) &&
                                     cio::consume<Y>(cio::cnt::sep_read<Y, typename Y::list, II>, i, e, cx) &&
                                 read_value<Y>(t.second, i, e, cx) &&
-                            cio::consume<Y>(Y::list::end, i, e, cx)
+                            cio::cnt::consume_end<Y, typename Y::list>(i, e, cx)
                     ;
                 }
         };
diff --git a/src/cxon/lang/json/lib/std/variant.hxx b/src/cxon/lang/json/lib/std/variant.hxx
index f5898b5..8ede4b1 100644
--- a/src/cxon/lang/json/lib/std/variant.hxx
+++ b/src/cxon/lang/json/lib/std/variant.hxx
@@ -54,7 +54,7 @@ namespace cxon {
             {
                 return  cio::consume<X>(X::map::beg, i, e, cx) &&
                             variant_<X, V, II, Cx>::read(t, i, e, cx) &&
-                        cio::consume<X>(X::map::end, i, e, cx)
+                        cio::cnt::consume_end<X, typename X::map>(i, e, cx)
                 ;
             }
         template <typename X, typename V, typename II, typename Cx>
-- 
2.43.0


From 5341c69a51b3c4390b9f381013ae75a693b88bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:32 +0000
Subject: [PATCH 52/53] fix: JSON: white space before numbers and keys is not
 the same as elsewhere in formats with comments

---
 src/cxon/lang/common/cio/chcls.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxon/lang/common/cio/chcls.hxx b/src/cxon/lang/common/cio/chcls.hxx
index 35f92f5..b3d65ec 100644
--- a/src/cxon/lang/common/cio/chcls.hxx
+++ b/src/cxon/lang/common/cio/chcls.hxx
@@ -62,7 +62,7 @@ namespace cxon { namespace cio { namespace chr { // character classes
         struct is {
             static bool ctrl   (char c) noexcept { return (unsigned char)c < 0x20; }
             static bool real   (char c) noexcept { return (unsigned char)c > 0x1F; }
-            static bool space  (char c) noexcept { return (X::allow_comments ? CXSP : JSSP) & is_x_[(unsigned char)c]; } // RFC8259 has no \v and \f
+            static bool space  (char c) noexcept { return JSSP & is_x_[(unsigned char)c]; } // RFC8259 has no \v and \f
             static bool digit8 (char c) noexcept { return DGOC & is_x_[(unsigned char)c]; }
             static bool digit10(char c) noexcept { return DGDC & is_x_[(unsigned char)c]; }
             static bool digit16(char c) noexcept { return DGHX & is_x_[(unsigned char)c]; }
-- 
2.43.0


From 3027c99f5fa92c07da1dbf7f9a845b2d674dcc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:34 +0000
Subject: [PATCH 53/53] fix: json::tidy keeps a space escaped at the start of
 an unquoted key

The backslash at the start of a word was taken for an ordinary character,
so the white space, separator or bracket it escapes was handled as such: { \ a: 1 } lost its space.
---
 src/cxon/lang/json/tidy.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxon/lang/json/tidy.hxx b/src/cxon/lang/json/tidy.hxx
index 1617ae1..8aed369 100644
--- a/src/cxon/lang/json/tidy.hxx
+++ b/src/cxon/lang/json/tidy.hxx
@@ -149,7 +149,7 @@ namespace cxon { namespace json {
                         }
                         break;
                     case stt::esc:
-                        return mut(pre()),  poke(o_, c);
+                        return mut(pre() == stt::grn ? stt::scl : pre()),   poke(o_, c);
                     case stt::com:
                         switch (c) {
                             case '\t': case '\n': case '\r': case ' ': case '\0':
@@ -175,6 +175,8 @@ namespace cxon { namespace json {
                         nxt = stt::qst; goto scl;
                     case '\'':
                         nxt = stt::ast; goto scl;
+                    case '\\':
+                        nxt = stt::esc; goto scl;
                     case ',': case ';':
                         return mut(stt::com),   poke(o_, c);
                     case ':':
-- 
2.43.0

