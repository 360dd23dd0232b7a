From 24b8b8757be20438c036d46e541507c49b0eb298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:28 +0000
Subject: [PATCH 01/64] fix: substr: reject out-of-range positions in offs(),
 left_of() and right_of()

The assertions accepted a position for which the resulting view starts
or ends beyond the source (offs(1,1) of a 1-char string, right_of(len),
left_of(len,true)): the length wraps around and the view covers foreign memory.
---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..93d010a 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -384,7 +384,7 @@ public:
     /** return [0, pos+include_pos[ . Same as .first(pos+1), but provided for compatibility with .right_of() */
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos + include_pos <= len || pos == npos);
         return (pos != npos) ?
             basic_substring(str, pos+include_pos) :
             *this;
@@ -393,7 +393,7 @@ public:
     /** return [pos+1, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos + 1 <= len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
@@ -402,7 +402,7 @@ public:
     /** return [pos+!include_pos, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos + !include_pos <= len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
-- 
2.43.0


From e5e90daa8c4383b0eba5a8ad35c0797a4cb3dc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:45 +0000
Subject: [PATCH 02/64] fix: itoa: do not write the sign when the buffer is too
 small

The documentation promises that no writes occur with a too-small buffer.
---
 src/c4/charconv.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..382a75b 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1010,18 +1010,18 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_dec))
             return digits_type::maxdigits_dec;
+        buf.str[pos++] = '-';
         pos =_itoa2buf(buf, pos, digits_type::min_value_dec());
         break;
     case I(16):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_hex))
             return digits_type::maxdigits_hex;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2buf(buf, pos, digits_type::min_value_hex());
@@ -1029,6 +1029,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 2):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_bin))
             return digits_type::maxdigits_bin;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
         pos = _itoa2buf(buf, pos, digits_type::min_value_bin());
@@ -1036,6 +1037,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 8):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_oct))
             return digits_type::maxdigits_oct;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
         pos = _itoa2buf(buf, pos, digits_type::min_value_oct());
@@ -1049,8 +1051,6 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
     size_t needed_digits = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
@@ -1058,6 +1058,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+1 > digits_type::maxdigits_dec ? num_digits+1 : digits_type::maxdigits_dec;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_dec());
         break;
     case I(16):
@@ -1065,6 +1066,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_hex ? num_digits+3 : digits_type::maxdigits_hex;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_hex());
@@ -1074,6 +1076,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_bin ? num_digits+3 : digits_type::maxdigits_bin;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_bin);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
@@ -1084,6 +1087,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_oct ? num_digits+3 : digits_type::maxdigits_oct;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_oct);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
@@ -1154,8 +1158,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned digits = 0;
@@ -1164,12 +1166,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         case T(10):
             digits = digits_dec(v);
             if(C4_LIKELY(buf.len >= pos + digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec_unchecked(buf.sub(pos), v, digits);
+            }
             break;
         case T(16):
             digits = digits_hex(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex_unchecked(buf.sub(pos + 2), v, digits);
@@ -1180,6 +1188,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_bin(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin_unchecked(buf.sub(pos + 2), v, digits);
@@ -1190,6 +1200,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_oct(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct_unchecked(buf.sub(pos + 2), v, digits);
@@ -1231,8 +1243,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned total_digits = 0;
@@ -1242,13 +1252,19 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = digits_dec(v);
             total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec(buf.sub(pos), v, num_digits);
+            }
             break;
         case T(16):
             total_digits = digits_hex(v);
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex(buf.sub(pos + 2), v, num_digits);
@@ -1259,6 +1275,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin(buf.sub(pos + 2), v, num_digits);
@@ -1269,6 +1287,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct(buf.sub(pos + 2), v, num_digits);
-- 
2.43.0


From fb2b4b12d0589112f3e71e020b2da95df07e0ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:58 +0000
Subject: [PATCH 03/64] fix: overflows: do not read past the end of a lone
 minus sign

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 382a75b..953bb80 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1741,6 +1741,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From 44b0154aa9e60c9a69980e52cb0ec39d731dc640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:27 +0000
Subject: [PATCH 04/64] fix: from_chars_first: return the number of characters
 read for pointers

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 953bb80..bbfa7ce 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2424,7 +2424,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From d8cef6b7a01ceca637b33b3160826c501cc1772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:56 +0000
Subject: [PATCH 05/64] fix: from_chars_first: skip leading whitespace when
 reading a bool

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index bbfa7ce..570047c 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2513,9 +2513,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From 3010d3996ec3226984200ad1666f208645867239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:28 +0000
Subject: [PATCH 06/64] fix: atoi_first: reject a leading plus sign instead of
 asserting

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 570047c..0ee180c 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1529,7 +1529,7 @@ template<class T>
 C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
 {
     csubstr trimmed = str.first_int_span();
-    if(trimmed.len == 0)
+    if(trimmed.len == 0 || trimmed.str[0] == '+') // atoi() does not accept '+'
         return csubstr::npos;
     if(atoi(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
-- 
2.43.0


From 7d174c91bd27401c30367b77587437f274ee2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:02 +0000
Subject: [PATCH 07/64] fix: from_chars_first: accept const input for csubstr,
 set the length for substr

---
 src/c4/charconv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 0ee180c..47e806e 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2584,7 +2584,7 @@ inline bool from_chars(csubstr buf, csubstr *C4_RESTRICT v) noexcept
 }
 
 /** @ingroup doc_from_chars_first */
-inline size_t from_chars_first(substr buf, csubstr * C4_RESTRICT v) noexcept
+inline size_t from_chars_first(csubstr buf, csubstr * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
     if(trimmed.len == 0)
@@ -2655,6 +2655,7 @@ inline size_t from_chars_first(csubstr buf, substr * C4_RESTRICT v) noexcept
     }
     if(C4_UNLIKELY(trimmed.len > v->len))
         return csubstr::npos;
+    v->len = trimmed.len;
     return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
-- 
2.43.0


From ef2114f4812ae6c9918cd0866ea0cc6deea90d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:10 +0000
Subject: [PATCH 08/64] fix: atof/atod: read the value of hexadecimal floats
 correctly

The digits a-f were read as 0-5, the exponent was taken as a power of
16 instead of 2, and the previous contents of the result were included.
---
 src/c4/charconv.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 47e806e..ee2e57a 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1992,6 +1992,7 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
     C4_ASSERT(!s.begins_with("0x"));
     C4_ASSERT(!s.begins_with("0X"));
     size_t pos = 0;
+    *val = T(0);
     // integer part
     for( ; pos < s.len; ++pos)
     {
@@ -1999,9 +2000,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
         if(c >= '0' && c <= '9')
             *val = *val * T(16) + T(c - '0');
         else if(c >= 'a' && c <= 'f')
-            *val = *val * T(16) + T(c - 'a');
+            *val = *val * T(16) + T(10 + (c - 'a'));
         else if(c >= 'A' && c <= 'F')
-            *val = *val * T(16) + T(c - 'A');
+            *val = *val * T(16) + T(10 + (c - 'A'));
         else if(c == '.')
         {
             ++pos;
@@ -2026,9 +2027,9 @@ C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
             if(c >= '0' && c <= '9')
                 *val += digit * T(c - '0');
             else if(c >= 'a' && c <= 'f')
-                *val += digit * T(c - 'a');
+                *val += digit * T(10 + (c - 'a'));
             else if(c >= 'A' && c <= 'F')
-                *val += digit * T(c - 'A');
+                *val += digit * T(10 + (c - 'A'));
             else if(c == 'p' || c == 'P')
             {
                 ++pos;
@@ -2051,7 +2052,7 @@ power:
             int16_t powval = {};
             if(C4_LIKELY(atoi(s.sub(pos), &powval)))
             {
-                *val *= ipow<T, int16_t, 16>(powval);
+                *val *= ipow<T, int16_t, 2>(powval);
                 return true;
             }
         }
-- 
2.43.0


From f27885c961e76085081d4c3c8ba81b98116917b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 09/64] fix: ftoa/dtoa: write the sign before the hexadecimal
 prefix

Text such as 0x-1p+0 could not be read back; also do not prefix inf
and nan, and do not give std::to_chars() a reversed range when the
buffer is smaller than the prefix.
---
 src/c4/charconv.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index ee2e57a..5c24805 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -99,6 +99,9 @@
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
 #endif
+#if C4CORE_HAVE_STD_TOCHARS
+#include <cmath>
+#endif
 
 
 #if defined(_MSC_VER)
@@ -1945,16 +1948,22 @@ C4_ALWAYS_INLINE size_t rtoa(substr buf, T v, int precision=-1, RealFormat_e for
 {
     std::to_chars_result result;
     size_t pos = 0;
-    if(formatting == FTOA_HEXA)
+    if(formatting == FTOA_HEXA && std::isfinite(v))
     {
-        if(buf.len > size_t(2))
+        // std::to_chars() does not write the prefix, which must come after the sign
+        const bool neg = std::signbit(v);
+        pos = neg ? size_t(3) : size_t(2);
+        if(buf.len > pos)
         {
-            buf.str[0] = '0';
-            buf.str[1] = 'x';
+            buf.str[0] = '-'; // overwritten below if positive
+            buf.str[pos - 2] = '0';
+            buf.str[pos - 1] = 'x';
         }
-        pos += size_t(2);
+        v = neg ? -v : v;
     }
-    if(precision == -1)
+    if(buf.len < pos)
+        result.ec = std::errc::value_too_large;
+    else if(precision == -1)
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting);
     else
         result = std::to_chars(buf.str + pos, buf.str + buf.len, v, (std::chars_format)formatting, precision);
-- 
2.43.0


From 98dd64ff1f43eb4fba20ce4942c64dee7b852207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:09 +0000
Subject: [PATCH 10/64] fix: atof/atod: reject text that continues after the
 number

The whole text must be a number, as for integers; binary and octal
tokens such as 0b101 were otherwise read as 0.
---
 src/c4/charconv.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 5c24805..eca236e 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2152,7 +2152,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
@@ -2163,7 +2163,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
 #elif C4CORE_HAVE_STD_FROMCHARS
     std::from_chars_result result;
     result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return result.ec == std::errc() && result.ptr == str.str + str.len;
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
@@ -2213,7 +2213,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
     {
         fast_float::from_chars_result result;
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
-        return result.ec == std::errc();
+        return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
     else if(detail::scan_rhex(rem.sub(2), v))
     {
@@ -2224,7 +2224,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
 #elif C4CORE_HAVE_STD_FROMCHARS
     std::from_chars_result result;
     result = std::from_chars(str.str, str.str + str.len, *v);
-    return result.ec == std::errc();
+    return result.ec == std::errc() && result.ptr == str.str + str.len;
 #else
     csubstr rem = str.sub(str.str[0] == '-' || str.str[0] == '+');
     if(!(rem.len >= 2 && (rem.str[0] == '0' && (rem.str[1] == 'x' || rem.str[1] == 'X'))))
-- 
2.43.0


From 3113371cd336f29d7f2dfe31a74feb94baaf0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:57 +0000
Subject: [PATCH 11/64] fix: atof/atod: refuse malformed hexadecimal floats
 instead of asserting

---
 src/c4/charconv.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index eca236e..d759f3d 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1996,10 +1996,6 @@ template<class T>
 C4_ALWAYS_INLINE bool scan_rhex(csubstr s, T *C4_RESTRICT val) noexcept
 {
     C4_ASSERT(s.len > 0);
-    C4_ASSERT(s.str[0] != '-');
-    C4_ASSERT(s.str[0] != '+');
-    C4_ASSERT(!s.begins_with("0x"));
-    C4_ASSERT(!s.begins_with("0X"));
     size_t pos = 0;
     *val = T(0);
     // integer part
@@ -2056,7 +2052,7 @@ power:
     {
         if(s.str[pos] == '+') // atoi() cannot handle a leading '+'
             ++pos;
-        if(C4_LIKELY(pos < s.len))
+        if(C4_LIKELY(pos < s.len && s.str[pos] != '+'))
         {
             int16_t powval = {};
             if(C4_LIKELY(atoi(s.sub(pos), &powval)))
@@ -2154,7 +2150,7 @@ C4_ALWAYS_INLINE bool atof(csubstr str, float * C4_RESTRICT v) noexcept
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
         return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
-    else if(detail::scan_rhex(rem.sub(2), v))
+    else if(rem.len > 2 && detail::scan_rhex(rem.sub(2), v))
     {
         *v *= isneg ? -1.f : 1.f;
         return true;
@@ -2215,7 +2211,7 @@ C4_ALWAYS_INLINE bool atod(csubstr str, double * C4_RESTRICT v) noexcept
         result = fast_float::from_chars(str.str, str.str + str.len, *v);
         return result.ec == std::errc() && result.ptr == str.str + str.len;
     }
-    else if(detail::scan_rhex(rem.sub(2), v))
+    else if(rem.len > 2 && detail::scan_rhex(rem.sub(2), v))
     {
         *v *= isneg ? -1. : 1.;
         return true;
-- 
2.43.0


From eb867fac341be9dbdab60eda09a0b15e1902befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:01 +0000
Subject: [PATCH 12/64] fix: atof/atod: refuse hexadecimal floats with an
 exponent out of range

The exponent was reduced modulo 2^16, so that 0x1p+65536 was read as 1.
---
 src/c4/charconv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index d759f3d..e7a5aad 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2055,7 +2055,8 @@ power:
         if(C4_LIKELY(pos < s.len && s.str[pos] != '+'))
         {
             int16_t powval = {};
-            if(C4_LIKELY(atoi(s.sub(pos), &powval)))
+            const csubstr pow = s.sub(pos);
+            if(C4_LIKELY(atoi(pow, &powval) && !overflows<int16_t>(pow)))
             {
                 *val *= ipow<T, int16_t, 2>(powval);
                 return true;
-- 
2.43.0


From e01a7b53c64fe4c09ef3ab5879431983ebef0f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 13/64] fix: ipow: the minimum exponent is not zero

Negating it wraps around, so that no division was done (0x1p-32768 was read as 1).
---
 src/c4/memory_util.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 29341cf..8d9918c 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -485,8 +485,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(B base, E exponent) noexcept -> typename std::
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= base;
     }
     return r;
@@ -506,8 +505,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= base;
     }
     return r;
@@ -528,8 +526,7 @@ C4_CONSTEXPR14 C4_CONST auto ipow(E exponent) noexcept -> typename std::enable_i
     }
     else
     {
-        exponent *= E(-1);
-        for(E e = 0; e < exponent; ++e)
+        for(E e = exponent; e < 0; ++e)
             r /= bbase;
     }
     return r;
-- 
2.43.0


From f8a102686e311e6caf3527f25f5ec2ea0eb057ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:46 +0000
Subject: [PATCH 14/64] fix: fmt::left/right: do not write beyond the buffer

When the value fitted in the buffer but the aligned width did not, the
padding was written past the end of the buffer.
---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..7fb03fa 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,7 +545,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
@@ -557,7 +557,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(ret >= align.width || align.width > buf.len)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
-- 
2.43.0


From 7040f659bf1a4080a608aeac6c9506ff93a733e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:50 +0000
Subject: [PATCH 15/64] fix: cat_dump_resume: dump every argument once and in
 order

Arguments after one that did not fit were dumped at once if they fitted,
and dumped again when resuming.  A string argument was taken as dumped
with an empty buffer, when it was not.
---
 src/c4/dump.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..f8cac2e 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -143,7 +143,7 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(currarg == results.lastok + 1 && buf.len > 0 && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -157,7 +157,7 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(currarg == results.lastok + 1 && buf.len > 0 && sz <= buf.len)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -168,6 +168,8 @@ template<DumperPfn dumpfn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume<dumpfn>(currarg, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf.len = 0; // failed: ensure no more calls to dump
     return detail::cat_dump_resume<dumpfn>(currarg + 1u, results, buf, more...);
 }
 
@@ -175,6 +177,8 @@ template<class DumperFn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume(currarg, dumpfn, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf.len = 0; // failed: ensure no more calls to dump
     return detail::cat_dump_resume(currarg + 1u, dumpfn, results, buf, more...);
 }
 } // namespace detail
-- 
2.43.0


From 412942b60e6f4a55457d6936646c417bec463379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:54 +0000
Subject: [PATCH 16/64] fix: catsep_dump_resume: do not skip arguments when
 resuming

A string after an argument that did not fit was taken as dumped, so that
resuming skipped both.
---
 src/c4/dump.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index f8cac2e..382d79c 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -284,7 +284,7 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -298,7 +298,7 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(buf->len > 0 && sz <= buf->len))
             results->lastok = currarg;
         else
             buf->len = 0;
-- 
2.43.0


From 0d8ad2c08d6c95dd7cc0b522e898eea60dcf718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:57 +0000
Subject: [PATCH 17/64] fix: format_dump_resume: do not skip arguments when
 resuming

A string after an argument that did not fit was taken as dumped, so that
resuming skipped both.
---
 src/c4/dump.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 382d79c..0adf5d2 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -508,7 +508,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
@@ -548,7 +548,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(buf.len > 0 && pos <= buf.len))
             results.lastok = currarg + 1;
         else
             buf.len = 0;
-- 
2.43.0


From 6dd7b44d44288563b0aeca40d226b56f8ae84e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:01 +0000
Subject: [PATCH 18/64] fix: format_dump_resume: dump nothing when resuming
 after completion

The trailing text was dumped again, and with more arguments than
placeholders an ignored argument was dumped.
---
 src/c4/dump.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 0adf5d2..2f58d8b 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -457,7 +457,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -470,7 +470,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -486,17 +486,17 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
+        if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
         {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
+            results.lastok = currarg;
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(results.write_arg(currarg)))
+    {
         if(C4_LIKELY(buf.len > 0))
         {
             results.lastok = currarg;
@@ -526,17 +526,17 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
+        if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
         {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
+            results.lastok = currarg;
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(results.write_arg(currarg)))
+    {
         if(C4_LIKELY(buf.len > 0))
         {
             results.lastok = currarg;
-- 
2.43.0


From 0b46da483af6c06f400703661b05d19d59610d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:40 +0000
Subject: [PATCH 19/64] fix: from_chars_first: return the number of characters
 read for raw data

It returned true converted to a size, so that reading anything after raw
data with uncat() started at the second character.
---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 7fb03fa..383c85d 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(C4_UNLIKELY(!from_chars(buf, r)))
+        return csubstr::npos;
+    // alignment may have required padding before the data
+    const size_t misalignment = static_cast<size_t>(reinterpret_cast<uintptr_t>(buf.str) & (r->alignment - 1));
+    return (misalignment ? r->alignment - misalignment : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 3a04a84c208c43031f041c81ecb3ec0649466ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:04 +0000
Subject: [PATCH 20/64] fix: blob: return from the converting assignment
 operators

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From 3e86c6e657b0878ee679de32eb21a91565300eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:41 +0000
Subject: [PATCH 21/64] fix: base64_valid() accepts misplaced padding

'=' was accepted anywhere (eg "====", "=AAA", "AA=A", "AA==AAAA"), and
base64_decode() then hits its assertions or yields garbage. Padding can
only be the last one or two characters.
---
 src/c4/base64.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..353cb05 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,15 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
+    // padding can only be the last one or two characters
+    if(encoded.ends_with("=="))
+        encoded.len -= 2;
+    else if(encoded.ends_with('='))
+        encoded.len -= 1;
     for(const char c : encoded)
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From 44d869768ddbcb970513f8d02324fdd9a106052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:03 +0000
Subject: [PATCH 22/64] fix: base64_valid() reads out of bounds where char is
 unsigned

Bytes above 127 were rejected by testing for negative values, which
does not work on platforms where char is unsigned (eg, arm); there the
lookup went past the end of the table.
---
 src/c4/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 353cb05..7717253 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -105,7 +105,7 @@ bool base64_valid(csubstr encoded)
         encoded.len -= 1;
     for(const char c : encoded)
     {
-        if(c < 0/* || c >= 128*/)
+        if(static_cast<unsigned char>(c) >= sizeof(detail::base64_char_to_sextet_)) // char may be unsigned
             return false;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
-- 
2.43.0


From 07a11de89c812eecb54445d22b7b20d34b5950cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:18 +0000
Subject: [PATCH 23/64] fix: linear memory resources leak owned memory in
 release() and acquire()

allocate()/deallocate() forward to virtual functions, so outside of the
constructor and destructor release() ended up in the no-op
do_deallocate() of the linear resource, and acquire(sz) tried to get
the new memory from its own old buffer. And acquire() did not free the
previously owned memory.
---
 src/c4/memory_resource.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..7857014 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,7 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +176,16 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
-- 
2.43.0


From 10199306cc0b063ef39a3e8cd0203aa51802c819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:19 +0000
Subject: [PATCH 24/64] fix: MemoryResourceLinear::reallocate() loses the
 contents of the block

When a block could not be grown in place, the new block was returned
without the contents of the old one.
---
 src/c4/memory_resource.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 7857014..2faa31b 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -253,9 +253,12 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         m_pos += newsz - oldsz;
         return ptr;
     }
-    // we're growing the block or it doesn't fit -
-    // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    // we're growing the block or it doesn't fit - get a new block
+    // and move the contents there
+    void *mem = do_allocate(newsz, alignment, ptr);
+    if(mem && oldsz)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From 8fca465b4783e1bd337126f6346b3f13de2648e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:21 +0000
Subject: [PATCH 25/64] fix: MemoryResourceLinear::reallocate() accepts sizes
 which wrap around

eg reallocate(ptr, 16, SIZE_MAX) succeeded and moved the position
backwards, so that later blocks overlapped.
---
 src/c4/memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 2faa31b..dcd5cca 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -247,7 +247,7 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
-- 
2.43.0


From aa79bfd1714198f6826bcf00ca0f8dcf39a7cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:52 +0000
Subject: [PATCH 26/64] fix: MemoryResourceCounts loses count of a block when
 reallocation fails

The block was discounted before the reallocation, which may throw.
---
 src/c4/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..0ae71c3 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -513,8 +513,8 @@ protected:
 
     virtual void* do_reallocate(void* ptr, size_t oldsz, size_t newsz, size_t alignment) override
     {
-        m_counts.rem_counts(ptr, oldsz);
         void* nptr = m_resource->reallocate(ptr, oldsz, newsz, alignment);
+        m_counts.rem_counts(ptr, oldsz);
         m_counts.add_counts(nptr, newsz);
         return nptr;
     }
-- 
2.43.0


From bd7af37f90791315f0d501a405bf1bbed6856bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:22 +0000
Subject: [PATCH 27/64] fix: ScopedMemoryResourceCounts(mr) does not restore
 the original resource

It left mr as the global resource, which may not outlive the scope.
---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0ae71c3..58e6f42 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -548,18 +548,19 @@ struct ScopedMemoryResource
 struct ScopedMemoryResourceCounts
 {
     MemoryResourceCounts mr;
+    MemoryResource *m_original;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : mr(), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m), m_original(get_memory_resource())
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From ed9ca82fb843867555db1691ab4c7926eb0251a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:38 +0000
Subject: [PATCH 28/64] fix: SmallAllocator hands out overlapping and
 misaligned blocks

The position in the array was the number of allocated objects (including
those from the resource), so deallocating any block other than the last
made the next one overlap with those still in use. For example, pushing
a few elements into std::vector<int,small_allocator<int>> corrupted
them. Also, the alignment was only ensured for the first block in the
array, and an empty block at the end of the array was deallocated to
the resource.
---
 src/c4/allocator.hpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..0705e17 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -272,7 +272,17 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0};  // the position in m_arr for the next block
+    size_t m_live{0}; // the number of objects currently allocated from m_arr
+
+    bool _in_arr(T const *ptr) const
+    {
+        return (char const*)ptr >= m_arr && (char const*)ptr <= m_arr + (N * sizeof(T));
+    }
+    bool _is_last(T const *ptr, size_t num_objs) const
+    {
+        return (char const*)ptr + (num_objs * sizeof(T)) == m_arr + (m_num * sizeof(T));
+    }
 
 public:
 
@@ -335,26 +345,31 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        void *vmem;
-        if(m_num + num_objs <= N)
+        void *vmem = (m_arr + m_num * sizeof(T));
+        if(num_objs <= N - m_num && ((uintptr_t)vmem & (alignment - 1)) == 0)
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            m_num += num_objs;
+            m_live += num_objs;
         }
         else
         {
             vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(_in_arr(ptr))
         {
+            C4_ASSERT(m_live >= num_objs);
+            m_live -= num_objs;
+            // reuse the room only when there are no blocks after this one
+            if(m_live == 0)
+                m_num = 0;
+            else if(_is_last(ptr, num_objs))
+                m_num -= num_objs;
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
-- 
2.43.0


From a8e43ce00e3044cd192125d1dbadbd476e4b0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:08 +0000
Subject: [PATCH 29/64] fix: SmallAllocator::reallocate() returns the wrong
 memory

It only compiled for char, and then it lost the contents and returned
the start of the array even if that was in use by other blocks or when
the block was not there at all.
---
 src/c4/allocator.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index 0705e17..a629a85 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -381,18 +381,20 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
+        if(_in_arr(ptr))
         {
+            const bool last = _is_last(ptr, oldnum);
+            if(newnum <= oldnum || (last && newnum - oldnum <= N - m_num))
+            {
+                m_live = m_live - oldnum + newnum;
+                if(last)
+                    m_num = m_num - oldnum + newnum;
+                return ptr;
+            }
+            T *other = allocate(newnum, alignment);
+            ::memcpy((void*)other, (void const*)ptr, oldnum * sizeof(T));
             deallocate(ptr, oldnum, alignment);
-            return m_arr;
+            return other;
         }
         void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
         T* mem = static_cast<T*>(vmem);
-- 
2.43.0


From 2b7e461d4502e944e21ca79e78d80b5a87d43c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:17 +0000
Subject: [PATCH 30/64] fix: span::rend() did not compile for spans of
 non-const elements

It converted a const_reverse_iterator to a reverse_iterator.
---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6efdc22 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -83,7 +83,7 @@ public:
     C4_ALWAYS_INLINE const_reverse_iterator  rbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
     C4_ALWAYS_INLINE const_reverse_iterator crbegin() const noexcept { return reverse_iterator(_c4cptr + _c4csz); }
 
-    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return const_reverse_iterator(_c4ptr); }
+    C4_ALWAYS_INLINE       reverse_iterator  rend()       noexcept { return reverse_iterator(_c4ptr); }
     C4_ALWAYS_INLINE const_reverse_iterator  rend() const noexcept { return const_reverse_iterator(_c4cptr); }
     C4_ALWAYS_INLINE const_reverse_iterator crend() const noexcept { return const_reverse_iterator(_c4cptr); }
 
-- 
2.43.0


From f440eb248067ff4dea7496100424caea2e17c3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:17 +0000
Subject: [PATCH 31/64] fix: span::subspan() accepted lengths for which
 first+num wraps around

subspan(1, -1) with an unsigned index type, or a negative length with a
signed one, passed the assertion and yielded a span outside of the source.
---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 6efdc22..58a2d1b 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -99,7 +99,7 @@ public:
     C4_ALWAYS_INLINE SpanImpl subspan(I first, I num) const C4_NOEXCEPT_X
     {
         C4_XASSERT((first >= 0 && first < _c4csz) || (first == _c4csz && num == 0));
-        C4_XASSERT((first + num >= 0) && (first + num <= _c4csz));
+        C4_XASSERT((num >= 0) && (num <= _c4csz - first));
         return _c4cthis->_select(_c4cptr + first, num);
     }
     C4_ALWAYS_INLINE SpanImpl subspan(I first) const C4_NOEXCEPT_X ///< goes up until the end of the span
-- 
2.43.0


From 50b40c59d6600898f8d7d2baeba1e4ae2eea5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:17 +0000
Subject: [PATCH 32/64] fix: comparing spans for equality in C++11 ignored the
 sizes

The three-iterator std::equal() read beyond the end of a shorter
right-hand side, and a span was equal to any longer one it is a prefix of.
same_span() moreover asserts when the size does not fit the other index
type.
---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 58a2d1b..8bb8d5a 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -211,7 +211,7 @@ inline constexpr bool operator==
 #if C4_CPP >= 14
     return std::equal(l.begin(), l.end(), r.begin(), r.end());
 #else
-    return l.same_span(r) || std::equal(l.begin(), l.end(), r.begin());
+    return (l.end() - l.begin()) == (r.end() - r.begin()) && std::equal(l.begin(), l.end(), r.begin());
 #endif
 }
 
-- 
2.43.0


From eff8639e6fe920008054f7bdb22dfc0e1f1ca3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:02 +0000
Subject: [PATCH 33/64] fix: blob.hpp did not compile on its own when
 constructing from a pointer

The constructor asserts is_aligned(), which is in memory_util.hpp.
---
 src/c4/blob.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 542e8f9..0275144 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -3,6 +3,7 @@
 
 #include "c4/types.hpp"
 #include "c4/error.hpp"
+#include "c4/memory_util.hpp"
 
 /** @file blob.hpp Mutable and immutable binary data blobs.
 */
-- 
2.43.0


From a3f25e33b888576422a0f561745517e963953354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 34/64] fix: looking up an enum symbol with a length matched
 any prefix of a name

find("FOO", 3) returned FOO_BAR when that comes first, find("B", 1)
and find("", 0) returned some symbol, and so did str2bm("B").
---
 src/c4/enum.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..bdea974 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,23 +240,18 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    const size_t nlen = strlen(name);
+    if(len == nlen && strncmp(name, s, len) == 0)
         return true;
 
-    size_t nlen = 0;
     for(int i = 1; i <_EOFFS_LAST; ++i)
     {
         auto o = eoffs<Enum>((EnumOffsetType)i);
         if(o > 0)
         {
-            if(!nlen)
-            {
-                nlen = strlen(name);
-            }
             C4_ASSERT(o < nlen);
             size_t rem = nlen - o;
-            auto m = len > rem ? len : rem;
-            if(len >= m && strncmp(name + o, s, m) == 0)
+            if(len == rem && strncmp(name + o, s, len) == 0)
                 return true;
         }
     }
-- 
2.43.0


From ede4163cd28c4cdff04639b64cf42f18826035ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 35/64] fix: str2bm() dereferenced null on an empty symbol

In release builds a text beginning with a separator or with a
terminating zero (such as "|FOO", or an empty string in a larger
buffer) was read from a null pointer.
---
 src/c4/bitmask.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..b836df6 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -262,6 +262,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
 
     I val = 0;
     bool started = false;
+    bool need = false; // a separator must be followed by a symbol
     bool alnum = false, num = false;
     const char *f = nullptr, *pc = str;
     for( ; pc < str+sz; ++pc)
@@ -291,10 +292,16 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c == '|' || c == '\0')
         {
+            if(c == '\0' && !started && !need)
+            {
+                return val;
+            }
+            C4_CHECK_MSG(started, "empty symbol in bitmask string");
             C4_ASSERT(num != alnum);
             C4_ASSERT(pc >= f);
             val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
             started = num = alnum = false;
+            need = true;
             if(c == '\0')
             {
                 return val;
@@ -306,8 +313,9 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
     }
 
-    if(f)
+    if(started || need)
     {
+        C4_CHECK_MSG(started, "empty symbol in bitmask string");
         C4_ASSERT(num != alnum);
         C4_ASSERT(pc >= f);
         val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
-- 
2.43.0


From 61ebba2924a3e3e3937144e07b46d71b4431cc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 36/64] fix: str2bm() rejected names containing digits and
 hexadecimal numbers containing letters

so that what bm2str() writes for such a name could not be read back.
Names and numbers are checked when they are looked up and read.
---
 src/c4/bitmask.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index b836df6..94c76ba 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -270,8 +270,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
-            if( ! started)
+            if( ! started) // otherwise part of a name or of a number, eg hexadecimal
             {
                 f = pc;
                 alnum = started = true;
@@ -279,7 +278,6 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
             if(!started)
             {
                 f = pc;
-- 
2.43.0


From 2b9a2496de305e245f6332fe0a26dd57d272e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 37/64] fix: str2bm() failed on a space after a symbol

although spaces are skipped: "FOO|BAR" and "FOO| BAR" were read,
"FOO |BAR" was an error.
---
 src/c4/bitmask.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 94c76ba..d5385cf 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -235,6 +235,8 @@ typename std::underlying_type<Enum>::type str2bm_read_one(const char *str, size_
 {
     using I = typename std::underlying_type<Enum>::type;
     auto pairs = esyms<Enum>();
+    while(sz > 0 && str[sz - 1] == ' ')
+        --sz;
     if(alnum)
     {
         auto *p = pairs.find(str, sz);
-- 
2.43.0


From 79a1e238681ff0be85df6630204e6b1ee091d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:13 +0000
Subject: [PATCH 38/64] fix: bm2stream() silently dropped bits without a symbol

and wrote nothing at all when there are no others. Report an error, as
bm2str() does.
---
 src/c4/bitmask.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index d5385cf..d96e1d3 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -56,6 +56,7 @@ Stream& bm2stream(Stream &s, typename std::underlying_type<Enum>::type bits, Enu
                 bits &= ~b;
             }
         }
+        C4_CHECK_MSG(bits == 0, "could not find all bits");
         return s;
     }
     else
-- 
2.43.0


From 6212580450ec311009aeed30e9cff83a4b5dc8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 39/64] fix: error.cpp did not compile with
 C4_ERROR_THROWS_EXCEPTION

---
 src/c4/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 32a266d..5122909 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -29,7 +29,7 @@
 #endif
 
 #if defined(C4_EXCEPTIONS_ENABLED) && defined(C4_ERROR_THROWS_EXCEPTION)
-#   include <exception>
+#   include <stdexcept>
 #endif
 
 #ifdef __clang__
-- 
2.43.0


From a103d24fc3b2135ee3cdb9a0b7104545a266ea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 40/64] fix: with only ON_ERROR_THROW, errors threw the
 contents of an uninitialized buffer

---
 src/c4/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 5122909..7480b22 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -78,7 +78,7 @@ void handle_error(srcloc where, const char *fmt, ...)
 {
     char buf[1024];
     size_t msglen = 0;
-    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK))
+    if(s_error_flags & (ON_ERROR_LOG|ON_ERROR_CALLBACK|ON_ERROR_THROW))
     {
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 29e29ead83638670571b0b551ee20a43b4e4232c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 41/64] fix: the condition of a failed C4_CHECK_MSG() was used
 as a format string

---
 src/c4/error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/error.hpp b/src/c4/error.hpp
index 95d7c0d..c326109 100644
--- a/src/c4/error.hpp
+++ b/src/c4/error.hpp
@@ -338,7 +338,7 @@ struct srcloc
     do {                                                                \
         if(C4_UNLIKELY(!(cond)))                                        \
         {                                                               \
-            C4_ERROR("check failed: " #cond "\n" fmt, ## __VA_ARGS__);  \
+            C4_ERROR("check failed: %s\n" fmt, #cond, ## __VA_ARGS__); \
         }                                                               \
     } while(0)
 
-- 
2.43.0


From e127aee3974aa9b0989d9e318cfcc3a67ef49f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 42/64] fix: an error whose message cannot be formatted
 reported the contents of an uninitialized buffer

---
 src/c4/error.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c4/error.cpp b/src/c4/error.cpp
index 7480b22..ae1d37b 100644
--- a/src/c4/error.cpp
+++ b/src/c4/error.cpp
@@ -84,7 +84,9 @@ void handle_error(srcloc where, const char *fmt, ...)
         va_start(args, fmt);
         int ilen = vsnprintf(buf, sizeof(buf), fmt, args); // ss.vprintf(fmt, args);
         va_end(args);
-        msglen = ilen >= 0 && ilen < (int)sizeof(buf) ? static_cast<size_t>(ilen) : sizeof(buf)-1;
+        if(ilen < 0) // the message could not be formatted
+            buf[ilen = 0] = '\0';
+        msglen = ilen < (int)sizeof(buf) ? static_cast<size_t>(ilen) : sizeof(buf)-1;
     }
 
     if(s_error_flags & ON_ERROR_LOG)
-- 
2.43.0


From b24020e8561feae38b3dac93266444ff96fbd18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 43/64] fix: common.hpp included a header which does not exist

---
 src/c4/common.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/c4/common.hpp b/src/c4/common.hpp
index e3063ff..920d650 100644
--- a/src/c4/common.hpp
+++ b/src/c4/common.hpp
@@ -9,7 +9,6 @@
 #include "c4/compiler.hpp"
 #include "c4/language.hpp"
 #include "c4/error.hpp"
-#include "c4/time.hpp"
 #include "c4/types.hpp"
 
 #endif /* _C4_COMMON_HPP_ */
-- 
2.43.0


From 15f02ff4d421a30d68464bd24eb575b76bf9b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 44/64] fix: make_room() at a position did not compile for
 small index types

---
 src/c4/ctor_dtor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..b9e5288 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -343,7 +343,7 @@ C4_ALWAYS_INLINE void make_room(U *buf, I bufsz, I currsz, I pos, I room)
     C4_ASSERT(currsz <= bufsz);
     C4_ASSERT(room + currsz <= bufsz);
     C4_UNUSED(bufsz);
-    make_room(buf + pos, currsz - pos, room);
+    make_room(buf + pos, (I)(currsz - pos), room);
 }
 
 
-- 
2.43.0


From 515c2815a243ac2364ad1811e1cd69f836145c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 45/64] fix: make_room() with no room move-constructed every
 object from itself

---
 src/c4/ctor_dtor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index b9e5288..2c26014 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -325,7 +325,7 @@ make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
             new ((void*)(buf + (i + room))) U(std::move(buf[i]));
         }
     }
-    else
+    else if(room > 0) // with no room, the objects would be moved onto themselves
     {
         for(I i = 0; i < bufsz; ++i)
         {
-- 
2.43.0


From c39fa43b4a95892d41854d53d2a8dd19fd0f0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 46/64] fix: destroy_room() with no room move-assigned every
 object to itself

---
 src/c4/ctor_dtor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index 2c26014..799648e 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -412,6 +412,10 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
+    if(room == 0)
+    {
+        return; // the objects would be moved onto themselves
+    }
     if(room < n)
     {
         for(I i = 0, e = n - room; i < e; ++i)
-- 
2.43.0


From f0c1b6405213f1817b992294e3838214ab377cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 47/64] fix: make_room() did not destroy the objects whose
 storage it reuses

---
 src/c4/ctor_dtor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index 799648e..6968019 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -330,6 +330,8 @@ make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
         for(I i = 0; i < bufsz; ++i)
         {
             I w = bufsz-1 - i; // do a backwards loop
+            if(w + room < bufsz)
+                buf[w + room].~U(); // it was moved from in a previous iteration
             new ((void*)(buf + (w + room))) U(std::move(buf[w]));
         }
     }
-- 
2.43.0


From 29f11e0bb12d9d52c3fc415a43dac9d9be3a48b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 48/64] fix: tight_pair of two equal types: allow any type,
 initialise both

A pair of two equal non-empty types derived from the first, so that it could
not be used with scalars, and its default constructor left the second
uninitialised.
---
 src/c4/memory_util.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/c4/memory_util.hpp b/src/c4/memory_util.hpp
index 8d9918c..8a9518b 100644
--- a/src/c4/memory_util.hpp
+++ b/src/c4/memory_util.hpp
@@ -713,18 +713,19 @@ struct tight_pair<First, Second, tpc_both_empty> : public First, public Second
 };
 
 template<class First, class Second>
-struct tight_pair<First, Second, tpc_same> : public First
+struct tight_pair<First, Second, tpc_same>
 {
+    First m_first;
     Second m_second;
 
     using first_type = First;
     using second_type = Second;
 
-    tight_pair() : First() {}
-    tight_pair(First const& f, Second const& s) : First(f), m_second(s) {}
+    tight_pair() : m_first(), m_second() {}
+    tight_pair(First const& f, Second const& s) : m_first(f), m_second(s) {}
 
-    C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return static_cast<First      &>(*this); }
-    C4_ALWAYS_INLINE C4_CONSTEXPR14 First const& first () const { return static_cast<First const&>(*this); }
+    C4_ALWAYS_INLINE C4_CONSTEXPR14 First      & first ()       { return m_first; }
+    C4_ALWAYS_INLINE C4_CONSTEXPR14 First const& first () const { return m_first; }
     C4_ALWAYS_INLINE C4_CONSTEXPR14 Second      & second()       { return m_second; }
     C4_ALWAYS_INLINE C4_CONSTEXPR14 Second const& second() const { return m_second; }
 };
-- 
2.43.0


From c1355654323480ef3ce2d1edfd606a9e61ab82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 49/64] fix: Padded, MinSized, MultSized: obey the size also
 for classes that are not POD

The padding was placed in the tail padding of the base, or in place of an
empty base, so that the size was smaller than asked for: MinSized<T, 32>
could have 29 bytes.
---
 src/c4/types.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 5c87373..c34eeeb 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -151,6 +151,12 @@ C4_ALWAYS_INLINE constexpr size_t mult_remainder(size_t size, size_t multipleof)
 
 /* force the following class to be tightly packed. */
 #pragma pack(push, 1)
+namespace detail {
+/** where the members of a class deriving from T start. This is smaller than
+ * sizeof(T) when T is empty or its tail padding can be reused. */
+template<class T>
+struct padded_probe : public T { char c; };
+} // namespace detail
 /** pad a class with more bytes at the end.
  * @see http://stackoverflow.com/questions/21092415/force-c-structure-to-pack-tightly */
 template<class T, size_t BytesToPadAtEnd>
@@ -160,7 +166,7 @@ struct Padded : public T
     using T::operator=;
     Padded(T const& val) : T(val) {}
     Padded(T && val) : T(val) {}
-    char ___c4padspace___[BytesToPadAtEnd];
+    char ___c4padspace___[BytesToPadAtEnd + sizeof(T) - (sizeof(detail::padded_probe<T>) - 1)];
 };
 #pragma pack(pop)
 /** When the padding argument is 0, we cannot declare the char[] array. */
-- 
2.43.0


From 08687fd9a73861a37580081adaf18c79d1c2e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 50/64] fix: Padded: move from an rvalue

It was copied, and types that can only be moved could not be used.
---
 src/c4/types.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index c34eeeb..1e8df32 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -165,7 +165,7 @@ struct Padded : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(std::move(val)) {}
     char ___c4padspace___[BytesToPadAtEnd + sizeof(T) - (sizeof(detail::padded_probe<T>) - 1)];
 };
 #pragma pack(pop)
@@ -176,7 +176,7 @@ struct Padded<T, 0> : public T
     using T::T;
     using T::operator=;
     Padded(T const& val) : T(val) {}
-    Padded(T && val) : T(val) {}
+    Padded(T && val) : T(std::move(val)) {}
 };
 
 /** make T have a size which is at least Min bytes */
-- 
2.43.0


From 482e958bf060a6ebb1756efb064b91683373c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 51/64] fix: C4_DEFINE_HAS_TYPEDEF: name the trait after the
 typedef

All traits defined with it had the name has_stype, so that it could only be
used once.
---
 src/c4/types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/types.hpp b/src/c4/types.hpp
index 1e8df32..8d1bac0 100644
--- a/src/c4/types.hpp
+++ b/src/c4/types.hpp
@@ -285,7 +285,7 @@ int main()
 /** define a traits class reporting whether a type provides a member typedef */
 #define C4_DEFINE_HAS_TYPEDEF(member_typedef)               \
 template<typename T>                                        \
-struct has_##stype                                          \
+struct has_##member_typedef                                  \
 {                                                           \
 private:                                                    \
                                                             \
-- 
2.43.0


From d5ee45bba85f558318d398c1c886a73ad0255644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 52/64] fix: char_traits<wchar_t>: count the whitespace
 characters, not their bytes

---
 src/c4/char_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/char_traits.hpp b/src/c4/char_traits.hpp
index b080659..97a2514 100644
--- a/src/c4/char_traits.hpp
+++ b/src/c4/char_traits.hpp
@@ -27,7 +27,7 @@ template<>
 struct char_traits<wchar_t> : public std::char_traits<wchar_t>
 {
     constexpr static const wchar_t whitespace_chars[] = L" \f\n\r\t\v";
-    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) - 1;
+    constexpr static const size_t num_whitespace_chars = sizeof(whitespace_chars) / sizeof(wchar_t) - 1;
 };
 
 
-- 
2.43.0


From 8ffe6d3df1464aa7424f703a9145ea6a2319bfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:25 +0000
Subject: [PATCH 53/64] fix: C4_FLATTEN: correct the spelling of the attribute

---
 src/c4/language.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/language.hpp b/src/c4/language.hpp
index 4ad81b6..abee5c5 100644
--- a/src/c4/language.hpp
+++ b/src/c4/language.hpp
@@ -248,7 +248,7 @@
 #   define C4_CONST __attribute__((const))
 #   define C4_PURE __attribute__((pure))
 /** force inlining of every callee function */
-#   define C4_FLATTEN __atribute__((flatten))
+#   define C4_FLATTEN __attribute__((flatten))
 /** mark a function as hot, ie as having a visible impact in CPU time
  * thus making it more likely to inline, etc
  * @see http://stackoverflow.com/questions/15028990/semantics-of-gcc-hot-attribute */
-- 
2.43.0


From ce18298d44b6ca8186a2bb7e67c33e98e88359e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:52 +0000
Subject: [PATCH 54/64] fix: pcg: do not shift by a negative amount

The rotation was the signed state shifted right, which is negative for half of
the states; shifting by it is undefined.
---
 src/c4/ext/rng/rng.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c4/ext/rng/rng.hpp b/src/c4/ext/rng/rng.hpp
index ceaf55b..d29dc49 100644
--- a/src/c4/ext/rng/rng.hpp
+++ b/src/c4/ext/rng/rng.hpp
@@ -166,9 +166,8 @@ public:
         uint64_t oldstate = m_state;
         m_state = oldstate * 6364136223846793005ULL + m_inc;
         uint32_t xorshifted = uint32_t(((oldstate >> 18u) ^ oldstate) >> 27u);
-        //int rot = oldstate >> 59u; // the original. error?
-        int64_t rot = (int64_t)oldstate >> 59u; // error?
-        return (xorshifted >> rot) | (xorshifted << ((uint64_t)(-rot) & 31));
+        uint32_t rot = uint32_t(oldstate >> 59u);
+        return (xorshifted >> rot) | (xorshifted << ((0u - rot) & 31u));
     }
 
     void discard(unsigned long long n)
-- 
2.43.0


From f5f73c273512ea12571808761e1eec972f95d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:30 +0000
Subject: [PATCH 55/64] fix: replace_all: accept pos==npos, as its precondition
 says

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 93d010a..29391c0 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2144,6 +2144,8 @@ public:
                 sz += num;                                              \
             }
         size_t sz = 0;
+        if(pos == npos)
+            pos = len;
         size_t b = pos;
         _c4append(str, str + pos);
         do {
-- 
2.43.0


From 07ca5a122379c8e86d035fa3c2aee2c67562236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:04 +0000
Subject: [PATCH 56/64] fix: substr: count() of the empty string must terminate

---
 src/c4/substr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 29391c0..7a989c8 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -583,7 +583,10 @@ public:
         while(pos != npos)
         {
             ++num;
-            pos = find(c, pos + c.len);
+            pos += c.len ? c.len : 1; // the empty string occurs at every position
+            if(pos > len)
+                break;
+            pos = find(c, pos);
         }
         return num;
     }
-- 
2.43.0


From 3365e4861b6f21398680f77ab9b21a179ce8ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:08 +0000
Subject: [PATCH 57/64] fix: hexadecimal reals: do not lose values whose power
 alone is out of range

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index e7a5aad..92687f7 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -99,7 +99,7 @@
 #if !C4CORE_HAVE_STD_FROMCHARS
 #include <cstdio>
 #endif
-#if C4CORE_HAVE_STD_TOCHARS
+#if C4CORE_HAVE_STD_TOCHARS || C4CORE_HAVE_FAST_FLOAT
 #include <cmath>
 #endif
 
@@ -2058,7 +2058,7 @@ power:
             const csubstr pow = s.sub(pos);
             if(C4_LIKELY(atoi(pow, &powval) && !overflows<int16_t>(pow)))
             {
-                *val *= ipow<T, int16_t, 2>(powval);
+                *val = std::ldexp(*val, powval); // the power alone may be out of range
                 return true;
             }
         }
-- 
2.43.0


From 3fccb1c8d81ef878031dcfc59e5f8ad98d30223a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:10 +0000
Subject: [PATCH 58/64] fix: substr: comparing with a character: do not narrow
 the length

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a989c8..eb4454e 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : (len > 1 ? 1 : 0);
         else
             return -1;
     }
-- 
2.43.0


From ec09af91796b1bba7c3baebe058619a67825ea4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:57 +0000
Subject: [PATCH 59/64] fix: itoa()/utoa() with digits: do not narrow the
 number of digits

The number of digits was narrowed to unsigned before it was compared with
the size of the buffer. When it wrapped, eg 0xfffffffe digits in
hexadecimal, the prefix was written to a buffer of any size, even empty,
and the returned size was too small.
---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 92687f7..a674a63 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1248,12 +1248,12 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             v = -v;
             ++pos;
         }
-        unsigned total_digits = 0;
+        size_t total_digits = 0;
         switch(radix)
         {
         case T(10):
             total_digits = digits_dec(v);
-            total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1263,7 +1263,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(16):
             total_digits = digits_hex(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1275,7 +1275,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(2):
             total_digits = digits_bin(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1287,7 +1287,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(8):
             total_digits = digits_oct(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1398,18 +1398,18 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
 {
     C4_STATIC_ASSERT(std::is_unsigned<T>::value);
     C4_ASSERT(radix == 10 || radix == 16 || radix == 2 || radix == 8);
-    unsigned total_digits = 0;
+    size_t total_digits = 0;
     switch(radix)
     {
     case T(10):
         total_digits = digits_dec(v);
-        total_digits = (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
             write_dec(buf, v, num_digits);
         break;
     case T(16):
         total_digits = digits_hex(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1419,7 +1419,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(2):
         total_digits = digits_bin(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1429,7 +1429,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(8):
         total_digits = digits_oct(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
-- 
2.43.0


From 42264435fa4807cad3ee98642d7cfa9e131c8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:57 +0000
Subject: [PATCH 60/64] fix: allocators: refuse requests for more objects than
 fit in memory

When the size in bytes overflowed, a block smaller than requested was
returned.
---
 src/c4/allocator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index a629a85..3bb1a75 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -27,8 +27,8 @@ namespace c4 {
 C4_SUPPRESS_WARNING_GCC_CLANG_WITH_PUSH("-Wold-style-cast")
 
 namespace detail {
-template<class T> inline size_t size_for      (size_t num_objs) noexcept { return num_objs * sizeof(T); }
-template<       > inline size_t size_for<void>(size_t num_objs) noexcept { return num_objs;             }
+template<class T> inline size_t size_for      (size_t num_objs) { C4_CHECK_MSG(num_objs <= size_t(-1) / sizeof(T), "too many objects"); return num_objs * sizeof(T); }
+template<       > inline size_t size_for<void>(size_t num_objs) { return num_objs; }
 } // namespace detail
 
 
@@ -353,7 +353,7 @@ public:
         }
         else
         {
-            vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
+            vmem = this->resource()->allocate(detail::size_for<T>(num_objs), alignment);
         }
         T *mem = static_cast<T*>(vmem);
         return mem;
@@ -396,7 +396,7 @@ public:
             deallocate(ptr, oldnum, alignment);
             return other;
         }
-        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
+        void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), detail::size_for<T>(newnum), alignment);
         T* mem = static_cast<T*>(vmem);
         return mem;
     }
-- 
2.43.0


From 2ff12d88dd51dd5860d3ddfa41884ff1650e927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:57 +0000
Subject: [PATCH 61/64] fix: substr::overlaps(): an empty string has no element
 to overlap

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index eb4454e..faff1a1 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -313,7 +313,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE bool overlaps(ro_substr const that) const noexcept
     {
         // thanks @timwynants
-        return that.str+that.len > str && that.str < str+len;
+        return len > 0 && that.len > 0 && that.str+that.len > str && that.str < str+len;
     }
 
 public:
-- 
2.43.0


From 7ab3b5f3dd8d5152f2d94502bea55695c77db2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:44 +0000
Subject: [PATCH 62/64] fix: inplace_function: forward the arguments when
 computing noexcept, so that move-only arguments compile

---
 src/c4/ext/sg14/inplace_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 8d7a5b4..e7f407d 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -99,7 +99,7 @@ template<typename R, typename... Args> struct vtable
 
     template<typename C> explicit constexpr vtable(wrapper<C>) noexcept :
         invoke_ptr{ [](storage_ptr_t storage_ptr, Args&&... args)
-            noexcept(noexcept(std::declval<C>()(args...))) -> R
+            noexcept(noexcept(std::declval<C&>()(std::forward<Args>(args)...))) -> R
             { return (*static_cast<C*>(storage_ptr))(
                 std::forward<Args>(args)...
             ); }
-- 
2.43.0


From eda5977022053579bffbebdb5e90807c675c52fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:44 +0000
Subject: [PATCH 63/64] fix: inplace_function: an empty function is still empty
 after conversion to another capacity

---
 src/c4/ext/sg14/inplace_function.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index e7f407d..022f324 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -127,6 +127,12 @@ template<typename R, typename... Args> struct vtable
     ~vtable() = default;
 };
 
+// the same for all capacities, so that an empty function is still empty after conversion
+template<typename R, typename... Args> struct empty_vtable_holder
+{
+    static const constexpr vtable<R, Args...> value{};
+};
+
 template<size_t DstCap, size_t DstAlign, size_t SrcCap, size_t SrcAlign>
 struct is_valid_inplace_dst : std::true_type
 {
@@ -156,7 +162,7 @@ template<
 >
 class inplace_function<R(Args...), Capacity, Alignment>
 {
-    static const constexpr inplace_function_detail::vtable<R, Args...> empty_vtable{};
+    static constexpr inplace_function_detail::vtable<R, Args...> const& empty_vtable = inplace_function_detail::empty_vtable_holder<R, Args...>::value;
 public:
     using capacity = std::integral_constant<size_t, Capacity>;
     using alignment = std::integral_constant<size_t, Alignment>;
-- 
2.43.0


From b7bbc10dddb2404b316c2248ad74acf3e939252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:26 +0000
Subject: [PATCH 64/64] fix: inplace_function: do not destroy an object that
 failed to be copied in an assignment

---
 src/c4/ext/sg14/inplace_function.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/ext/sg14/inplace_function.h b/src/c4/ext/sg14/inplace_function.h
index 022f324..580006a 100644
--- a/src/c4/ext/sg14/inplace_function.h
+++ b/src/c4/ext/sg14/inplace_function.h
@@ -245,11 +245,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->copy_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // there is no object if the next call throws
+            other.vtable_ptr_->copy_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
@@ -260,11 +261,12 @@ public:
         {
             vtable_ptr_->destructor_ptr(std::addressof(storage_));
 
-            vtable_ptr_ = other.vtable_ptr_;
-            vtable_ptr_->move_ptr(
+            vtable_ptr_ = std::addressof(empty_vtable); // there is no object if the next call throws
+            other.vtable_ptr_->move_ptr(
                 std::addressof(storage_),
                 std::addressof(other.storage_)
             );
+            vtable_ptr_ = other.vtable_ptr_;
         }
         return *this;
     }
-- 
2.43.0

