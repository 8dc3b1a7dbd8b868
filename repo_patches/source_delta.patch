From 1b87adc438060fa6d6ced0186b75ff8ed53091a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 01/92] fix: keep both class bits of BER identifiers

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From 0c774f3bb6b3a3fece7fa0e46a8f43aeb31309b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 02/92] fix: reject BER tags and LEB128 integers that do not
 end within 56 bits

---
 src/asn1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..2e166b4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 9bb5bb84f2b9b69667da1ebf0cc75972a2b832c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 03/92] fix: make the C declarations of two by-value integer
 functions match their definitions

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 2e166b4..62e63ca 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -703,7 +703,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From 10ec28f9556890431fffe735a3f861c9540505e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 04/92] fix: reject integers with no content octets

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 62e63ca..6bfb53d 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 4d6f7df598b5ced148c1f0433ce6f78a6cc322cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 05/92] fix: reject booleans whose content is not one octet

---
 src/asn1.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 6bfb53d..a904add 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,6 +313,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
@@ -328,6 +331,10 @@ int crefl_asn1_ber_boolean_write(crefl_buf *buf, size_t len, const bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
+
     b = *value;
     if (crefl_buf_write_i8(buf, b) != 1) {
         goto err;
-- 
2.43.0


From a5725039d2f64573b32ab1db70c514d975a9a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 06/92] fix: write boolean TRUE with all bits set as DER
 requires

---
 src/asn1.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index a904add..8ace095 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -335,7 +335,8 @@ int crefl_asn1_ber_boolean_write(crefl_buf *buf, size_t len, const bool *value)
         goto err;
     }
 
-    b = *value;
+    /* DER requires TRUE to have all bits set */
+    b = *value ? -1 : 0;
     if (crefl_buf_write_i8(buf, b) != 1) {
         goto err;
     }
-- 
2.43.0


From 5b77aeb2ce00a1fed2f9d8514b767e7ab2b16157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 07/92] fix: split the first OID subidentifier into two
 components per X.690

---
 src/asn1.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8ace095..3bb8f09 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2453,11 +2453,13 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         if (crefl_asn1_ber_tag_read(buf, &comp) < 0) goto err;
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
+         * where X is 0, 1 or 2 and Y is less than 40 when X is 0 or 1.
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
+        if (n == 0) {
+            u64 first = comp < 80 ? comp/40 : 2;
+            if (n < limit) obj->oid[n] = first;
             n++;
-            if (n < limit) obj->oid[n] = comp%40;
+            if (n < limit) obj->oid[n] = comp - first * 40;
             n++;
         }
         else {
-- 
2.43.0


From c2f4a7e2286c14f4ae12baa0ac6ba161f09d774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 08/92] fix: reject OIDs whose last subidentifier runs past
 their length

---
 src/asn1.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 3bb8f09..ee136ee 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2467,6 +2467,8 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
             n++;
         }
         offset = crefl_buf_offset(buf);
+        /* the last component must end where the content ends */
+        if ((offset - start) > len) goto err;
     }
     obj->count = n;
     return 0;
-- 
2.43.0


From 0a165d77d0ac0b57d8bba730bbd2054f05c6f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 09/92] fix: do not read past the component array of over-long
 OIDs

---
 src/asn1.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index ee136ee..2366952 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2429,11 +2429,13 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (i == 0 && obj->count > 1) {
+        if (i == 0 && count > 1) {
             length = crefl_asn1_ber_tag_length(obj->oid[0] * 40 + obj->oid[1]);
             i++;
         } else {
@@ -2479,6 +2481,8 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    if (obj->count > asn1_oid_comp_max) goto err;
+
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From ac347e65a26fa69ef4129c06fa69731073f6d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 10/92] fix: keep OID text within the caller's buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2366952..1270152 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2530,8 +2530,8 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (str && offset < limit ? str + offset : NULL),
+            (str && offset < limit ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From fd14d82372070b1a3ac55f8694106c4d4648227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 11/92] fix: parse zero OID components and do not read behind
 the text

---
 src/asn1.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1270152..f5ce802 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2546,23 +2546,25 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     u64 comp_num = 0;
     size_t last = 0, comp = 0;
     for (size_t i = 0; i <= buflen; i++) {
-        if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
-            size_t comp_len = i - last + 1;
+        if (i == buflen || str[i] == '.') {
+            if (i == last) {
+                /* empty component, fine only for the empty string */
+                if (buflen == 0) break;
+                goto err;
+            }
             if (comp < asn1_oid_comp_max) {
                 obj->oid[comp] = comp_num;
             }
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
         } else {
             goto err;
         }
-- 
2.43.0


From 06bea754fadc46526512696aad093a3b22ba9e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 12/92] fix: reject octet strings longer than the buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f5ce802..ec0bfb3 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2605,7 +2605,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2623,7 +2623,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From 8cb70210c3a43e90bbfe5ef5899ca1ae1d4d84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 13/92] fix: make the buffer capacity check return a negative
 value

---
 include/crefl/buf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..e924105 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,9 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (len > buf->data_size || buf->data_offset > buf->data_size - len) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
-- 
2.43.0


From c3de110cde39147c210dbe08a6a077301bc40a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 14/92] fix: do not let huge lengths wrap the bounds checks of
 byte transfers

---
 include/crefl/buf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index e924105..3c1d5d1 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -211,7 +211,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +225,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From 37fcb460ad4bf04831d8e297615b0fd742415860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 15/92] fix: use the X.690 codes for REAL minus zero and NaN

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index ec0bfb3..2f1b3a7 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -921,8 +921,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From 4d9b6a3ecf5a430c615abd51d363d94d00863767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 16/92] fix: convert subnormal, zero and out of range REAL
 values correctly

---
 src/asn1.cc | 80 +++++++++++++++++++----------------------------------
 1 file changed, 29 insertions(+), 51 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2f1b3a7..4f1a1f9 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <cctype>
+#include <cmath>
 #include <cassert>
 #include <limits>
 
@@ -968,16 +969,18 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac == 0) {
+        sexp = 0;
+    } else {
+        /* subnormal numbers have the exponent of the least normal number */
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp = (sexp > 0 ? sexp : 1) + (s64)frac_tz - (s64)(f64_mant_size + f64_exp_bias);
     }
 
     return f64_asn1_data {
@@ -989,6 +992,21 @@ static f64_asn1_data f64_asn1_data_get(double value)
     };
 }
 
+/*
+ * reverse of f64_asn1_data_get for any fraction and exponent
+ */
+static int f64_asn1_data_set(bool sign, u64 frac, s64 sexp, double *value)
+{
+    double v = ldexp((double)frac, (int)sexp);
+
+    if (!std::isfinite(v)) {
+        return -1;
+    }
+
+    *value = sign ? -v : v;
+    return 0;
+}
+
 size_t crefl_asn1_ber_real_f64_length(const double *value)
 {
     f64_asn1_data d = f64_asn1_data_get(*value);
@@ -1025,9 +1043,7 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
@@ -1059,28 +1075,10 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+
+    if (f64_asn1_data_set(sign, frac, sexp, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1099,9 +1097,7 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
@@ -1139,28 +1135,10 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+
+    if (f64_asn1_data_set(sign, frac, sexp, &v) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From 5f5ca610382d551a5dd83c9c69f876568482bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 17/92] fix: check REAL contents against their length

---
 src/asn1.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 4f1a1f9..fd1d9e0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1045,10 +1045,13 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     s64 sexp;
     bool sign;
 
-    if (crefl_buf_read_i8(buf, &b) != 1) {
+    if (len < 1 || crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1067,6 +1070,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_exp_2: exp_len = 2; break;
     default: goto err;
     }
+    if (len < exp_len + 2) {
+        goto err;
+    }
     frac_len = len - exp_len - 1;
 
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
@@ -1101,10 +1107,13 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     s64_result rexp;
     u64_result rfrac;
 
-    if (crefl_buf_read_i8(buf, &b) != 1) {
+    if (len < 1 || crefl_buf_read_i8(buf, &b) != 1) {
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
@@ -1123,6 +1132,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_exp_2: exp_len = 2; break;
     default: return f64_result { 0, -1 };
     }
+    if (len < exp_len + 2) {
+        return f64_result { 0, -1 };
+    }
     frac_len = len - exp_len - 1;
 
     rexp = crefl_asn1_ber_integer_s64_read_byval(buf, exp_len);
-- 
2.43.0


From f3e27c810a42d4e0f24692c0b1f79f6c91908359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 18/92] fix: honour the base and scale factor of REAL values

---
 src/asn1.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index fd1d9e0..7a22e0b 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -936,6 +936,19 @@ static _real_exp _asn1_real_exp(u8 x)
     return (_real_exp)((x >> _real_exp_shift) & _real_exp_mask);
 }
 
+/* exponent of 2 for an exponent of the encoded base and the scale factor */
+static int _asn1_real_scale(u8 x, s64 *sexp)
+{
+    s64 scale = (x >> _real_scale_shift) & _real_scale_mask;
+
+    switch ((x >> _real_base_shift) & _real_base_mask) {
+    case _real_base_2:  *sexp = *sexp * 1 + scale; return 0;
+    case _real_base_8:  *sexp = *sexp * 3 + scale; return 0;
+    case _real_base_16: *sexp = *sexp * 4 + scale; return 0;
+    default: return -1;
+    }
+}
+
 static u8 _asn1_real_binary_full(bool sign, _real_exp exp, _real_base base, u8 scale)
 {
     return 0x80 | ((u8)sign<<6)  | (((u8)base)<<4) | ((scale&3)<<2) | (u8)exp;
@@ -1078,6 +1091,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
         goto err;
     }
+    if (_asn1_real_scale(b, &sexp) < 0) {
+        goto err;
+    }
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
@@ -1142,6 +1158,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rexp.error };
     }
     sexp = rexp.value;
+    if (_asn1_real_scale(b, &sexp) < 0) {
+        return f64_result { 0, -1 };
+    }
     rfrac = crefl_asn1_ber_integer_u64_read_byval(buf, frac_len);
     if (rfrac.error < 0) {
         return f64_result { 0, rfrac.error };
-- 
2.43.0


From 2f79441598a7a7cf064a0073757cc1eaac784234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 19/92] fix: encode REAL plus zero with no contents per X.690

---
 src/asn1.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7a22e0b..ebc6086 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1025,7 +1025,7 @@ size_t crefl_asn1_ber_real_f64_length(const double *value)
     f64_asn1_data d = f64_asn1_data_get(*value);
 
     if (d.zero) {
-        return d.sign ? 1 : 3;
+        return d.sign ? 1 : 0;
     } else if (d.inf || d.nan) {
         return 1;
     } else {
@@ -1038,7 +1038,7 @@ size_t crefl_asn1_ber_real_f64_length_byval(const double value)
     f64_asn1_data d = f64_asn1_data_get(value);
 
     if (d.zero) {
-        return d.sign ? 1 : 3;
+        return d.sign ? 1 : 0;
     } else if (d.inf || d.nan) {
         return 1;
     } else {
@@ -1058,7 +1058,12 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     s64 sexp;
     bool sign;
 
-    if (len < 1 || crefl_buf_read_i8(buf, &b) != 1) {
+    if (len == 0) {
+        /* plus zero has no contents */
+        *value = 0;
+        return 0;
+    }
+    if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
@@ -1123,7 +1128,11 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     s64_result rexp;
     u64_result rfrac;
 
-    if (len < 1 || crefl_buf_read_i8(buf, &b) != 1) {
+    if (len == 0) {
+        /* plus zero has no contents */
+        return f64_result { 0, 0 };
+    }
+    if (crefl_buf_read_i8(buf, &b) != 1) {
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
@@ -1180,7 +1189,10 @@ int crefl_asn1_ber_real_f64_write(crefl_buf *buf, size_t len, const double *valu
 
     int8_t b;
 
-    if (d.zero && d.sign) {
+    if (d.zero && !d.sign) {
+        return 0;
+    }
+    else if (d.zero && d.sign) {
         b = _real_special_neg_zero;
     }
     else if (d.inf) {
@@ -1219,7 +1231,10 @@ int crefl_asn1_ber_real_f64_write_byval(crefl_buf *buf, size_t len, const double
 
     int8_t b;
 
-    if (d.zero && d.sign) {
+    if (d.zero && !d.sign) {
+        return 0;
+    }
+    else if (d.zero && d.sign) {
         b = _real_special_neg_zero;
     }
     else if (d.inf) {
-- 
2.43.0


From b235f38b5d59c7f00f0c346b92cdd1ee996deb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 20/92] fix: take the unary exponent of a variable length float
 from its whole mantissa

---
 src/asn1.cc | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index ebc6086..0bf8b02 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1834,7 +1834,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
+    u64 vr_man = 0;
     s32 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
@@ -1857,12 +1857,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         if (vf_man) {
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) goto err;
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -1903,15 +1898,15 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            size_t sh = -(s32)f32_exp_bias - vr_exp + f32_exp_size + 32;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = (u32)((vr_man << lz) >> sh);
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = (u32)((vr_man << lz << 1) >> (64 - f32_mant_size));
         }
     }
 
@@ -1941,7 +1936,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
+    u64 vr_man = 0;
     s32 vr_exp = 0;
     u32 vp_man = 0;
     s32 vp_exp = 0;
@@ -1964,12 +1959,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         if (vf_man) {
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) return f32_result { 0, (s32)r.error };
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -2010,15 +2000,15 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            size_t sh = -(s32)f32_exp_bias - vr_exp + f32_exp_size + 32;
             vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
+            vp_man = (u32)((vr_man << lz) >> sh);
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = (u32)((vr_man << lz << 1) >> (64 - f32_mant_size));
         }
     }
 
-- 
2.43.0


From 529ade13a81df611b9c772f1a4776426e600da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 21/92] fix: relate subnormal variable length float exponents
 to the leading one

---
 src/asn1.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 0bf8b02..cdb41a6 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1430,10 +1430,9 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            size_t sh = f64_exp_size + 1 - f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 64 ? (vr_man << lz) >> sh : 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1532,10 +1531,9 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            size_t sh = f64_exp_size + 1 - f64_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
+            vp_man = sh < 64 ? (vr_man << lz) >> sh : 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1595,7 +1593,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1702,7 +1700,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1897,10 +1895,9 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = -(s32)f32_exp_bias - vr_exp + f32_exp_size + 32;
+            size_t sh = f32_exp_size + 33 - (s32)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)((vr_man << lz) >> sh);
+            vp_man = sh < 64 ? (u32)((vr_man << lz) >> sh) : 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -1999,10 +1996,9 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = -(s32)f32_exp_bias - vr_exp + f32_exp_size + 32;
+            size_t sh = f32_exp_size + 33 - (s32)f32_exp_bias - vr_exp;
             vp_exp = 0;
-            vp_man = (u32)((vr_man << lz) >> sh);
+            vp_man = sh < 64 ? (u32)((vr_man << lz) >> sh) : 0;
         } else {
             /* normal - if no exponent, mantissa is a fraction in the range
              * +/-0.9900.. with a unary prefix containing the exponent. */
@@ -2062,7 +2058,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -2169,7 +2165,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
-- 
2.43.0


From 7a85492cd9ad6da0b5da0144c42093df6b9ffd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 22/92] fix: read variable length floats beyond the range as
 infinity

---
 src/asn1.cc | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index cdb41a6..b2f75ea 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1427,7 +1427,12 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
     /* out-of-line little-endian exponent and mantissa */
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
+        if (vr_exp > (s64)f64_exp_bias) {
+            /* exponent outside of the range of the type */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
+        }
+        else if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             size_t sh = f64_exp_size + 1 - f64_exp_bias - vr_exp;
@@ -1528,7 +1533,12 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
     /* out-of-line little-endian exponent and mantissa */
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
+        if (vr_exp > (s64)f64_exp_bias) {
+            /* exponent outside of the range of the type */
+            vp_exp = f64_exp_mask;
+            vp_man = 0;
+        }
+        else if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             size_t sh = f64_exp_size + 1 - f64_exp_bias - vr_exp;
@@ -1892,7 +1902,12 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     /* out-of-line little-endian exponent and mantissa */
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
+        if (vr_exp > (s32)f32_exp_bias) {
+            /* exponent outside of the range of the type */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
+        }
+        else if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             size_t sh = f32_exp_size + 33 - (s32)f32_exp_bias - vr_exp;
@@ -1993,7 +2008,12 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     /* out-of-line little-endian exponent and mantissa */
     else {
         size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
+        if (vr_exp > (s32)f32_exp_bias) {
+            /* exponent outside of the range of the type */
+            vp_exp = f32_exp_mask;
+            vp_man = 0;
+        }
+        else if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
             size_t sh = f32_exp_size + 33 - (s32)f32_exp_bias - vr_exp;
-- 
2.43.0


From c04ef2f1ff62554533ec0d934b978412e8463b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 23/92] fix: reject variable length floats with a reserved
 header or no leading one

---
 src/asn1.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index b2f75ea..2d66289 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1392,6 +1392,13 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
         if (vf_man && crefl_le_ber_integer_u64_read(buf, vf_man, &vr_man) < 0) {
             goto err;
         }
+        /* no mantissa is a power of two, otherwise it has a leading one */
+        if (vf_man == 0 && vf_exp > 0) {
+            vr_man = 1;
+        }
+        if (vr_man == 0) {
+            goto err;
+        }
     }
 
     /* inline exponent and mantissa using float7 */
@@ -1498,6 +1505,13 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
             if (r.error < 0) return f64_result { 0, r.error };
             vr_man = r.value;
         }
+        /* no mantissa is a power of two, otherwise it has a leading one */
+        if (vf_man == 0 && vf_exp > 0) {
+            vr_man = 1;
+        }
+        if (vr_man == 0) {
+            return f64_result { 0, -1 };
+        }
     }
 
     /* inline exponent and mantissa using float7 */
@@ -1867,6 +1881,13 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
             if (r.error < 0) goto err;
             vr_man = r.value;
         }
+        /* no mantissa is a power of two, otherwise it has a leading one */
+        if (vf_man == 0 && vf_exp > 0) {
+            vr_man = 1;
+        }
+        if (vr_man == 0) {
+            goto err;
+        }
     }
 
     /* inline exponent and mantissa using float7 */
@@ -1973,6 +1994,13 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
             if (r.error < 0) return f32_result { 0, (s32)r.error };
             vr_man = r.value;
         }
+        /* no mantissa is a power of two, otherwise it has a leading one */
+        if (vf_man == 0 && vf_exp > 0) {
+            vr_man = 1;
+        }
+        if (vr_man == 0) {
+            return f32_result { 0, -1 };
+        }
     }
 
     /* inline exponent and mantissa using float7 */
-- 
2.43.0


From a2e99906de5fc957d09ee6464e30d997103e647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 24/92] fix: omit the mantissa of subnormal powers of two too

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2d66289..8c83738 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1619,7 +1619,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -1726,7 +1726,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2108,7 +2108,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
@@ -2215,7 +2215,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
             vw_man = d.frac >> tz;
             vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
-            vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
+            vf_man = vw_man == 1 ? 0 : (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
         }
         else if (d.frac == 0) {
-- 
2.43.0


From e500760f894ff778d039eba1d95b2f6830acf00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 25/92] fix: allocate whole bitmap words for small hash maps

---
 include/crefl/hashmap.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..028b351 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -185,6 +185,7 @@ struct hashmap
     enum bitmap_state {
         available = 0, occupied = 1, deleted = 2, recycled = 3
     };
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline size_t bitmap_idx(size_t i) { return i >> 5; }
     static inline size_t bitmap_shift(size_t i) { return ((i << 1) & 63); }
     static inline bitmap_state bitmap_get(uint64_t *bitmap, size_t i)
@@ -209,7 +210,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +239,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From 139a4caa5d4caa7411ec3766b1d1f8537e9014c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 26/92] fix: begin hash map iteration at the first occupied
 slot

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 028b351..62a2b12 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 39d33432e749448c3a9511ad193eabee7fd241f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 27/92] fix: look for the key behind hash map tombstones before
 reusing one

---
 include/crefl/hashmap.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 62a2b12..99a9b6b 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,9 +250,14 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        size_t tomb = limit;
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                /* reusable, but the key may still follow */
+                if (tomb == limit) tomb = i;
+            } else if (state == available) {
+                if (tomb != limit) state = bitmap_get(bitmap, i = tomb);
                 bitmap_set(bitmap, i, occupied);
                 data[i] = data_type{v.first, v.second};
                 used++;
@@ -279,9 +284,14 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        size_t tomb = limit;
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
-            if ((state & occupied) != occupied) {
+            if (state == deleted) {
+                /* reusable, but the key may still follow */
+                if (tomb == limit) tomb = i;
+            } else if (state == available) {
+                if (tomb != limit) state = bitmap_get(bitmap, i = tomb);
                 bitmap_set(bitmap, i, occupied);
                 data[i].first = key;
                 used++;
-- 
2.43.0


From 5fec2f8a7be7eaa8859952797e109648743d7341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 28/92] fix: make hash map assignment release its storage and
 survive self-assignment

---
 include/crefl/hashmap.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 99a9b6b..0ae40f3 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -123,16 +123,15 @@ struct hashmap
         memcpy(data, o.data, total_size);
     }
 
-    inline hashmap(hashmap &&o) :
-        used(o.used), tombs(o.tombs), limit(o.limit),
-        data(o.data), bitmap(o.bitmap)
+    inline hashmap(hashmap &&o) : hashmap()
     {
-        o.data = nullptr;
-        o.bitmap = nullptr;
+        swap(o);
     }
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,18 +151,23 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
-        data = o.data;
-        bitmap = o.bitmap;
-        used = o.used;
-        tombs = o.tombs;
-        limit = o.limit;
-
-        o.data = nullptr;
-        o.bitmap = nullptr;
+        if (this != &o) {
+            hashmap t(std::move(o));
+            swap(t);
+        }
 
         return *this;
     }
 
+    inline void swap(hashmap &o)
+    {
+        std::swap(used, o.used);
+        std::swap(tombs, o.tombs);
+        std::swap(limit, o.limit);
+        std::swap(data, o.data);
+        std::swap(bitmap, o.bitmap);
+    }
+
     /*
      * member functions
      */
-- 
2.43.0


From 46dcb48de1e8ee045b8f5e36b31c77936ed2435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 29/92] fix: count no bits in zero

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..f648e2f 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
-- 
2.43.0


From 51bf40e8170c97e601939082898a7d77fecc75ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 30/92] fix: count bits of unsigned values in C

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index f648e2f..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From 0dcb6b390acc58a8f72ef21130c12a6a3c3e5356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 31/92] fix: do not shift by the width of the type when
 dropping a leading one

---
 src/asn1.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8c83738..0b1d86c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1411,7 +1411,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1450,7 +1450,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = (u64)vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1524,7 +1524,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1563,7 +1563,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = (u64)vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1900,7 +1900,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -2013,7 +2013,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
-- 
2.43.0


From 1c4c7d57fce26bf09f593c782e8bc4f97f956f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 32/92] fix: print the last digit of object identifiers in
 asn1tool

---
 tool/asn1tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..4edbfe5 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -23,7 +23,7 @@ static std::string oid_str(const char *data, size_t sz)
 
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
-    s.resize(len+1);
+    s.resize(++len);
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From 8222d61d341f8be12b40abfd38e6e1180f2bd563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 33/92] fix: keep asn1tool within the contents of each element

---
 tool/asn1tool.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 4edbfe5..9b6e3be 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -57,6 +57,9 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
 
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+
     indent = std::string(depth, ' ');
     indent += indent;
     undent = std::string(15-depth, ' ');
@@ -71,12 +74,13 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        limit = current + hdr._length;
+        offset = current;
+        while (offset < limit) {
+            int ret = read_asn1(buf, offset, limit, depth+1);
             if (ret < 0) return ret;
             offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+        }
         break;
     case asn1_tag_object_identifier:
         current = crefl_buf_offset(buf);
-- 
2.43.0


From 5fca6583eb9c6e068b145f569b85f1dcb02c2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 34/92] fix: let asn1tool survive deeply nested elements

---
 tool/asn1tool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 9b6e3be..14f908f 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -46,12 +46,17 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+/* deepest nesting read_asn1 follows, to bound the recursion */
+enum { max_depth = 1024 };
+
 static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
     size_t current;
 
+    if (depth > max_depth) goto err;
+
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
@@ -62,7 +67,7 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
     printf("[%5zu;%-5llu]%s|-%c%-20s",
-- 
2.43.0


From 745229a647100f254ed04f342242bf19b14c6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 35/92] fix: do not show tags of other classes as universal
 ones in asn1tool

---
 tool/asn1tool.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 14f908f..0b59ace 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -46,6 +46,18 @@ static std::string hex_str(const uint8_t *data, size_t sz)
 
 extern const char* asn1_tag_names[];
 
+static std::string tag_str(asn1_id id)
+{
+    static const char *class_names[] = {
+        "universal", "application", "context", "private"
+    };
+    if (id._class == asn1_class_universal) {
+        return asn1_tag_name(id._identifier);
+    }
+    return string_printf("%s [%llu]", class_names[id._class],
+        (unsigned long long)id._identifier);
+}
+
 /* deepest nesting read_asn1 follows, to bound the recursion */
 enum { max_depth = 1024 };
 
@@ -73,9 +85,11 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     printf("[%5zu;%-5llu]%s|-%c%-20s",
         crefl_buf_offset(buf), hdr._length,
         indent.c_str(), hdr._id._constructed ? '*' : ' ',
-        asn1_tag_name(hdr._id._identifier));
+        tag_str(hdr._id).c_str());
 
-    switch(hdr._id._identifier) {
+    /* only universal tags tell how to interpret the contents */
+    switch(hdr._id._class == asn1_class_universal ?
+           hdr._id._identifier : asn1_tag_reserved) {
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-- 
2.43.0


From 2df0f005313d96ee04812f9f4c80c36416a1fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 36/92] fix: make asn1tool report errors in its exit status

---
 tool/asn1tool.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 0b59ace..ffb4843 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -136,15 +136,19 @@ err:
     return -1;
 }
 
-static void dump_asn1(const char *filename)
+static int dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) return -1;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     if (read_asn1(buf, 0, v.size(), 0) < 0) {
         fprintf(stderr, "error: recurse_asn1 returned an error\n");
+        crefl_buf_destroy(buf);
+        return -1;
     }
+    crefl_buf_destroy(buf);
+    return fflush(stdout) == 0 && !ferror(stdout) ? 0 : -1;
 }
 
 int main(int argc, const char **argv)
@@ -154,8 +158,7 @@ int main(int argc, const char **argv)
     if (strcmp(argv[1], "--dump") == 0);
     else goto help_exit;
 
-    dump_asn1(argv[2]);
-    exit(0);
+    exit(dump_asn1(argv[2]) < 0 ? 1 : 0);
 
 help_exit:
     fprintf(stderr, "usage: %s [--dump] <filename.refl>\n", argv[0]);
-- 
2.43.0


From 23da365eced2684414a6adaececb3147de733c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 37/92] fix: reject databases whose tables exceed the input

---
 src/db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..e56c4b9 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -70,6 +70,12 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     size_t name_sz = hdr->name_table_size;
     size_t root_idx = hdr->root_element;
 
+    /* check that the tables are contained in the input */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: input too short\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From d369457cb9a148bbf73e813e142e39e71f273a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 38/92] fix: reject databases whose last name is not terminated

---
 src/db.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index e56c4b9..c037cc0 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -76,6 +76,12 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return -1;
     }
 
+    /* check that the last name is terminated */
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != 0) {
+        fprintf(stderr, "crefl: *** error: unterminated name\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From 9b0c66d23f21855320af29d8d5434977d23be007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 39/92] fix: keep the last character of 255 and 256 character
 strings

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..8131e18 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 4c327773699fe2e88a3c414e9c71b55b47803587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 40/92] fix: report errors flushing written files

---
 include/crefl/util.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 8131e18..8898cec 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -114,7 +114,10 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    if (fclose(f) != 0) {
+        fprintf(stderr, "fclose: %s\n", strerror(errno));
+        return -1;
+    }
 
     return buf.size() == len ? 0 : -1;
 }
-- 
2.43.0


From efe882df4e923c883f250c26ff43c0aa3d22de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 41/92] fix: close the file when its size cannot be determined

---
 include/crefl/util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 8898cec..8547506 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
-- 
2.43.0


From 8fa28fd1cfe9750983ec29404dca5b74be1ef242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 42/92] fix: report unreadable inputs in the exit status of
 crefltool

---
 tool/crefltool.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..97c2f1c 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,13 +27,22 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static decl_db * read_db(const char *input)
+{
+    decl_db *db = crefl_db_new();
+    if (crefl_db_read_file(db, input) != 0) {
+        fprintf(stderr, "error: reading %s\n", input);
+        exit(1);
+    }
+    return db;
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
-        db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        db_in[i] = read_db(input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
@@ -54,8 +63,7 @@ void do_emit(const char *output, const char *input, const char *name)
     size_t sz;
     const size_t w = 16;
 
-    db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    db = read_db(input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -81,8 +89,7 @@ void do_emit(const char *output, const char *input, const char *name)
 
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
-    decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    decl_db *db = read_db(input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -90,8 +97,7 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 
 void do_stats(const char *input)
 {
-    decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    decl_db *db = read_db(input);
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 36daf4515db890ae1e9071bfe81f59429ca7372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:08 +0000
Subject: [PATCH 43/92] fix: report incompletely written outputs in the exit
 status of crefltool

---
 tool/crefltool.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 97c2f1c..9f4a5a5 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -48,7 +48,10 @@ void do_merge(const char *output, const char **input, size_t n)
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) != 0) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
@@ -81,8 +84,11 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    bool failed = ferror(f);
+    if (fclose(f) != 0 || failed) {
+        fprintf(stderr, "error: writing %s\n", output);
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
@@ -167,6 +173,10 @@ int main(int argc, const char **argv)
         case _merge: do_merge(argv[2], argv + 3, argc - 3); break;
         case _emit: do_emit(argv[2], argv[3], "main"); break;
     }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "error: writing output\n");
+        exit(1);
+    }
     exit(0);
 
 help_exit:
-- 
2.43.0


From 2f58f26edfa478bb1665741fe9e8e8a756c39b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 44/92] fix: absorb all attributes of a declaration into its
 hash

---
 src/link.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..84dfc59 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -122,10 +122,13 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        crefl_hash_absorb(sum, attr_delimeter);
-        hash = crefl_node_hash(index, next, d, prefix);
-        crefl_hash_absorb(sum, hash_delimeter);
-        crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        while (crefl_decl_idx(next)) {
+            crefl_hash_absorb(sum, attr_delimeter);
+            hash = crefl_node_hash(index, next, d, prefix);
+            crefl_hash_absorb(sum, hash_delimeter);
+            crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+            next = crefl_decl_next(next);
+        }
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
-- 
2.43.0


From 2257e0f6f73a5cf361ff5011857e3fb58cda0996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 45/92] fix: keep all attributes of a declaration when merging

---
 src/link.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 84dfc59..0d2afa6 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -389,8 +389,14 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
 
     if (node->_attr) {
         next = crefl_lookup(d.db, node->_attr);
-        c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        while (crefl_decl_idx(next)) {
+            c = crefl_copy_node(state, next, d);
+            if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+            else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+            last = c;
+            next = crefl_decl_next(next);
+        }
+        last = decl_ref { db, 0 };
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
-- 
2.43.0


From 7711e03b8345edc559bdc715437c1b5ee3cd66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 46/92] fix: link types to the merged declaration and not to
 its aliases

---
 src/link.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index 0d2afa6..0eef972 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -383,7 +383,6 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         r = crefl_decl_new(db, _decl_alias);
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_link = crefl_decl_idx(a);
-        (*state->map)[*hash] = r;
         return r;
     }
 
-- 
2.43.0


From 49d97dbaa5dedab341c78228d1ab77446dac51a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 47/92] fix: copy intrinsics that are not built in when merging

---
 src/link.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/link.cc b/src/link.cc
index 0eef972..77d69ee 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -359,7 +359,8 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
     decl_ref next, r, c, a, last = { db, 0 };
 
     /* always return direct references to intrinsics */
-    if (crefl_decl_tag(d) == _decl_intrinsic) {
+    if (crefl_decl_tag(d) == _decl_intrinsic &&
+        crefl_decl_idx(d) < d.db->decl_builtin) {
         return decl_ref {db, crefl_decl_idx(d) };
     }
 
-- 
2.43.0


From b2814abefd671166797194dff5843b3985304929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 48/92] fix: link declarations to the first of their attributes

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From fc834a50b939e5be21359d2161ab4b951017c900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 49/92] fix: limit alignment to 128 bits and not to 512 bits

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..55d5795 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,7 +248,7 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const size_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
-- 
2.43.0


From eb39a6b9cd503f7623e45d5fea99f4cafbd8eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 50/92] fix: pad booleans to one byte

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 55d5795..e6e9b2b 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -253,7 +253,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From eda94931607d974a614874479fbc2cdf8997ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 51/92] fix: align complex types like their parts

---
 src/model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index e6e9b2b..dfd188c 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -255,8 +255,10 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     if ((props & _decl_pad_byte)) {
         n = 3;
     }
-    else if ((props & _decl_pad_pow2)) {
+    else if ((props & _decl_pad_pow2) && width > 0) {
         n = 63 - clz(width);
+        /* complex types are aligned like their parts */
+        if ((props & _decl_complex)) n--;
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From 24b025a7e5d9e331e88cfa2aea2141df0ac07e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 52/92] fix: give enums, typedefs, qualified types and aliases
 their width

---
 src/model.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index dfd188c..afd1fb8 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -287,6 +287,12 @@ static _alignment _pointer_pad(decl_ref d)
         _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
 }
 
+static _alignment _enum_pad(decl_ref d)
+{
+    return crefl_is_enum(d) || crefl_is_set(d) ?
+        _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2) : _alignment { 0 };
+}
+
 static _alignment _array_pad(decl_ref d)
 {
     size_t qty = 1;
@@ -349,6 +355,11 @@ static _alignment _type_pad(decl_ref d)
 {
     switch (crefl_decl_tag(d)) {
     case _decl_intrinsic: return _intrinsic_pad(d);
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
+    case _decl_set:
+    case _decl_enum: return _enum_pad(d);
     case _decl_struct: return _struct_pad(d);
     case _decl_union: return _union_pad(d);
     case _decl_field: return _field_pad(d);
-- 
2.43.0


From 91942adb7bacfe52b5b13bf1a4b527618d939418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 53/92] fix: pad unions to their alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index afd1fb8..1c62bc6 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -348,7 +348,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From 0f61a8a1f6d967402c3b431f76eb29909602b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 54/92] fix: lay out bit-fields in units of their type

---
 src/model.cc | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 1c62bc6..e16e291 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -311,6 +311,33 @@ static _alignment _array_pad(decl_ref d)
     return pad;
 }
 
+/*
+ * place a field behind offset and return its own offset. bit-fields share
+ * units of their type, zero width ones only align the next field to a unit
+ * and unnamed ones do not take part in the alignment of the structure.
+ */
+static size_t _field_place(decl_ref d, _alignment *max, size_t *offset)
+{
+    _alignment pad = _type_pad(crefl_field_type(d));
+    bool bitfield = (crefl_decl_props(d) & _decl_bitfield);
+    size_t width = bitfield ? crefl_decl_qty(d) : pad.size;
+    size_t start = *offset;
+
+    if (!bitfield || width == 0 ||
+        start + width > (start & ~((1llu<<pad.align)-1llu)) + pad.size) {
+        start = _align(start, pad.align);
+    }
+    if (!bitfield || crefl_decl_has_name(d)) {
+        if (pad.align > max->align) max->align = pad.align;
+    } else if (max->align < 3) {
+        max->align = 3; /* structures are sequences of whole bytes */
+    }
+    if (width > max->size) max->size = width;
+    *offset = start + width;
+
+    return start;
+}
+
 static _alignment _struct_pad(decl_ref d)
 {
     _alignment max = { 0 };
@@ -321,10 +348,7 @@ static _alignment _struct_pad(decl_ref d)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align) + pad.size;
+            _field_place(d, &max, &offset);
         }
         d = crefl_decl_next(d);
     }
@@ -341,9 +365,8 @@ static _alignment _union_pad(decl_ref d)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
+            size_t offset = 0;
+            _field_place(d, &max, &offset);
         }
         d = crefl_decl_next(d);
     }
@@ -379,15 +402,11 @@ int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d))  {
         if (crefl_is_field(d)) {
-            _alignment pad = _type_pad(crefl_field_type(d));
-            if (pad.align > max.align) max.align = pad.align;
-            if (pad.size > max.size) max.size = pad.size;
-            offset = _align(offset, pad.align);
+            size_t start = _field_place(d, &max, &offset);
             if (count < limit) {
                 if (r) r[count] = d;
-                if (o) o[count] = offset;
+                if (o) o[count] = start;
             }
-            offset += pad.size;
             ++count;
         }
         d = crefl_decl_next(d);
-- 
2.43.0


From 6474d850a6b4b5654c85759a83f322c3569f3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 55/92] fix: give aliases the hash of the declaration they
 refer to

---
 src/link.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 77d69ee..20ed5cc 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -225,15 +225,26 @@ decl_hash * crefl_node_hash(decl_index *index, decl_ref d, decl_ref p, std::stri
     decl_entry_ref er = crefl_entry_ref(index, d);
     decl_entry *ent = crefl_entry_ptr(er);
 
+    std::string parent_prefix = prefix;
     prefix = crefl_node_name(d, p, prefix);
 
     if ((ent->props & decl_entry_valid) != decl_entry_valid) {
         decl_sum sum;
         ent->props |= decl_entry_marked;
-        crefl_hash_init(&sum);
-        crefl_hash_node_sum(&sum, index, d, p, prefix);
-        ent = crefl_entry_ptr(er); /* revalidate due to realloc */
-        crefl_hash_final(&sum, &ent->hash);
+        decl_ref l = crefl_decl_link(d);
+        if (crefl_is_alias(d) && crefl_decl_idx(l) &&
+            (!crefl_entry_is_marked(crefl_entry_ref(index, l)) ||
+              crefl_entry_is_valid(crefl_entry_ref(index, l)))) {
+            /* an alias is the declaration it refers to with its own next */
+            decl_hash hash = *crefl_node_hash(index, l, p, parent_prefix);
+            ent = crefl_entry_ptr(er); /* revalidate due to realloc */
+            ent->hash = hash;
+        } else {
+            crefl_hash_init(&sum);
+            crefl_hash_node_sum(&sum, index, d, p, prefix);
+            ent = crefl_entry_ptr(er); /* revalidate due to realloc */
+            crefl_hash_final(&sum, &ent->hash);
+        }
         ent->fqn = crefl_entry_name_new(index, prefix.c_str());
         ent->props |= decl_entry_valid;
     }
@@ -372,7 +383,7 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         crefl_decl_ptr(r)->_name = crefl_name_new(db, crefl_decl_name(d));
         crefl_decl_ptr(r)->_props = crefl_decl_props(d);
         crefl_decl_ptr(r)->_quantity = crefl_decl_qty(d);
-        (*state->map)[*hash] = r;
+        if (!_should_copy(d)) (*state->map)[*hash] = r;
     } else {
         /* return node directly if it is a child link */
         if (_is_child) return decl_ref { db, i->second.decl_idx };
-- 
2.43.0


From 17712cf51887825c2edb815cc2b2ca40ae13dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 56/92] fix: record the members that hold anonymous structs and
 unions

---
 src/reflect.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..f3e283f 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -429,6 +429,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return props;
     }
 
+    bool TraverseDecl(Decl *d)
+    {
+        /* the member that holds an anonymous struct or union is implicit */
+        FieldDecl *fd = dyn_cast_or_null<FieldDecl>(d);
+        if (fd && fd->isAnonymousStructOrUnion()) return VisitFieldDecl(fd);
+
+        return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
+    }
+
     bool VisitPragmaCommentDecl(PragmaCommentDecl *d)
     {
         /* PragmaCommentDecl -> Decl */
-- 
2.43.0


From 5c311e5f3111454ae30065ac4be774637edaf181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 57/92] fix: do not record (or crash on) declarations inside
 function bodies

---
 src/reflect.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index f3e283f..7b1e35a 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -438,6 +438,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return RecursiveASTVisitor<ReflectVisitor>::TraverseDecl(d);
     }
 
+    bool TraverseStmt(Stmt *s)
+    {
+        /* function bodies and initializers contain no file scope decls */
+        return true;
+    }
+
     bool VisitPragmaCommentDecl(PragmaCommentDecl *d)
     {
         /* PragmaCommentDecl -> Decl */
-- 
2.43.0


From 2fad4b490434cca5564198d81ccf01537e5fa3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 58/92] fix: accept enums that are declared without being
 defined

---
 src/reflect.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 7b1e35a..ab75e16 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -513,13 +513,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumNegativeBits(),
             d->getNumPositiveBits());
 
+        /* enums that are only declared have no integer type yet */
         const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
+        unsigned width = q.isNull() ? 0 : context.getTypeInfo(q).Width;
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
         crefl_decl_ptr(r)->_attr = create_attributes(d, r);
-        crefl_decl_ptr(r)->_width = t.Width;
+        crefl_decl_ptr(r)->_width = width;
 
         stack.push_back(r);
         last = decl_ref { db, 0 };
-- 
2.43.0


From 22a2e2e5cc16b65bcf6860b80dc7eea32e8057e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 59/92] fix: resolve references to structs, unions and enums
 defined later

---
 src/reflect.cc | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index ab75e16..1a7b3ba 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,35 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    decl_ref get_named_node(const NamedDecl *d, decl_tag tag)
+    {
+        /* nodes that have been referred to already exist */
+        decl_id &id = idmap[d->Decl::getID()];
+        if (id) return decl_ref { db, id };
+
+        /* create node */
+        decl_ref r = crefl_decl_new(db, tag);
+        crefl_decl_ptr(r)->_name = crefl_name_new(db,
+            d->NamedDecl::getNameAsString().c_str());
+
+        /* record clang -> crefl id */
+        id = crefl_decl_idx(r);
+
+        return r;
+    }
+
+    decl_ref get_tag_node(const TagDecl *d, decl_tag tag)
+    {
+        /* only file scope decls are recorded, possibly after this reference,
+         * others are treated like types that have not been defined */
+        if (d->isImplicit() || d->isInvalidDecl() ||
+            d->getParentFunctionOrMethod()) {
+            return crefl_intrinsic(db, _decl_void, 0);
+        }
+
+        return get_named_node(d, tag);
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -267,17 +296,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_tag_node(ed, _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_node(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_tag_node(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,13 +411,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
-        crefl_decl_ptr(r)->_name = crefl_name_new(db,
-            d->NamedDecl::getNameAsString().c_str());
-
-        /* record clang -> crefl id */
-        idmap[d->Decl::getID()] = crefl_decl_idx(r);
+        /* create node, or find it if it has been referred to */
+        decl_ref r = get_named_node(d, tag);
 
         /* find parent id */
         const auto& parents = context.getParents(*d);
-- 
2.43.0


From 036bd787657f2d7ceb8c0cba561cf74d400283d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 60/92] fix: record qualifiers that come from typedefs, once
 for arrays

---
 src/reflect.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a7b3ba..b3b56b1 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -274,9 +274,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_union = q->isUnionType();
         bool _is_struct = q->isStructureOrClassType();
         bool _is_enum = q->isEnumeralType();
-        bool _is_const = (q.getLocalFastQualifiers() & Qualifiers::Const);
-        bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
-        bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
+
+        /* including typedef qualifiers, array qualifiers are on the element */
+        const Qualifiers quals = _is_array ? Qualifiers() : q.getQualifiers();
+        bool _is_const = quals.hasConst();
+        bool _is_restrict = quals.hasRestrict();
+        bool _is_volatile = quals.hasVolatile();
 
         if (!_is_array && q->isIncompleteType()) return tr;
 
-- 
2.43.0


From 0d81dff058c529935ae535b238166f881d0d1f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 61/92] fix: keep the qualifiers of pointers to void and to
 incomplete types

---
 src/reflect.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index b3b56b1..59abf69 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -281,11 +281,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = quals.hasRestrict();
         bool _is_volatile = quals.hasVolatile();
 
-        if (!_is_array && q->isIncompleteType()) return tr;
+        /* incomplete types are void, they have no size but may be qualified */
+        bool _is_incomplete = !_is_array && q->isIncompleteType();
+        TypeInfo t = _is_incomplete ? TypeInfo() : context.getTypeInfo(q);
 
-        TypeInfo t = context.getTypeInfo(q);
-
-        if (_is_pointer) {
+        if (_is_incomplete) {
+            tr = crefl_intrinsic(db, _decl_void, 0);
+        }
+        else if (_is_pointer) {
             const QualType pq = q->getPointeeType();
             decl_ref ti = get_intrinsic_type(pq);
 
-- 
2.43.0


From 2b8eced5030c9306492a9ac6181ec2ca34a651ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 62/92] fix: describe atomic types by the type of the value
 they hold

---
 src/reflect.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 59abf69..dea4b86 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -262,8 +262,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return get_named_node(d, tag);
     }
 
-    decl_ref get_intrinsic_type(const QualType q)
+    decl_ref get_intrinsic_type(QualType q)
     {
+        /* there is no atomic type, describe the value that it holds */
+        if (const AtomicType *at = q->getAs<AtomicType>()) {
+            q = context.getQualifiedType(at->getValueType(), q.getQualifiers());
+        }
+
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
 
         bool _is_scalar = q->isScalarType();
-- 
2.43.0


From 4a60b20bad3f022ca66290014b4d7d3b533fe2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 63/92] fix: plug-in reports a failure to write its output

---
 src/reflect.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index dea4b86..40bb57b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -782,8 +782,10 @@ void ReflectAction::EndSourceFileAction()
     if (dump) {
         crefl_db_dump(db);
     }
-    if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+    if (outputFile.size() && crefl_db_write_file(db, outputFile.c_str()) < 0) {
+        /* diagnostics are ignored so the compiler would report success */
+        fprintf(stderr, "error: unable to write file: %s\n", outputFile.c_str());
+        exit(1);
     }
     crefl_db_destroy(db);
 
-- 
2.43.0


From b57b573a2ef17a6cd7482b31775ff39e95cc0b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:32 +0000
Subject: [PATCH 64/92] fix: do not store types and attributes through stale
 declarations

The plug-in is compiled as C++14 (llvm-config flags), where the left operand
of an assignment may be evaluated first, so that attributes of declarations
at the end of the allocation were stored in the memory that growing it had
released.
---
 src/reflect.cc | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 40bb57b..dc1d36d 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -526,8 +526,10 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create typedef */
         decl_ref r = create_named_node(d, _decl_typedef);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_ref ti = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -554,7 +556,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create enum */
         decl_ref r = create_named_node(d, _decl_enum);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
         crefl_decl_ptr(r)->_width = width;
 
         stack.push_back(r);
@@ -580,9 +583,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create constant */
         decl_ref r = create_named_node(d, _decl_constant);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref ti = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
         crefl_decl_ptr(r)->_value = value;
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -620,7 +625,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
             /* create struct */
             decl_ref r = create_named_node(d, tag);
-            crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+            decl_id attr = create_attributes(d, r);
+            crefl_decl_ptr(r)->_attr = attr;
 
             stack.push_back(r);
             last = decl_ref { db, 0 };
@@ -649,10 +655,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref ti = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
         crefl_decl_ptr(r)->_width = width;
         crefl_decl_ptr(r)->_props |= (-(int)d->isBitField() & _decl_bitfield);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
@@ -671,7 +679,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create function */
         decl_ref r = create_named_node(d, _decl_function);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isGlobal() & _decl_global) |
             (-(int)d->isExternC() & _decl_extern_c) |
@@ -686,7 +695,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* create return param */
         decl_ref pr = crefl_decl_new(db, _decl_param);
         crefl_decl_ptr(last)->_link = crefl_decl_idx(pr);
-        crefl_decl_ptr(pr)->_link = crefl_decl_idx(get_intrinsic_type(qr));
+        decl_ref ti = get_intrinsic_type(qr);
+        crefl_decl_ptr(pr)->_link = crefl_decl_idx(ti);
         crefl_decl_ptr(pr)->_props |= _decl_out;
 
         /* create argument params */
@@ -699,7 +709,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             crefl_decl_ptr(ar)->_name = crefl_name_new(db,
                 parm->NamedDecl::getNameAsString().c_str());
             crefl_decl_ptr(pr)->_next = crefl_decl_idx(ar);
-            crefl_decl_ptr(ar)->_link = crefl_decl_idx(get_intrinsic_type(q));
+            decl_ref ti = get_intrinsic_type(q);
+            crefl_decl_ptr(ar)->_link = crefl_decl_idx(ti);
             pr = ar;
         }
 
@@ -723,11 +734,13 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         decl_ref r = create_named_node(d, _decl_field);
         const QualType q = d->getTypeSourceInfo()->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
-        crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
+        decl_ref ti = get_intrinsic_type(q);
+        crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
         crefl_decl_ptr(r)->_props |=
             (-(int)d->isExternC() & _decl_extern_c) |
             (-(int)is_static & _decl_static);
-        crefl_decl_ptr(r)->_attr = create_attributes(d, r);
+        decl_id attr = create_attributes(d, r);
+        crefl_decl_ptr(r)->_attr = attr;
 
         last = r;
 
-- 
2.43.0


From d96a87f558944e9ec29303e5aa4c119c3c31ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 65/92] fix: place empty structures and unions at whole bytes

---
 src/model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index e16e291..1cca1bf 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -353,6 +353,9 @@ static _alignment _struct_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
+    /* empty structures are placed at whole bytes */
+    if (max.align == 0 && offset == 0) max.align = 3;
+
     return _alignment { max.align, _align(offset, max.align) };
 }
 
@@ -371,6 +374,9 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
+    /* empty unions are placed at whole bytes */
+    if (max.align == 0 && max.size == 0) max.align = 3;
+
     return _alignment { max.align, _align(max.size, max.align) };
 }
 
-- 
2.43.0


From 763cf38ce84377bc826bcdff12eb5081d926e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 66/92] fix: dump rows of aliases to declarations outside of
 the index

---
 src/dump.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..cb02ffc 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -218,7 +218,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
 {
     decl_id tag = crefl_decl_tag(r);
     decl_entry_ref er = crefl_entry_ref(ld, r);
-    decl_entry *ent = crefl_entry_ptr(er);
+    decl_hash hash = crefl_entry_ptr(er)->hash; /* entries may be realloced */
     decl_node *d = crefl_decl_ptr(r);
 
     std::string fqn;
@@ -257,7 +257,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
     return crefl_db_row {
         crefl_decl_idx(r), d->_attr, d->_next, d->_link, crefl_tag_name(tag),
         crefl_decl_has_name(r) ? crefl_decl_name(r) : "(anonymous)", props,
-        _link(r), _hex_str(ent->hash.sum, sizeof(ent->hash.sum)), fqn
+        _link(r), _hex_str(hash.sum, sizeof(hash.sum)), fqn
     };
 }
 
-- 
2.43.0


From 2d8e4cb9696a51b8d122f111bfa56092a731f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 67/92] fix: reject tag numbers and subidentifiers padded with
 leading zeros

---
 src/asn1.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 0b1d86c..b526366 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -110,6 +110,10 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         if (crefl_buf_read_i8(buf, &b) != 1) {
             goto err;
         }
+        /* the first octet holds the leading bits, they are not all zero */
+        if (w == 0 && (uint8_t)b == 0x80) {
+            goto err;
+        }
         l <<= 7;
         l |= (uint8_t)b & 0x7f;
         w += 7;
-- 
2.43.0


From b6411600ff5dca27220a69c148f62623669a5ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 68/92] fix: attach declarations in linkage specifications to
 their source

---
 src/reflect.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index dc1d36d..ffe8d9b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -420,16 +420,24 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return tr;
     }
 
+    const Decl* get_parent(const Decl *d)
+    {
+        /* linkage specifications are not recorded */
+        do {
+            const auto& parents = context.getParents(*d);
+            d = parents.size() > 0 ? parents[0].get<Decl>() : nullptr;
+        } while (d && isa<LinkageSpecDecl>(d));
+        return d;
+    }
+
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
         /* create node, or find it if it has been referred to */
         decl_ref r = get_named_node(d, tag);
 
         /* find parent id */
-        const auto& parents = context.getParents(*d);
-        decl_ref p = {
-            db, parents.size() > 0 ? idmap[parents[0].get<Decl>()->getID()] : 0
-        };
+        const Decl *parent = get_parent(d);
+        decl_ref p = { db, parent ? idmap[parent->getID()] : 0 };
 
         /* pop until parent matches */
         while (stack.size() > 0 && stack.back().decl_idx != p.decl_idx) {
-- 
2.43.0


From 201b5515455b3dda9aa40b8f740372209640dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 69/92] fix: fail when a source or one of its includes cannot
 be read

---
 src/reflect.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index ffe8d9b..2b7af70 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -789,6 +789,13 @@ void ReflectAction::EndSourceFileAction()
     auto &context = ci.getASTContext();
     auto &input = getCurrentInput();
 
+    if (ci.getDiagnostics().hasFatalErrorOccurred()) {
+        /* diagnostics are ignored so the compiler would report success */
+        fprintf(stderr, "error: unable to read file or one of its includes: %s\n",
+            input.getFile().str().c_str());
+        exit(1);
+    }
+
     decl_db *db = crefl_db_new();
     crefl_db_defaults(db);
     ReflectVisitor v(context, db, input.getFile().str(), debug);
-- 
2.43.0


From 6945305e332eda7f581f398cd137a341f2db4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 70/92] fix: quote arguments in the commands shown by creflcc

---
 scripts/creflcc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/creflcc.py b/scripts/creflcc.py
index e6df620..1a5390c 100755
--- a/scripts/creflcc.py
+++ b/scripts/creflcc.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import os
+import shlex
 import platform
 import argparse
 import subprocess
@@ -52,7 +53,7 @@ def crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin):
 def format_cmd(cmd):
     str = ""
     lines = []
-    for comp in cmd:
+    for comp in map(shlex.quote, cmd):
         if len(str + comp) > 72:
             lines.append(str)
             str = ""
-- 
2.43.0


From 17284e0547d2c4aeb381dc921d75de521cbb2334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 71/92] fix: decode first subidentifiers of several octets

---
 scripts/parse_oids.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/parse_oids.py b/scripts/parse_oids.py
index 8104032..b4bf85e 100755
--- a/scripts/parse_oids.py
+++ b/scripts/parse_oids.py
@@ -13,16 +13,16 @@ def parse_oid(v):
     return list(map(lambda x: int(x, 16), h))
 
 def decode_oid(l):
-    c, i, r = 0, 0, []
+    c, r = 0, []
     for v in l:
         c = (c << 7) + (v & 0x7f)
         if v < 128:
-            if i == 0:
-                r += [ int(c/40), int(c%40) ]
+            if not r:
+                x = min(c // 40, 2)
+                r += [ x, c - x * 40 ]
             else:
                 r += [ c ]
             c = 0
-        i += 1
     return r
 
 def join_oid_str(l):
-- 
2.43.0


From 5ad791b2dac99fae5cdbb4d95c25ad4f70f7a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 72/92] fix: capture groups of strict numbers

---
 scripts/ISO-6093-NR3.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ISO-6093-NR3.pl b/scripts/ISO-6093-NR3.pl
index 8f7b93a..7a357bf 100755
--- a/scripts/ISO-6093-NR3.pl
+++ b/scripts/ISO-6093-NR3.pl
@@ -50,7 +50,7 @@ if ($ARGV[0] eq 'relaxed') {
     }
 }
 elsif ($ARGV[0] eq 'strict') {
-    if (my ($int, undef, undef, $frac, undef, $exp) =
+    if (my ($int, undef, $frac, undef, undef, $exp) =
             ($ARGV[1] =~ m{
                 ^
                    ( ([1-9][0-9]*) | 0 )               # integer
-- 
2.43.0


From c647846300f08c942ef56ffaa971eb44401beef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:16 +0000
Subject: [PATCH 73/92] fix: truncated numbers and pointer names in the printer

---
 samples/example3_printer/printer.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/samples/example3_printer/printer.c b/samples/example3_printer/printer.c
index b451933..0b22643 100644
--- a/samples/example3_printer/printer.c
+++ b/samples/example3_printer/printer.c
@@ -84,15 +84,13 @@ static void _print_array(decl_ref r, void *ptr, size_t offset, size_t depth)
 
 static void _print_pointer(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
-    snprintf(buf, sizeof(buf), "(%s) 0x%016llx", crefl_decl_name(r),
+    printf("(%s) 0x%016llx", crefl_decl_name(r),
         *(u64*)ptr_offset(ptr, offset));
-    printf("%s", buf);
 }
 
 static void _print_intrinsic(decl_ref r, void *ptr, size_t offset, size_t depth)
 {
-    char buf[128];
+    char buf[512];
     _type_fmt fmt = _find_intrinsic_format(r);
     fmt.fn(buf, sizeof(buf), ptr_offset(ptr, offset));
     printf("%s", buf);
-- 
2.43.0


From 4690db1f37defc4fc13005dd11052b6c9363de3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:10 +0000
Subject: [PATCH 74/92] fix: merge the reflection of several files given to
 creflcc

---
 scripts/creflcc.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scripts/creflcc.py b/scripts/creflcc.py
index 1a5390c..f9cf35c 100755
--- a/scripts/creflcc.py
+++ b/scripts/creflcc.py
@@ -62,12 +62,28 @@ def format_cmd(cmd):
         lines.append(str)
     return " \\\n    ".join(lines)
 
+def crefl_merge_cmd(parts, output, plugin):
+    return [ '%s/crefltool' % (plugin), '--merge', output ] + parts
+
 def crefl_meta(sources, output, includes, is_cpp, is_debug, plugin, no_exec):
-    cmd = crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin)
+    # the plugin writes one file per source, so several need to be merged
+    parts = [ output ]
+    if len(sources) > 1:
+        parts = [ '%s.%d' % (output, i) for i in range(len(sources)) ]
+    cmds = [ crefl_meta_cmd([ source ], part, includes, is_cpp, is_debug, plugin)
+             for source, part in zip(sources, parts) ]
+    if len(sources) > 1:
+        cmds += [ crefl_merge_cmd(parts, output, plugin) ]
     if no_exec:
-        print(format_cmd(cmd))
-    else:
-        return subprocess.run(cmd, check=True)
+        print("\n".join(map(format_cmd, cmds)))
+        return
+    try:
+        for cmd in cmds:
+            subprocess.run(cmd, check=True)
+    finally:
+        for part in parts:
+            if part != output and os.path.exists(part):
+                os.remove(part)
 
 parser = argparse.ArgumentParser(description='invoke crefl clang plugin')
 parser.add_argument('-n', '--no-exec', default=False, action='store_true',
-- 
2.43.0


From 1d8ada6887d85913da082e4e803fc779fb95b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:23 +0000
Subject: [PATCH 75/92] fix: several include directories of a reflected target

---
 cmake/crefl_macro.cmake | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 21df225..625419c 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -9,9 +9,11 @@
 macro(crefl_target_reflect target target_lib)
 
 	# transform includes for this target
-    get_target_property(${target}_includes ${target} INCLUDE_DIRECTORIES)
-    list(TRANSFORM ${target}_includes PREPEND "-I")
-    list(JOIN ${target}_includes " " ${target}_include_args)
+    get_target_property(${target}_include_args ${target} INCLUDE_DIRECTORIES)
+    if (NOT ${target}_include_args)
+        set(${target}_include_args "")
+    endif()
+    list(TRANSFORM ${target}_include_args PREPEND "-I")
 
     # add custom commands that reflect on sources for this target
     get_target_property(${target}_sources ${target} SOURCES)
-- 
2.43.0


From a5159c9440b2c96ac0c6b07ad06429beafc51030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 76/92] fix: missing directories of reflected sources in builds
 with make

---
 cmake/crefl_macro.cmake | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 625419c..78425a7 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -20,6 +20,8 @@ macro(crefl_target_reflect target target_lib)
     set(_source_refl "")
     foreach(_source ${${target}_sources})
         list(APPEND _source_refl ${_source}.refl)
+        get_filename_component(_source_dir ${CMAKE_BINARY_DIR}/${_source} DIRECTORY)
+        file(MAKE_DIRECTORY ${_source_dir})
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-- 
2.43.0


From 87adee8d854e2a7ab8d7fa1c62775e2836662bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:50 +0000
Subject: [PATCH 77/92] fix: reflect on sources again when their headers or the
 script change

---
 cmake/crefl_macro.cmake | 10 ++++++++--
 scripts/creflcc.py      | 14 ++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmake/crefl_macro.cmake b/cmake/crefl_macro.cmake
index 78425a7..03e1a46 100644
--- a/cmake/crefl_macro.cmake
+++ b/cmake/crefl_macro.cmake
@@ -22,12 +22,18 @@ macro(crefl_target_reflect target target_lib)
         list(APPEND _source_refl ${_source}.refl)
         get_filename_component(_source_dir ${CMAKE_BINARY_DIR}/${_source} DIRECTORY)
         file(MAKE_DIRECTORY ${_source_dir})
+        # headers are known to generators with support for dependency files
+        set(_source_depfile "")
+        if (CMAKE_GENERATOR MATCHES "Ninja" OR NOT CMAKE_VERSION VERSION_LESS 3.20)
+            set(_source_depfile DEPFILE ${CMAKE_BINARY_DIR}/${_source}.refl.d)
+        endif()
         add_custom_command(
             OUTPUT ${_source}.refl
             COMMAND ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py -p ${CMAKE_BINARY_DIR}
-                -o ${CMAKE_BINARY_DIR}/${_source}.refl ${${target}_include_args}
+                -M ${_source}.refl.d -o ${_source}.refl ${${target}_include_args}
                    ${CMAKE_CURRENT_SOURCE_DIR}/${_source}
-            DEPENDS ${_source} crefl VERBATIM)
+            DEPENDS ${_source} crefl ${CMAKE_CURRENT_SOURCE_DIR}/scripts/creflcc.py
+            ${_source_depfile} VERBATIM)
 	endforeach()
     list(TRANSFORM _source_refl PREPEND "${CMAKE_BINARY_DIR}/")
 
diff --git a/scripts/creflcc.py b/scripts/creflcc.py
index f9cf35c..de16cc0 100755
--- a/scripts/creflcc.py
+++ b/scripts/creflcc.py
@@ -38,11 +38,13 @@ def xclang_cmd(is_cpp, plugin):
     cmd += xclang_args(['-load', xclang_plugin(plugin, 'crefl'), '-plugin', 'crefl'])
     return cmd
 
-def crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin):
+def crefl_meta_cmd(sources, output, includes, is_cpp, is_debug, plugin, depfile=None):
     cmd = xclang_cmd(is_cpp, plugin)
     if includes:
         for include in includes:
             cmd += ['-I%s' % (include)]
+    if depfile:
+        cmd += ['-MD', '-MF', depfile, '-MQ', output]
     if is_debug:
         cmd += xplugin_arg('-debug')
     cmd += xplugin_arg('-o')
@@ -65,12 +67,12 @@ def format_cmd(cmd):
 def crefl_merge_cmd(parts, output, plugin):
     return [ '%s/crefltool' % (plugin), '--merge', output ] + parts
 
-def crefl_meta(sources, output, includes, is_cpp, is_debug, plugin, no_exec):
+def crefl_meta(sources, output, includes, is_cpp, is_debug, plugin, no_exec, depfile=None):
     # the plugin writes one file per source, so several need to be merged
     parts = [ output ]
     if len(sources) > 1:
         parts = [ '%s.%d' % (output, i) for i in range(len(sources)) ]
-    cmds = [ crefl_meta_cmd([ source ], part, includes, is_cpp, is_debug, plugin)
+    cmds = [ crefl_meta_cmd([ source ], part, includes, is_cpp, is_debug, plugin, depfile)
              for source, part in zip(sources, parts) ]
     if len(sources) > 1:
         cmds += [ crefl_merge_cmd(parts, output, plugin) ]
@@ -98,11 +100,15 @@ parser.add_argument('-p', '--plugin', action='store', default='build',
                     help='directory containing plugin')
 parser.add_argument('-d', '--debug', default=False, action='store_true',
                     help='enable crefl debug output')
+parser.add_argument('-M', '--depfile', action='store',
+                    help='write dependencies of the output')
 parser.add_argument('files', nargs='*',
                     help='files to be processed')
 args = parser.parse_args()
 
 if len(args.files) == 0:
     parser.error("no input files")
+if len(args.files) > 1 and args.depfile:
+    parser.error("dependencies of one file only")
 
-crefl_meta(args.files, args.output, args.include, args.cpp, args.debug, args.plugin, args.no_exec)
+crefl_meta(args.files, args.output, args.include, args.cpp, args.debug, args.plugin, args.no_exec, args.depfile)
-- 
2.43.0


From a448319a8f0eb7be8fd4119b43b0a50f71e35748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 78/92] fix: notice includes that cannot be read

---
 src/reflect.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 2b7af70..5d9d176 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -37,17 +37,33 @@
 
 using namespace clang;
 
+class ReflectDiagConsumer : public DiagnosticConsumer
+{
+public:
+    bool fatal = false;
+
+    void HandleDiagnostic(DiagnosticsEngine::Level level,
+                          const Diagnostic &info) override {
+        /* errors are ignored except for includes that can not be read */
+        if (level == DiagnosticsEngine::Fatal &&
+            info.getID() != diag::fatal_too_many_errors) {
+            fatal = true;
+        }
+    }
+};
+
 class ReflectAction : public PluginASTAction
 {
 public:
     std::string outputFile;
     bool debug, dump;
+    ReflectDiagConsumer *diags;
 
-    ReflectAction() : outputFile(), debug(false), dump(false) {}
+    ReflectAction() : outputFile(), debug(false), dump(false), diags(nullptr) {}
 
     std::unique_ptr<ASTConsumer> CreateASTConsumer
         (CompilerInstance &ci, llvm::StringRef) override {
-        ci.getDiagnostics().setClient(new IgnoringDiagConsumer());
+        ci.getDiagnostics().setClient(diags = new ReflectDiagConsumer());
         return std::make_unique<ASTConsumer>();
     }
 
@@ -789,7 +805,7 @@ void ReflectAction::EndSourceFileAction()
     auto &context = ci.getASTContext();
     auto &input = getCurrentInput();
 
-    if (ci.getDiagnostics().hasFatalErrorOccurred()) {
+    if (diags->fatal) {
         /* diagnostics are ignored so the compiler would report success */
         fprintf(stderr, "error: unable to read file or one of its includes: %s\n",
             input.getFile().str().c_str());
-- 
2.43.0


From 8468d9408e08562684069f44732f50ad159b5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 79/92] fix: leave templates out instead of crashing on
 dependent types

---
 src/reflect.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 5d9d176..f526ba5 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -303,7 +303,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_volatile = quals.hasVolatile();
 
         /* incomplete types are void, they have no size but may be qualified */
-        bool _is_incomplete = !_is_array && q->isIncompleteType();
+        bool _is_incomplete = (!_is_array && q->isIncompleteType()) ||
+            q->isDependentType();
         TypeInfo t = _is_incomplete ? TypeInfo() : context.getTypeInfo(q);
 
         if (_is_incomplete) {
@@ -490,6 +491,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     bool TraverseDecl(Decl *d)
     {
+        /* templates are not recorded, they have no size or values */
+        if (d && d->isTemplated()) return true;
+
         /* the member that holds an anonymous struct or union is implicit */
         FieldDecl *fd = dyn_cast_or_null<FieldDecl>(d);
         if (fd && fd->isAnonymousStructOrUnion()) return VisitFieldDecl(fd);
-- 
2.43.0


From 7475d81bcd71a4a5d8e1d970ae365a4496cfff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 80/92] fix: record C++ classes like structs

---
 src/reflect.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index f526ba5..8a88220 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -327,7 +327,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             tr = get_tag_node(ed, _decl_enum);
         }
         else if (_is_struct) {
-            const RecordType *rt = q->getAsStructureType();
+            const RecordType *rt = q->getAs<RecordType>();
             const RecordDecl *rd = rt->getDecl();
             tr = get_tag_node(rd, _decl_struct);
         }
@@ -638,14 +638,15 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         switch (k) {
         case TagTypeKind::TTK_Enum:
-        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Interface:
             break;
 
+        case TagTypeKind::TTK_Class:
         case TagTypeKind::TTK_Struct:
         case TagTypeKind::TTK_Union:
 
             switch (k) {
+            case TagTypeKind::TTK_Class:
             case TagTypeKind::TTK_Struct: tag = _decl_struct; break;
             case TagTypeKind::TTK_Union:  tag = _decl_union;  break;
             default:                      tag = _decl_none;   break;
-- 
2.43.0


From 19acc686686e4f9477a941956d02c7755c5ccb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 81/92] fix: keep declarations in namespaces in the list of
 their source

---
 src/reflect.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 8a88220..048ef61 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -439,11 +439,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     const Decl* get_parent(const Decl *d)
     {
-        /* linkage specifications are not recorded */
+        /* linkage specifications and namespaces are not recorded */
         do {
             const auto& parents = context.getParents(*d);
             d = parents.size() > 0 ? parents[0].get<Decl>() : nullptr;
-        } while (d && isa<LinkageSpecDecl>(d));
+        } while (d && (isa<LinkageSpecDecl>(d) || isa<NamespaceDecl>(d)));
         return d;
     }
 
-- 
2.43.0


From c95e0521ff09f828c117578553daf9b6a7b5a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 82/92] fix: record variables of deduced types with the type
 deduced

---
 src/reflect.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 048ef61..8c9a753 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -304,7 +304,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* incomplete types are void, they have no size but may be qualified */
         bool _is_incomplete = (!_is_array && q->isIncompleteType()) ||
-            q->isDependentType();
+            q->isUndeducedType() || q->isDependentType();
         TypeInfo t = _is_incomplete ? TypeInfo() : context.getTypeInfo(q);
 
         if (_is_incomplete) {
@@ -761,7 +761,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        const QualType q = d->getTypeSourceInfo()->getType();
+        QualType q = d->getTypeSourceInfo()->getType();
+        if (q->isUndeducedType()) q = d->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         decl_ref ti = get_intrinsic_type(q);
         crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
-- 
2.43.0


From ef25fa5dac8c03c3961bfb3bb71ef0ce35a180f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 83/92] fix: keep the members that follow a friend declaration

---
 src/reflect.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 8c9a753..e4f8056 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -494,6 +494,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* templates are not recorded, they have no size or values */
         if (d && d->isTemplated()) return true;
 
+        /* friends are declared elsewhere */
+        if (d && isa<FriendDecl>(d)) return true;
+
         /* the member that holds an anonymous struct or union is implicit */
         FieldDecl *fd = dyn_cast_or_null<FieldDecl>(d);
         if (fd && fd->isAnonymousStructOrUnion()) return VisitFieldDecl(fd);
-- 
2.43.0


From 5d7423c6c97af4a478a74e4ee1ce42ff56404c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 84/92] fix: fail when the options of the plug-in are wrong

---
 src/reflect.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index e4f8056..1225543 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -789,7 +789,7 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
         if (argv[i] == "-o") {
             if (++i == argc) {
                 fprintf(stderr, "error: -o requires parameter\n");
-                exit(0);
+                exit(1);
             }
             outputFile = argv[i++];
         } else if (argv[i] == "-debug") {
@@ -798,12 +798,12 @@ bool ReflectAction::ParseArgs(const CompilerInstance &ci,
             ++i; dump = true;
         } else {
             fprintf(stderr, "error: unknown option: %s\n", argv[i].c_str());
-            exit(0);
+            exit(1);
         }
     }
     if (!dump && !debug && !outputFile.size()) {
         fprintf(stderr, "error: missing args: -dump, -debug, -o <outputFile>\n");
-        exit(0);
+        exit(1);
     }
     return true;
 }
-- 
2.43.0


From 096246a19b0841861a0e08d1db67b7ac5a00fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:34 +0000
Subject: [PATCH 85/92] fix: fail when the dump of the plug-in cannot be
 written

---
 src/reflect.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1225543..0e3ef9a 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -834,6 +834,10 @@ void ReflectAction::EndSourceFileAction()
     v.TraverseDecl(context.getTranslationUnitDecl());
     if (dump) {
         crefl_db_dump(db);
+        if (fflush(stdout) != 0 || ferror(stdout)) {
+            fprintf(stderr, "error: unable to write dump\n");
+            exit(1);
+        }
     }
     if (outputFile.size() && crefl_db_write_file(db, outputFile.c_str()) < 0) {
         /* diagnostics are ignored so the compiler would report success */
-- 
2.43.0


From f115c3fcf32488780ceb432caccceb9ceeb5a980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:55 +0000
Subject: [PATCH 86/92] fix: static data members take no space in their
 structure

---
 src/model.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 1cca1bf..4f314b7 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -311,6 +311,12 @@ static _alignment _array_pad(decl_ref d)
     return pad;
 }
 
+/* static data members are not part of the objects of their class */
+static bool _is_placed(decl_ref d)
+{
+    return crefl_is_field(d) && !(crefl_decl_props(d) & _decl_static);
+}
+
 /*
  * place a field behind offset and return its own offset. bit-fields share
  * units of their type, zero width ones only align the next field to a unit
@@ -347,7 +353,7 @@ static _alignment _struct_pad(decl_ref d)
 
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
-        if (crefl_is_field(d)) {
+        if (_is_placed(d)) {
             _field_place(d, &max, &offset);
         }
         d = crefl_decl_next(d);
@@ -367,7 +373,7 @@ static _alignment _union_pad(decl_ref d)
 
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d)) {
-        if (crefl_is_field(d)) {
+        if (_is_placed(d)) {
             size_t offset = 0;
             _field_place(d, &max, &offset);
         }
@@ -407,7 +413,7 @@ int crefl_struct_fields_offsets(decl_ref d, decl_ref *r, size_t *o, size_t *s)
 
     d = crefl_decl_link(d);
     while (crefl_decl_idx(d))  {
-        if (crefl_is_field(d)) {
+        if (_is_placed(d)) {
             size_t start = _field_place(d, &max, &offset);
             if (count < limit) {
                 if (r) r[count] = d;
-- 
2.43.0


From 7453cabe28a7cb9e98c59aca0c8c3b9bf5739589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 87/92] fix: members of structures with errors are not recorded
 elsewhere

---
 src/reflect.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 0e3ef9a..5219098 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -266,11 +266,21 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* tags with errors are not recorded, and neither is what is inside them */
+    bool has_invalid_tag(const Decl *d)
+    {
+        while (d && isa<TagDecl>(d)) {
+            if (d->isInvalidDecl()) return true;
+            d = dyn_cast_or_null<Decl>(d->getLexicalDeclContext());
+        }
+        return false;
+    }
+
     decl_ref get_tag_node(const TagDecl *d, decl_tag tag)
     {
         /* only file scope decls are recorded, possibly after this reference,
          * others are treated like types that have not been defined */
-        if (d->isImplicit() || d->isInvalidDecl() ||
+        if (d->isImplicit() || has_invalid_tag(d) ||
             d->getParentFunctionOrMethod()) {
             return crefl_intrinsic(db, _decl_void, 0);
         }
@@ -497,6 +507,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* friends are declared elsewhere */
         if (d && isa<FriendDecl>(d)) return true;
 
+        if (d && isa<TagDecl>(d) && d->isInvalidDecl()) return true;
+
         /* the member that holds an anonymous struct or union is implicit */
         FieldDecl *fd = dyn_cast_or_null<FieldDecl>(d);
         if (fd && fd->isAnonymousStructOrUnion()) return VisitFieldDecl(fd);
-- 
2.43.0


From 7ad361b804725960d0640861fe90373792a3e83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 88/92] fix: notice unreadable includes after many other errors

---
 src/reflect.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 5219098..a912141 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -45,10 +45,7 @@ public:
     void HandleDiagnostic(DiagnosticsEngine::Level level,
                           const Diagnostic &info) override {
         /* errors are ignored except for includes that can not be read */
-        if (level == DiagnosticsEngine::Fatal &&
-            info.getID() != diag::fatal_too_many_errors) {
-            fatal = true;
-        }
+        if (level == DiagnosticsEngine::Fatal) fatal = true;
     }
 };
 
@@ -64,6 +61,8 @@ public:
     std::unique_ptr<ASTConsumer> CreateASTConsumer
         (CompilerInstance &ci, llvm::StringRef) override {
         ci.getDiagnostics().setClient(diags = new ReflectDiagConsumer());
+        /* after too many errors templates and includes would be left out */
+        ci.getDiagnostics().setErrorLimit(0);
         return std::make_unique<ASTConsumer>();
     }
 
-- 
2.43.0


From 216933e237dd7fbd7fbbacd753b95267df5d8b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:21 +0000
Subject: [PATCH 89/92] fix: do not ask the compiler for the size of arrays
 with errors

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index a912141..c9362a3 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -314,7 +314,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         /* incomplete types are void, they have no size but may be qualified */
         bool _is_incomplete = (!_is_array && q->isIncompleteType()) ||
             q->isUndeducedType() || q->isDependentType();
-        TypeInfo t = _is_incomplete ? TypeInfo() : context.getTypeInfo(q);
+        /* nor have arrays of them, which are errors that may be found here */
+        TypeInfo t = _is_incomplete || _is_array ? TypeInfo() : context.getTypeInfo(q);
 
         if (_is_incomplete) {
             tr = crefl_intrinsic(db, _decl_void, 0);
-- 
2.43.0


From 60f1ea2380b9ad8698625595585ea83e9ebbd4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:12 +0000
Subject: [PATCH 90/92] fix: alignments with errors crashed the plug-in

---
 src/reflect.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index c9362a3..7a00fb6 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -236,6 +236,9 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 last = create_attribute_string(last, "alias", aliasee.c_str());
             }
             else if (isa<AlignedAttr>(*at)) {
+                /* alignments with errors have no value */
+                if (cast<AlignedAttr>(*at).isAlignmentDependent() ||
+                    cast<AlignedAttr>(*at).isAlignmentErrorDependent()) continue;
                 unsigned align = cast<AlignedAttr>(*at).getAlignment(context);
                 last = create_attribute_value(last, "aligned", align);
             }
-- 
2.43.0


From b83d7e07dc143ea73d8dc41b0f0a6aaa58b91e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:16 +0000
Subject: [PATCH 91/92] fix: thread-local static data members are static
 members

---
 src/reflect.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 7a00fb6..922c3d0 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -781,7 +781,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         decl_ref r = create_named_node(d, _decl_field);
         QualType q = d->getTypeSourceInfo()->getType();
         if (q->isUndeducedType()) q = d->getType();
-        bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
+        bool is_static = d->isStaticDataMember() ||
+            d->getStorageDuration() == StorageDuration::SD_Static;
         decl_ref ti = get_intrinsic_type(q);
         crefl_decl_ptr(r)->_link = crefl_decl_idx(ti);
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 4cee87eb404dc00cfed0b80c0880147777812af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:21 +0000
Subject: [PATCH 92/92] fix: rows dumped on their own use no index or one that
 is gone

---
 src/dump.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index cb02ffc..6742b8c 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -290,7 +290,17 @@ static void _row(const crefl_field ** fields, decl_db *db, decl_ref r)
 
 void crefl_db_header_names() { _header_names(fields); }
 void crefl_db_header_lines() { _header_lines(fields); }
-void crefl_db_dump_row(decl_db *db, decl_ref r) { _row(fields, db, r); }
+
+void crefl_db_dump_row(decl_db *db, decl_ref r)
+{
+    /* a row on its own needs an index of its own */
+    ld = crefl_index_new();
+    crefl_index_scan(ld, db);
+
+    _row(fields, db, r);
+
+    crefl_index_destroy(ld);
+}
 
 void crefl_db_dump(decl_db *db)
 {
@@ -300,7 +310,7 @@ void crefl_db_dump(decl_db *db)
     crefl_db_header_names();
     crefl_db_header_lines();
     for (size_t i = db->root_element; i < db->decl_offset; i++) {
-        crefl_db_dump_row(db, crefl_lookup(db, i));
+        _row(fields, db, crefl_lookup(db, i));
     }
     crefl_db_header_lines();
 
-- 
2.43.0

