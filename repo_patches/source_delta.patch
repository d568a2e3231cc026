From f71f8bd6768d287a4d6a6561f4411a4ef11c9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 01/14] fix: add the missing comma in the Base64 decoding table

The last two entries of a row were merged into a single -2, so DEL (0x7f)
was taken for whitespace and byte 0xff decoded as 'A'.
---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From ddff5603e5bc7351ddda0e390da9e2d1ec70776b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 02/14] fix: classify LF, FF and CR at their own character
 codes

The flags were attached to BS, LF and VT: form feed and carriage return
were not whitespace while backspace and vertical tab were.
---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..748aac4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From 054e15c65599bf24318d0ae71381d40c3277b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 03/14] fix: reject overlong UTF-8 encodings

The decoder accepted e.g. C0 80 for U+0000 although such sequences are
illegal UTF-8 (RFC 3629).
---
 src/charstr.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 748aac4..8f7114d 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -457,7 +457,7 @@ static bool valid_unicode(int codepoint)
 const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
-    int cp;
+    int cp, min;
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -465,14 +465,17 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        if (!(*s & 0x20)) {
+            min = 0x80;
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+        } else {
+            if (!(*s & 0x10)) {
+                min = 0x800;
                 cp = *s++ & 0x0f;
-            else {
+            } else {
                 if (*s & 0x08)
                     return NULL;
+                min = 0x10000;
                 cp = *s++ & 0x07;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
@@ -485,7 +488,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From c5799670340aefbcdcb9bb8c71d8eb8ac876790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 04/14] fix: reject an overlong ASCII label instead of aborting

A hostname with an all-ASCII label of over 63 characters and a non-ASCII
character elsewhere tripped the assertion in encode_filtered().
---
 src/charstr_puny.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..ed589e5 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,8 +167,11 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
+    if (!nonascii_count) {
+        if (*output_size > MAX_DNS_LABEL_LENGTH)
+            return fail("label too long");
         return next;
+    }
     if (ascii_count)
         o = emit(o, end_output, output_size, '-');
     o = punycode_encode_pass2(input, end, o, end_output, output_size,
-- 
2.43.0


From ef8348746f34c9c8b8e63fe627380dccc3dc607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 05/14] fix: let the IDNA encoder use all of its decomposition
 buffer

A hostname whose canonical decomposition is exactly three times its size
(e.g. U+1D160) was rejected because the byte reserved for the NUL
terminator was not passed on.
---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index ed589e5..114d6b4 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -281,7 +281,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From 708841fd85612779effbe3f6813b33621be60c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 06/14] fix: include the last codepoint in the generated IDNA
 sets

U+2FA1D was not reported as mapped and U+3134A not as valid.
---
 src/gen_idna_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..0b6a36e 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -43,12 +43,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From 701599fee79559e1ff4a17d6eea9dfb899523351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 07/14] fix: report overflow when a Hangul decomposition does
 not fit

If the precomposed syllable happened to fit in the remaining space, it was
emitted undecomposed and the call succeeded.
---
 src/charstr_decompose.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..2dc3e08 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -18,7 +18,7 @@ static char *decompose_hangul(int codepoint, char *s, const char *end)
     };
     int i = codepoint - S_BASE;
     if (i < 0 || i >= S_COUNT)
-        return NULL;
+        return charstr_encode_utf8_codepoint(codepoint, s, end);
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
@@ -30,12 +30,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
 {
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
-    if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
-        return charstr_encode_utf8_codepoint(codepoint, s, end);
-    }
+    if (!dp)
+        return decompose_hangul(codepoint, s, end);
     while (s && *dp)
         s = decompose_fully(*dp++, s, end);
     return s;
-- 
2.43.0


From 81fc369c454b6dfb9c31176d439e05bcf184064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 08/14] fix: do not let the fscalloc() size computation wrap
 around

An overflowing product yielded a block much smaller than requested.
---
 src/fsalloc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..387a80e 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,10 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (nmemb && size > SIZE_MAX / nmemb)
+        size = SIZE_MAX;        /* cannot be satisfied */
+    else
+        size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 016a15094ad98f91e91eabdc6b7439dee43e75e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 09/14] fix: make epoch_to_utc() work before 1970

A negative epoch produced negative time-of-day fields and the wrong date.
---
 src/date.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/date.c b/src/date.c
index 633b10b..45cc647 100644
--- a/src/date.c
+++ b/src/date.c
@@ -20,18 +20,28 @@ struct tm *epoch_to_utc(time_t epoch, struct tm *tm)
         _4_YEARS = 4 * YEAR + 1,
         FEBRUARY = 1            /* sic */
     };
+    int days = epoch / SECONDS_PER_DAY;
     tm->tm_sec = epoch % SECONDS_PER_DAY;
+    if (tm->tm_sec < 0) {
+        tm->tm_sec += SECONDS_PER_DAY;
+        days--;
+    }
     tm->tm_min = tm->tm_sec / 60;
     tm->tm_sec %= 60;
     tm->tm_hour = tm->tm_min / 60;
     tm->tm_min %= 60;
     tm->tm_yday = -1;           /* not supported */
     tm->tm_isdst = 0;
-    int days = epoch / SECONDS_PER_DAY;
     tm->tm_wday = (days + 4) % 7;
+    if (tm->tm_wday < 0)
+        tm->tm_wday += 7;
     days += FROM_1600_03_01;
     tm->tm_year = 1600 + days / _400_YEARS * 400 - 1900;
     days %= _400_YEARS;
+    if (days < 0) {
+        tm->tm_year -= 400;
+        days += _400_YEARS;
+    }
     int centuries = days / CENTURY;
     tm->tm_year += centuries * 100;
     if (centuries == 4) {
-- 
2.43.0


From d081d821e93d4dce521b6810d67b857a063b1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 10/14] fix: avl_tree_put() of a value already stored has no
 effect

The header promises that NULL is returned and the tree is not affected if
value itself is already stored at key (as hash_table_put() does). The test
for it compared against the freshly made element and never matched.
---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 01cacc6228b94d1b6584c2c74f3719879b548c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 11/14] fix: list the URL-safe punctuation the encoder really
 uses

---
 include/charstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/charstr.h b/include/charstr.h
index 9b37a76..0ba8865 100644
--- a/include/charstr.h
+++ b/include/charstr.h
@@ -254,7 +254,7 @@ char *charstr_unicode_recompose(const char *s, const char *end,
  *  * ASCII 32 (SPC) yields "+"
  *  * digits and letters yield themselves as a one-character string
  *  * these punctuation characters yield themselves as a one-character string:
- *    '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', ']', '~'
+ *    '"', '-', '.', '/', '<', '>', '\\', '^', '_', '`', '{', '|', '}', '~'
  *  * all other values yield the byte's percent encoding: "%XX" where X
  *    is an upper-case hexadecimal digit.
  */
-- 
2.43.0


From 03c9f874f426fd6851672f634ca9e95c1ca47916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:38 +0000
Subject: [PATCH 12/14] fix: report unassigned codepoints before a lone one as
 unassigned

An unassigned codepoint just below a single-codepoint category range
(U+0378, for example) was given the category of that range.
---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..017377a 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+        r"""%s    return codepoint >= %d """
+        r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From 071508e77a1f5a8b6054523f54b375e7b0309ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:38 +0000
Subject: [PATCH 13/14] fix: do not declare empty arrays for an empty IDNA
 label

A hostname of ignored codepoints only (U+00AD, for example) is mapped to
the empty string, and punycode_encode() then declared arrays of size zero,
which is undefined.
---
 src/charstr_puny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 114d6b4..0f4104f 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -191,6 +191,8 @@ static bool is_all_ascii(const char *s)
 
 static char *encode_filtered(const char *hostname, const char *end)
 {
+    if (hostname == end)        /* only ignored codepoints */
+        return fail("hostname is empty");
     if (end - hostname > MAX_DNS_NAME_LENGTH) /* encoding won't shorten it */
         return fail("hostname too long");
     const char *p = hostname;
-- 
2.43.0


From 184366dbc31d591c5538c3ec3ed494f55f57857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:23 +0000
Subject: [PATCH 14/14] fix: include the last range in the generated IDNA
 status tests

U+E01F0..U+10FFFF were not reported as disallowed.
---
 src/gen_idna_table.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 0b6a36e..2327abe 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,6 +33,9 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
+    if (prev_cp >= 0)
+        printf("    if (codepoint < %d) return codepoint >= %d;\n",
+               N_CP, prev_cp);
     printf("    return false;\n"
            "}\n");
 }
-- 
2.43.0

