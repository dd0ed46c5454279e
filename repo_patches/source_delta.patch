From 95d090a569711b4ebe3bb1e01eb9766d3501629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 01/12] fix: put HT, LF, FF and CR at their own codes in the
 character class table

---
 src/charstr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 8033007..748aac4 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -119,12 +119,12 @@ static const uint64_t char_class[256] = {
     CHARSTR_CONTROL,                                             /* '\005' */
     CHARSTR_CONTROL,                                             /* '\006' */
     CHARSTR_CONTROL,                                             /* '\007' */
-    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\010' */
     CHARSTR_CONTROL | CHARSTR_HT,                                /* '\t' */
+    CHARSTR_CONTROL | CHARSTR_LF,                                /* '\n' */
+    CHARSTR_CONTROL,                                             /* '\013' */
     CHARSTR_CONTROL | CHARSTR_FF,                                /* '\f' */
     CHARSTR_CONTROL | CHARSTR_CR,                                /* '\r' */
-    CHARSTR_CONTROL,                                             /* '\014' */
-    CHARSTR_CONTROL,                                             /* '\015' */
     CHARSTR_CONTROL,                                             /* '\016' */
     CHARSTR_CONTROL,                                             /* '\017' */
     CHARSTR_CONTROL,                                             /* '\020' */
-- 
2.43.0


From 4f5f42d74e1be2b1bdae3d395984cb3f43a3b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 02/12] fix: add the missing comma to the base64 decoding table

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index c93d3e2..eb07454 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -24,7 +24,7 @@ const int8_t base64_bitfield_decoding[256] = {
     -1,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14,
     15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, -1, -1, -1, -1, -1,
     -1, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
-    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1
+    41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
-- 
2.43.0


From 58d8a313847c8fb781807cf525f7dad6ea1ec69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 03/12] fix: reject overlong encodings when decoding UTF-8

---
 src/charstr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/charstr.c b/src/charstr.c
index 748aac4..5f5eefc 100644
--- a/src/charstr.c
+++ b/src/charstr.c
@@ -458,6 +458,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
                                           int *codepoint)
 {
     int cp;
+    int min_cp; /* a smaller value would be an overlong encoding */
     if (!s || s == end)
         return NULL;
     if (!(*s & 0x80))
@@ -465,14 +466,17 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
     else if (!(*s & 0x40))
         return NULL;
     else {
-        if (!(*s & 0x20))
+        if (!(*s & 0x20)) {
+            min_cp = 0x80;
             cp = *s++ & 0x1f;
-        else {
-            if (!(*s & 0x10))
+        } else {
+            if (!(*s & 0x10)) {
+                min_cp = 0x800;
                 cp = *s++ & 0x0f;
-            else {
+            } else {
                 if (*s & 0x08)
                     return NULL;
+                min_cp = 0x10000;
                 cp = *s++ & 0x07;
                 if (s == end || (*s & 0xc0) != 0x80)
                     return NULL;
@@ -485,7 +489,7 @@ const char *charstr_decode_utf8_codepoint(const char *s, const char *end,
         if (s == end || (*s & 0xc0) != 0x80)
             return NULL;
         cp = cp << 6 | *s++ & 0x3f;
-        if (!valid_unicode(cp))
+        if (cp < min_cp || !valid_unicode(cp))
             return NULL;
     }
     if (codepoint)
-- 
2.43.0


From b0509ea98f77eec238c9b54cf2ce6f554bccfab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 04/12] fix: include the last code point in the generated IDNA
 status sets

---
 src/gen_idna_table.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 8793f92..0b6a36e 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -43,12 +43,12 @@ static void generate_set(const char *status)
     for (int cp = 0; cp < N_CP; cp++)
         if (!strcmp(table[cp].status, status))
             max_on = cp;
-    int set_size = (max_on + 63) / 64;
+    int set_size = max_on / 64 + 1;
     printf("\n"
            "static const uint64_t set_%s[%d] = {",
            status, set_size);
     uint64_t *set = fscalloc(set_size, sizeof set[0]);
-    for (int cp = 0; cp < max_on; cp++)
+    for (int cp = 0; cp <= max_on; cp++)
         if (!strcmp(table[cp].status, status))
             set[cp / 64] |= (uint64_t) 1 << cp % 64;
     for (int i = 0; i < set_size - 1; i++) {
-- 
2.43.0


From f7c3a797e4bd073824bd053ac4edd95555791267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 05/12] fix: reject empty labels and trailing hyphens in every
 label, not only the last

---
 src/charstr_puny.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d73fee0..d751008 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -54,12 +54,10 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
                                          int nonascii[],
                                          size_t *nonascii_count)
 {
-    if (p == end)
+    if (p == end || *p == '.')
         return fail("label is empty");
     if (p[0] == '-')
         return fail("label begins with hyphen");
-    if (end[-1] == '-')
-        return fail("label ends with hyphen");
     bool first = true;
     size_t n, h = 0;
     *nonascii_count = 0;
@@ -79,6 +77,8 @@ static const char *punycode_encode_pass1(const char *p, const char *end,
         else record_nonascii(codepoint, nonascii, nonascii_count);
         first = false;
     }
+    if (p[-1] == '-')
+        return fail("label ends with hyphen");
     *pc_count = n;
     *ascii_count = h;
     return p;
-- 
2.43.0


From bbc729b41b629e4c80b62770925187b76749a20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 06/12] fix: fail instead of aborting when an ASCII label is
 too long

---
 src/charstr_puny.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index d751008..6be42f4 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -167,8 +167,11 @@ static const char *punycode_encode(const char *input, const char *end,
     }
     for (size_t i = 0; i < ascii_count; i++)
         o = emit(o, end_output, output_size, ascii[i]);
-    if (!nonascii_count)
+    if (!nonascii_count) {
+        if (*output_size > MAX_DNS_LABEL_LENGTH)
+            return fail("label too long");
         return next;
+    }
     if (ascii_count)
         o = emit(o, end_output, output_size, '-');
     o = punycode_encode_pass2(input, end, o, end_output, output_size,
-- 
2.43.0


From 8f018c0a89d889c95eb2b077b7266b2e8afd5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 07/12] fix: leave room for the terminator when decomposing a
 host name

---
 src/charstr_puny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/charstr_puny.c b/src/charstr_puny.c
index 6be42f4..38d585f 100644
--- a/src/charstr_puny.c
+++ b/src/charstr_puny.c
@@ -281,7 +281,7 @@ char *charstr_idna_encode(const char *hostname)
     size_t worklen = 3 * length; /* should be enough for decomposing */
     char *workarea = fsalloc(worklen + 1);
     char *workend = workarea + worklen;
-    workend = charstr_unicode_decompose(hostname, end, workarea, workend);
+    workend = charstr_unicode_decompose(hostname, end, workarea, workend + 1);
     if (!workend) {
         fsfree(workarea);
         return fail("failed to decompose");
-- 
2.43.0


From d7c909c1728127dc86d0a2a41d2f9bfe17a51515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 08/12] fix: report overflow when a decomposed Hangul syllable
 does not fit

---
 src/charstr_decompose.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/charstr_decompose.c b/src/charstr_decompose.c
index bbd8e5b..f3124f6 100644
--- a/src/charstr_decompose.c
+++ b/src/charstr_decompose.c
@@ -3,22 +3,26 @@
 #include "charstr.h"
 #include "fsdyn_version.h"
 
+enum {
+    S_BASE = 0xAC00,
+    L_BASE = 0x1100,
+    V_BASE = 0x1161,
+    T_BASE = 0x11A7,
+    L_COUNT = 19,
+    V_COUNT = 21,
+    T_COUNT = 28,
+    N_COUNT = V_COUNT * T_COUNT,
+    S_COUNT = L_COUNT * N_COUNT
+};
+
+static bool is_hangul_syllable(int codepoint)
+{
+    return codepoint >= S_BASE && codepoint < S_BASE + S_COUNT;
+}
+
 static char *decompose_hangul(int codepoint, char *s, const char *end)
 {
-    enum {
-        S_BASE = 0xAC00,
-        L_BASE = 0x1100,
-        V_BASE = 0x1161,
-        T_BASE = 0x11A7,
-        L_COUNT = 19,
-        V_COUNT = 21,
-        T_COUNT = 28,
-        N_COUNT = V_COUNT * T_COUNT,
-        S_COUNT = L_COUNT * N_COUNT
-    };
     int i = codepoint - S_BASE;
-    if (i < 0 || i >= S_COUNT)
-        return NULL;
     s = charstr_encode_utf8_codepoint(L_BASE + i / N_COUNT, s, end);
     s = charstr_encode_utf8_codepoint(V_BASE + i % N_COUNT / T_COUNT, s, end);
     if (i % T_COUNT)
@@ -31,9 +35,8 @@ static char *decompose_fully(int codepoint, char *s, const char *end)
     extern const int *_charstr_unicode_decomposition(int codepoint);
     const int *dp = _charstr_unicode_decomposition(codepoint);
     if (!dp) {
-        char *hangul_end = decompose_hangul(codepoint, s, end);
-        if (hangul_end)
-            return hangul_end;
+        if (is_hangul_syllable(codepoint))
+            return decompose_hangul(codepoint, s, end);
         return charstr_encode_utf8_codepoint(codepoint, s, end);
     }
     while (s && *dp)
-- 
2.43.0


From f0ec5878aa6395e1ea55846d6366b596b717ca99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 09/12] fix: make avl_tree_put() a no-op when the value is
 already stored at the key

---
 src/avltree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/avltree.c b/src/avltree.c
index c2c4489..fc8af3d 100644
--- a/src/avltree.c
+++ b/src/avltree.c
@@ -316,8 +316,10 @@ static int put(avl_tree_t *tree, avl_elem_t **ploc, avl_elem_t *element,
         return put_left(tree, ploc, element, premoved_element);
     if (cmp > 0)
         return put_right(tree, ploc, element, premoved_element);
-    if (loc == element)
+    if (loc->value == element->value) {
+        destroy_avl_element(element);
         return 0;
+    }
     element->parent = loc->parent;
     element->left = loc->left;
     element->right = loc->right;
-- 
2.43.0


From 25887cdb3cd2a33530501bcfb313ad3ad69d8705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:37 +0000
Subject: [PATCH 10/12] fix: do not allocate a too small block when fscalloc()
 arguments overflow

---
 src/fsalloc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fsalloc.c b/src/fsalloc.c
index 76bd6bf..9dadd85 100644
--- a/src/fsalloc.c
+++ b/src/fsalloc.c
@@ -1,3 +1,4 @@
+#include <stdint.h>
 #include <string.h>
 #include "fsalloc.h"
 #include "fsdyn_version.h"
@@ -69,7 +70,9 @@ void *fsrealloc(void *ptr, size_t size)
 
 void *fscalloc(size_t nmemb, size_t size)
 {
-    size *= nmemb;
+    if (size != 0 && nmemb > SIZE_MAX / size)
+        size = SIZE_MAX; /* no such block */
+    else size *= nmemb;
     void *obj = fsalloc(size);
     if (obj != NULL)
         memset(obj, 0, size);
-- 
2.43.0


From 277c1f95fd64f208663c27f4964b8a79517da1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 11/12] fix: category of unassigned code points before a
 single-code-point range

---
 src/categorize.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/categorize.py b/src/categorize.py
index dd3e684..3acee11 100755
--- a/src/categorize.py
+++ b/src/categorize.py
@@ -53,14 +53,8 @@ def emit_binary(ranges, indentation):
     I = indentation * "    "
     if length < 5:
         for start, end, category in ranges:
-            if end == start + 1:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
-%s    return UNICODE_CATEGORY_%s;
-""" % (I, end, I, category))
-            else:
-                sys.stdout.write(
-                    r"""%sif (codepoint < %d)
+            sys.stdout.write(
+                r"""%sif (codepoint < %d)
 %s    return codepoint >= %d ? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 """ % (I, end, I, start, category))
         return
@@ -70,15 +64,9 @@ def emit_binary(ranges, indentation):
         r"""%sif (codepoint < %d) {
 """ % (I, end))
     emit_binary(ranges[0:middle], indentation + 1)
-    if end == start + 1:
-        sys.stdout.write(
-            r"""%s    return UNICODE_CATEGORY_%s;
-%s}
-""" % (I, category, I))
-    else:
-        sys.stdout.write(
-                    r"""%s    return codepoint >= %d """
-                    r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
+    sys.stdout.write(
+                r"""%s    return codepoint >= %d """
+                r"""? UNICODE_CATEGORY_%s : UNICODE_CATEGORY_Cn;
 %s}
 """ % (I, start, category, I))
     emit_binary(ranges[middle + 1:], indentation)
-- 
2.43.0


From ac6079b1eedb4dd64de3a541392a88da75eb1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:20 +0000
Subject: [PATCH 12/12] fix: IDNA status ranges reaching the last code point
 were not emitted

---
 src/gen_idna_table.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/gen_idna_table.c b/src/gen_idna_table.c
index 0b6a36e..626a361 100644
--- a/src/gen_idna_table.c
+++ b/src/gen_idna_table.c
@@ -33,8 +33,12 @@ static void generate_test(const char *status)
         } else if (prev_cp < 0)
             prev_cp = cp;
     }
-    printf("    return false;\n"
-           "}\n");
+    if (prev_cp >= 0)
+        printf("    return codepoint >= %d;\n"
+               "}\n", prev_cp);
+    else
+        printf("    return false;\n"
+               "}\n");
 }
 
 static void generate_set(const char *status)
-- 
2.43.0

