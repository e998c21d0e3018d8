From 24660e96b3187438777acd42f9edb431f08998ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 01/26] fix: do not apply the default design's minimum size to
 an autodetected design when mending

With 'boxes -m' and no -d, the minimum size of the first configured design was
assigned to the detected one. If that size was smaller than the corners of the
detected design, vert_precalc() computed a negative height and never ended.
---
 src/boxes.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 90f046e..3126b9c 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -505,6 +505,7 @@ int main(int argc, char *argv[])
     int rc;                           /* general return code */
     int saved_designwidth;            /* opt.design->minwith backup, used for mending */
     int saved_designheight;           /* opt.design->minheight backup, used for mending */
+    design_t *saved_design;           /* the design which the two backups belong to */
 
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
@@ -539,14 +540,17 @@ int main(int argc, char *argv[])
     }
     saved_designwidth = opt.design->minwidth;
     saved_designheight = opt.design->minheight;
+    saved_design = opt.design;
 
     do {
         if (opt.mend == 1) {  /* Mending a box works in two phases: */
             opt.r = 0;        /* opt.mend == 2: remove box          */
         }
         --opt.mend;           /* opt.mend == 1: add it back         */
-        opt.design->minwidth = saved_designwidth;
-        opt.design->minheight = saved_designheight;
+        if (opt.design == saved_design) {   /* may be different if the design was autodetected in phase 1 */
+            opt.design->minwidth = saved_designwidth;
+            opt.design->minheight = saved_designheight;
+        }
 
         handle_input();
 
-- 
2.43.0


From bbf3f08be36847e336eab9f01bbbfb16e9ee3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 02/26] fix: notice read errors on a named input file

The error indicator was checked on stdin instead of the actual input stream.
---
 src/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input.c b/src/input.c
index 1442d6e..80d7730 100644
--- a/src/input.c
+++ b/src/input.c
@@ -263,7 +263,7 @@ input_t *read_all_input()
         ++result->num_lines;
     }
 
-    if (ferror(stdin)) {
+    if (ferror(opt.infile)) {
         perror(PROJECT);
         BFREE(result->lines);
         return NULL;
-- 
2.43.0


From ee679b546c3d870bd82fa0955fde05ead968493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:09 +0000
Subject: [PATCH 03/26] fix: do not write past the end of the shape buffer with
 a multi-byte -c design

The UTF-8 string given with -c was copied into a buffer that was sized for its
number of columns. Store the ASCII form instead, as for parsed designs.
---
 src/boxes.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 3126b9c..53c079a 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -122,7 +122,12 @@ static int build_design(design_t **adesigns, const char *cld)
     }
     bxs_free(dp->shape[W].mbcs[0]);
     dp->shape[W].mbcs[0] = cldW;
-    strcpy(dp->shape[W].chars[0], cld);
+    BFREE(dp->shape[W].chars[0]);
+    dp->shape[W].chars[0] = (char *) strdup(cldW->ascii);
+    if (dp->shape[W].chars[0] == NULL) {
+        perror(PROJECT);
+        return 1;
+    }
 
     for (i = 0; i < NUM_SHAPES; ++i) {
         c = dp->shape + i;
-- 
2.43.0


From 1572dcf32614d4dfafd5d65b61d08781f690fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 04/26] fix: fail with the diagnostic instead of crashing on
 control characters in the input or in -c

---
 src/boxes.c | 4 ++++
 src/input.c | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 53c079a..6fead47 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -111,6 +111,10 @@ static int build_design(design_t **adesigns, const char *cld)
     uint32_t *cld_u32 = u32_strconv_from_arg(cld, "UTF-8");
     bxstr_t *cldW = bxs_from_unicode(cld_u32);
     BFREE(cld_u32);
+    if (cldW == NULL) {
+        fprintf(stderr, "%s: invalid box design -- %s\n", PROJECT, cld);
+        return 1;
+    }
 
     dp->shape[W].name = W;
     dp->shape[W].height = 1;
diff --git a/src/input.c b/src/input.c
index 80d7730..ca6ad46 100644
--- a/src/input.c
+++ b/src/input.c
@@ -254,6 +254,11 @@ input_t *read_all_input()
             }
             result->lines[result->num_lines].text = bxs_from_unicode(temp);
             BFREE(temp);
+            if (result->lines[result->num_lines].text == NULL) {
+                BFREE(mbtemp);
+                BFREE(result->lines);
+                return NULL;
+            }
         }
         else {
             result->lines[result->num_lines].text = bxs_new_empty_string();
-- 
2.43.0


From c814e5a8e7352f12aa2458090ef8db7aadfb37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 05/26] fix: do not require a configuration file when the
 design is given with -c

---
 src/boxes.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/boxes.c b/src/boxes.c
index 6fead47..632c305 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -215,11 +215,11 @@ static void handle_command_line(int argc, char *argv[])
  */
 static void handle_config_parsing()
 {
-    bxstr_t *config_file = discover_config_file(0);
-    if (config_file == NULL) {
-        exit(EXIT_FAILURE);
-    }
     if (opt.cld == NULL) {
+        bxstr_t *config_file = discover_config_file(0);
+        if (config_file == NULL) {
+            exit(EXIT_FAILURE);
+        }
         size_t r_num_designs = 0;
         designs = parse_config_files(config_file, &r_num_designs);
         if (designs == NULL) {
-- 
2.43.0


From 82b0c42630c0c5b792f75f6285c16f40ebdb9cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 06/26] fix: work without color when the terminal type is
 unknown

setupterm() was called without an error result, which makes it print a message
and exit instead of returning an error.
---
 src/boxes.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 632c305..6fec442 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -427,7 +427,8 @@ static int terminal_has_colors()
         result = 1; /* On Windows, we always assume color capability. */
         UNUSED(termtype);
     #else
-        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, NULL) == OK && tigetnum("colors") >= 8) {
+        int errret = 0;  /* when passing NULL instead, setupterm() terminates the program if it does not know the terminal */
+        if (termtype != NULL && setupterm(termtype, STDOUT_FILENO, &errret) == OK && tigetnum("colors") >= 8) {
             result = 1;
         }
     #endif
-- 
2.43.0


From 8a1da18157ff1f41b6897853a8ff24f2030e7e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 07/26] fix: do not drop the last 12 characters of a line close
 to the length limit

---
 src/tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.c b/src/tools.c
index 2960f62..53cc7d5 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -252,7 +252,7 @@ size_t expand_tabs_into(const uint32_t *input_buffer, const int tabstop, uint32_
     ucs4_t puc;
     const uint32_t *rest = input_buffer;
     io = 0;
-    while ((rest = u32_next(&puc, rest)) && io < (LINE_MAX_BYTES - 12)) {
+    while ((rest = u32_next(&puc, rest)) && io < LINE_MAX_BYTES) {
         if (puc == char_tab) {
             if (*tabpos_len > 0) {
                 (*tabpos)[tabnum++] = io;
-- 
2.43.0


From e0b9d207e9baa5fff3745fd40b02c7105d7513d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:05 +0000
Subject: [PATCH 08/26] fix: fail when the output could not be written
 completely

Write errors were ignored, so that boxes exited with status 0 when, for example, the disk was full.
---
 src/boxes.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index 6fec442..623bdea 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -504,6 +504,30 @@ void enable_ansi_mode() {
 
 
 
+/**
+ * Complete all output when the program exits, so that output which could not be written does not go unnoticed.
+ */
+static void close_output()
+{
+    int failed = 0;
+    if (opt.outfile != NULL && opt.outfile != stdout) {
+        failed = ferror(opt.outfile);
+        if (fclose(opt.outfile) != 0) {
+            failed = 1;
+        }
+        opt.outfile = NULL;
+    }
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        failed = 1;
+    }
+    if (failed) {
+        fprintf(stderr, "%s: error writing output\n", PROJECT);
+        _exit(EXIT_FAILURE);
+    }
+}
+
+
+
 /*       _\|/_
          (o o)
  +----oOO-{_}-OOo------------------------------------------------------------+
@@ -517,6 +541,11 @@ int main(int argc, char *argv[])
     int saved_designheight;           /* opt.design->minheight backup, used for mending */
     design_t *saved_design;           /* the design which the two backups belong to */
 
+    if (atexit(close_output) != 0) {
+        perror(PROJECT);
+        return EXIT_FAILURE;
+    }
+
     /* Temporarily set the system encoding, for proper output of --help text etc. */
     activateSystemEncoding();
     encoding = locale_charset();
-- 
2.43.0


From 919114ade9df77747b521969edd26326a6c139d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:50 +0000
Subject: [PATCH 09/26] fix: fail when output_box() reports an error

---
 src/boxes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boxes.c b/src/boxes.c
index 623bdea..f1b9c96 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -381,7 +381,10 @@ static void handle_generate_box()
     if (rc) {
         exit(EXIT_FAILURE);
     }
-    output_box(thebox);
+    rc = output_box(thebox);
+    if (rc) {
+        exit(EXIT_FAILURE);
+    }
 }
 
 
-- 
2.43.0


From 8f836050e20cda34580f663a5fc4d52ee028d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 10/26] fix: fail when memory is exhausted instead of producing
 wrong output

---
 src/bxstring.c  | 64 ++++++++++++++++++++-------------------
 src/detect.c    |  4 +--
 src/list.c      | 10 ++-----
 src/parsecode.c | 79 +++++++++----------------------------------------
 src/parser.y    |  6 +---
 src/parsing.c   |  3 ++
 src/regulex.c   | 19 +++++++-----
 src/remove.c    | 10 ++-----
 src/tools.c     | 20 +++++++++----
 src/tools.h     |  8 +++++
 src/unicode.c   | 18 ++++++-----
 11 files changed, 103 insertions(+), 138 deletions(-)

diff --git a/src/bxstring.c b/src/bxstring.c
index 27abdea..02287bc 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -39,13 +39,13 @@ bxstr_t *bxs_from_ascii(char *pAscii)
         return NULL;
     }
 
-    bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
+    bxstr_t *result = (bxstr_t *) alloc_ok(calloc(1, sizeof(bxstr_t)));
     result->memory = u32_strconv_from_arg(pAscii, "ASCII");
     if (result->memory == NULL) {
         BFREE(result);
         return NULL;
     }
-    result->ascii = strdup(pAscii);
+    result->ascii = alloc_ok(strdup(pAscii));
 
     size_t error_pos = 0;
     if (!bxs_valid_anywhere(result, &error_pos)) {
@@ -68,8 +68,8 @@ bxstr_t *bxs_from_ascii(char *pAscii)
     result->indent = strspn(pAscii, " ");
     result->trailing = my_strrspn(pAscii, " ");
 
-    result->first_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
-    result->visible_char = calloc(result->num_chars_visible + 1, sizeof(size_t));
+    result->first_char = alloc_ok(calloc(result->num_chars_visible + 1, sizeof(size_t)));
+    result->visible_char = alloc_ok(calloc(result->num_chars_visible + 1, sizeof(size_t)));
     for (size_t i = 0; i <= result->num_chars_visible; i++) {
         result->first_char[i] = i;
         result->visible_char[i] = i;
@@ -87,14 +87,14 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
         return NULL;
     }
 
-    bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
-    result->memory = u32_strdup(pInput);
+    bxstr_t *result = (bxstr_t *) alloc_ok(calloc(1, sizeof(bxstr_t)));
+    result->memory = alloc_ok(u32_strdup(pInput));
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
-    result->ascii = (char *) calloc(ascii_len, sizeof(char));
+    result->ascii = (char *) alloc_ok(calloc(ascii_len, sizeof(char)));
     size_t map_size = 5;
-    result->first_char = (size_t *) calloc(map_size, sizeof(size_t));
-    result->visible_char = (size_t *) calloc(map_size, sizeof(size_t));
+    result->first_char = (size_t *) alloc_ok(calloc(map_size, sizeof(size_t)));
+    result->visible_char = (size_t *) alloc_ok(calloc(map_size, sizeof(size_t)));
     char *ascii_ptr = result->ascii;
 
     const uint32_t *rest = pInput;
@@ -108,8 +108,8 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     for (ucs4_t c = pInput[0]; c != char_nul; c = rest[0]) {
         if (result->num_chars_visible >= map_size - 2) {
             map_size = map_size * 2 + 1;
-            result->first_char = (size_t *) realloc(result->first_char, map_size * sizeof(size_t));
-            result->visible_char = (size_t *) realloc(result->visible_char, map_size * sizeof(size_t));
+            result->first_char = (size_t *) alloc_ok(realloc(result->first_char, map_size * sizeof(size_t)));
+            result->visible_char = (size_t *) alloc_ok(realloc(result->visible_char, map_size * sizeof(size_t)));
         }
 
         if (!is_allowed_anywhere(c)) { /* currently used for config only, reconsider when using on input data */
@@ -193,19 +193,19 @@ bxstr_t *bxs_strdup(bxstr_t *pString)
     if (pString == NULL) {
         return NULL;
     }
-    bxstr_t *result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
+    bxstr_t *result = (bxstr_t *) alloc_ok(calloc(1, sizeof(bxstr_t)));
     if (result != NULL) {
-        result->memory = u32_strdup(pString->memory);
-        result->ascii = strdup(pString->ascii);
+        result->memory = alloc_ok(u32_strdup(pString->memory));
+        result->ascii = alloc_ok(strdup(pString->ascii));
         result->indent = pString->indent;
         result->num_columns = pString->num_columns;
         result->num_chars = pString->num_chars;
         result->num_chars_visible = pString->num_chars_visible;
         result->num_chars_invisible = pString->num_chars_invisible;
         result->trailing = pString->trailing;
-        result->first_char = malloc((pString->num_chars_visible + 1) * sizeof(size_t));
+        result->first_char = alloc_ok(malloc((pString->num_chars_visible + 1) * sizeof(size_t)));
         memcpy(result->first_char, pString->first_char, (pString->num_chars_visible + 1) * sizeof(size_t));
-        result->visible_char = malloc((pString->num_chars_visible + 1) * sizeof(size_t));
+        result->visible_char = alloc_ok(malloc((pString->num_chars_visible + 1) * sizeof(size_t)));
         memcpy(result->visible_char, pString->visible_char, (pString->num_chars_visible + 1) * sizeof(size_t));
     }
     return result;
@@ -293,7 +293,7 @@ bxstr_t *bxs_strcat(bxstr_t *pString, uint32_t *pToAppend)
     }
 
     size_t combined_num_chars = pString->num_chars + appened_num_chars;
-    uint32_t *s = (uint32_t *) malloc((combined_num_chars + 1) * sizeof(uint32_t));
+    uint32_t *s = (uint32_t *) alloc_ok(malloc((combined_num_chars + 1) * sizeof(uint32_t)));
     memcpy(s, pString->memory, pString->num_chars * sizeof(uint32_t));
     memcpy(s + pString->num_chars, pToAppend, appened_num_chars * sizeof(uint32_t));
     set_char_at(s, combined_num_chars, char_nul);
@@ -326,11 +326,13 @@ bxstr_t *bxs_concat(size_t count, ...)
     }
     va_end(va);
 
-    uint32_t *utf32 = (uint32_t *) malloc((total_len + 1) * sizeof(uint32_t));
-    char *format = repeat("%llU", count);   /* "%llU" stands for a UTF-32 string */
+    uint32_t *utf32 = (uint32_t *) alloc_ok(malloc((total_len + 1) * sizeof(uint32_t)));
+    char *format = (char *) alloc_ok(repeat("%llU", count));   /* "%llU" stands for a UTF-32 string */
 
     va_start(va, count);
-    u32_vsnprintf(utf32, total_len + 1, format, va);
+    if (u32_vsnprintf(utf32, total_len + 1, format, va) < 0) {
+        alloc_ok(NULL);
+    }
     va_end(va);
 
     bxstr_t *result = bxs_from_unicode(utf32);
@@ -481,16 +483,16 @@ bxstr_t *bxs_prepend_spaces(bxstr_t *pString, size_t n)
         BFREE(s);
     }
     else {
-        result = (bxstr_t *) calloc(1, sizeof(bxstr_t));
+        result = (bxstr_t *) alloc_ok(calloc(1, sizeof(bxstr_t)));
 
-        result->memory = (uint32_t *) malloc((pString->num_chars + n + 1) * sizeof(uint32_t));
+        result->memory = (uint32_t *) alloc_ok(malloc((pString->num_chars + n + 1) * sizeof(uint32_t)));
         uint32_t *s = u32_nspaces(n);
         u32_cpy(result->memory, s, n);
         BFREE(s);
         u32_cpy(result->memory + n, pString->memory, pString->num_chars);
         set_char_at(result->memory, pString->num_chars + n, char_nul);
 
-        result->ascii = (char *) malloc((pString->num_columns + n + 1) * sizeof(char));
+        result->ascii = (char *) alloc_ok(malloc((pString->num_columns + n + 1) * sizeof(char)));
         memset(result->ascii, ' ', n);
         strcpy(result->ascii + n, pString->ascii);
 
@@ -501,8 +503,8 @@ bxstr_t *bxs_prepend_spaces(bxstr_t *pString, size_t n)
         result->num_chars_invisible = pString->num_chars_invisible;
         result->trailing = pString->trailing;
 
-        result->first_char = (size_t *) malloc((pString->num_chars_visible + n + 1) * sizeof(size_t));
-        result->visible_char = (size_t *) malloc((pString->num_chars_visible + n + 1) * sizeof(size_t));
+        result->first_char = (size_t *) alloc_ok(malloc((pString->num_chars_visible + n + 1) * sizeof(size_t)));
+        result->visible_char = (size_t *) alloc_ok(malloc((pString->num_chars_visible + n + 1) * sizeof(size_t)));
         for (size_t i=0; i < n; i++) {
             result->first_char[i] = i;
             result->visible_char[i] = i;
@@ -523,18 +525,18 @@ void bxs_append_spaces(bxstr_t *pString, size_t n)
         return;
     }
 
-    pString->memory = (uint32_t *) realloc(pString->memory, (pString->num_chars + n + 1) * sizeof(uint32_t));
+    pString->memory = (uint32_t *) alloc_ok(realloc(pString->memory, (pString->num_chars + n + 1) * sizeof(uint32_t)));
     u32_set(pString->memory + pString->num_chars, char_space, n);
     set_char_at(pString->memory, pString->num_chars + n, char_nul);
 
-    pString->ascii = (char *) realloc(pString->ascii, (pString->num_columns + n + 1) * sizeof(char));
+    pString->ascii = (char *) alloc_ok(realloc(pString->ascii, (pString->num_columns + n + 1) * sizeof(char)));
     memset(pString->ascii + pString->num_columns, ' ', n);
     pString->ascii[pString->num_columns + n] = '\0';
 
     pString->first_char =
-            (size_t *) realloc(pString->first_char, (pString->num_chars_visible + n + 1) * sizeof(size_t));
+            (size_t *) alloc_ok(realloc(pString->first_char, (pString->num_chars_visible + n + 1) * sizeof(size_t)));
     pString->visible_char =
-            (size_t *) realloc(pString->visible_char, (pString->num_chars_visible + n + 1) * sizeof(size_t));
+            (size_t *) alloc_ok(realloc(pString->visible_char, (pString->num_chars_visible + n + 1) * sizeof(size_t)));
     for (size_t i = 0; i <= n; i++) {
         pString->first_char[pString->num_chars_visible + i] = pString->num_chars + i;
         pString->visible_char[pString->num_chars_visible + i] = pString->num_chars + i;
@@ -616,10 +618,10 @@ uint32_t *bxs_filter_visible(bxstr_t *pString)
     uint32_t *result = NULL;
     if (pString != NULL) {
         if (pString->num_chars_invisible == 0) {
-            result = u32_strdup(pString->memory);
+            result = alloc_ok(u32_strdup(pString->memory));
         }
         else {
-            result = (uint32_t *) calloc(pString->num_chars_visible + 1, sizeof(uint32_t));
+            result = (uint32_t *) alloc_ok(calloc(pString->num_chars_visible + 1, sizeof(uint32_t)));
             for (size_t i = 0; i < pString->num_chars_visible; i++) {
                 set_char_at(result, i, pString->memory[pString->visible_char[i]]);
             }
diff --git a/src/detect.c b/src/detect.c
index aad1fe5..fb90f46 100644
--- a/src/detect.c
+++ b/src/detect.c
@@ -155,7 +155,7 @@ uint32_t *prepare_comp_shape(
     {
         size_t ltrim = trim_left ? shape_line->indent : 0;
         uint32_t *visible = bxs_filter_visible(shape_line);
-        result = u32_strdup(visible + ltrim);
+        result = (uint32_t *) alloc_ok(u32_strdup(visible + ltrim));
         BFREE(visible);
 
         if (trim_right && shape_line->trailing > 0) {
@@ -163,7 +163,7 @@ uint32_t *prepare_comp_shape(
         }
     }
     else {
-        result = u32_strdup(trim_left ? bxs_unindent_ptr(shape_line) : shape_line->memory);
+        result = (uint32_t *) alloc_ok(u32_strdup(trim_left ? bxs_unindent_ptr(shape_line) : shape_line->memory));
 
         if (trim_right && shape_line->trailing > 0) {
             size_t x = shape_line->num_chars_visible - (trim_left ? shape_line->indent : 0) - shape_line->trailing;
diff --git a/src/list.c b/src/list.c
index 70360c5..fb14bb2 100644
--- a/src/list.c
+++ b/src/list.c
@@ -73,11 +73,7 @@ static char *names(design_t *design)
     size_t num_aliases;
     analyze_names(design, &num_aliases, &siz);
 
-    char *result = (char *) malloc (siz + 1);
-    if (result == NULL) {
-        perror(PROJECT);
-        return NULL;
-    }
+    char *result = (char *) alloc_ok(malloc(siz + 1));
     strcpy(result, design->name);
 
     if (num_aliases > 0) {
@@ -137,7 +133,7 @@ static void count_tag(char *tag, tagstats_t **tagstats, size_t *num_tags)
     }
 
     ++(*num_tags);
-    *tagstats = realloc(*tagstats, (*num_tags) * sizeof(tagstats_t));
+    *tagstats = alloc_ok(realloc(*tagstats, (*num_tags) * sizeof(tagstats_t)));
     (*tagstats)[(*num_tags) - 1].tag = tag;
     (*tagstats)[(*num_tags) - 1].count = 1;
 }
@@ -172,7 +168,7 @@ static bxstr_t *escape(bxstr_t *org)
     const ucs4_t char_backslash = to_utf32('\\');
     const ucs4_t char_quote = to_utf32('"');
 
-    uint32_t *temp = (uint32_t *) calloc(2 * org->num_chars + 1, sizeof(uint32_t));
+    uint32_t *temp = (uint32_t *) alloc_ok(calloc(2 * org->num_chars + 1, sizeof(uint32_t)));
     size_t orgIdx, resultIdx;
     for (orgIdx = 0, resultIdx = 0; orgIdx < org->num_chars; ++orgIdx, ++resultIdx) {
         if ((is_char_at(org->memory, orgIdx, char_backslash) || is_char_at(org->memory, orgIdx, char_quote))
diff --git a/src/parsecode.c b/src/parsecode.c
index 9d5eb1c..aa65e40 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -367,8 +367,8 @@ static int tag_add(pass_to_bison *bison_args, bxstr_t *tag)
     if (is_ascii_id(tag, 1)) {
         if (!array_contains0(curdes.tags, tag->ascii)) {
             size_t num_tags = array_count0(curdes.tags);
-            curdes.tags = (char **) realloc(curdes.tags, (num_tags + 2) * sizeof(char *));
-            curdes.tags[num_tags] = (char *) strdup(tag->ascii);
+            curdes.tags = (char **) alloc_ok(realloc(curdes.tags, (num_tags + 2) * sizeof(char *)));
+            curdes.tags[num_tags] = (char *) alloc_ok(strdup(tag->ascii));
             curdes.tags[num_tags + 1] = NULL;
         }
         else {
@@ -610,7 +610,7 @@ int action_start_parsing_design(pass_to_bison *bison_args, char *design_name)
     bison_args->speeding = 0;
     bison_args->skipping = 0;
 
-    curdes.name = (char *) strdup(design_name);
+    curdes.name = (char *) alloc_ok(strdup(design_name));
     if (curdes.name == NULL) {
         perror(PROJECT);
         return RC_ABORT;
@@ -720,11 +720,7 @@ int action_add_design(pass_to_bison *bison_args, char *design_primary_name, char
      *  Allocate space for next design
      */
     ++(bison_args->design_idx);
-    tmp = (design_t *) realloc(bison_args->designs, (bison_args->design_idx + 1) * sizeof(design_t));
-    if (tmp == NULL) {
-        perror(PROJECT);
-        return RC_ABORT;
-    }
+    tmp = (design_t *) alloc_ok(realloc(bison_args->designs, (bison_args->design_idx + 1) * sizeof(design_t)));
     bison_args->designs = tmp;
     init_design(bison_args, &(curdes));
 
@@ -827,11 +823,7 @@ int action_padding_entry(pass_to_bison *bison_args, char *area, int value)
 
 int action_init_parser(pass_to_bison *bison_args)
 {
-    bison_args->designs = (design_t *) calloc(1, sizeof(design_t));
-    if (bison_args->designs == NULL) {
-        perror(PROJECT);
-        return RC_ABORT;
-    }
+    bison_args->designs = (design_t *) alloc_ok(calloc(1, sizeof(design_t)));
     bison_args->num_designs = 1;
     init_design(bison_args, bison_args->designs);
     return RC_SUCCESS;
@@ -850,8 +842,8 @@ int action_add_alias(pass_to_bison *bison_args, char *alias_name)
     }
     else {
         size_t num_aliases = array_count0(curdes.aliases);
-        curdes.aliases = (char **) realloc(curdes.aliases, (num_aliases + 2) * sizeof(char *));
-        curdes.aliases[num_aliases] = strdup(alias_name);
+        curdes.aliases = (char **) alloc_ok(realloc(curdes.aliases, (num_aliases + 2) * sizeof(char *)));
+        curdes.aliases[num_aliases] = alloc_ok(strdup(alias_name));
         curdes.aliases[num_aliases + 1] = NULL;
     }
     return RC_SUCCESS;
@@ -939,18 +931,10 @@ int action_add_regex_rule(pass_to_bison *bison_args, char *type, reprule_t **rul
         BFREE(out_search);
     }
 
-    *rule_list = (reprule_t *) realloc(*rule_list, (n + 1) * sizeof(reprule_t));
-    if (*rule_list == NULL) {
-        perror(PROJECT);
-        return RC_ABORT;
-    }
+    *rule_list = (reprule_t *) alloc_ok(realloc(*rule_list, (n + 1) * sizeof(reprule_t)));
     memset((*rule_list) + n, 0, sizeof(reprule_t));
     (*rule_list)[n].search = bxs_strdup(search);
     (*rule_list)[n].repstr = bxs_strdup(replace);
-    if ((*rule_list)[n].search == NULL || (*rule_list)[n].repstr == NULL) {
-        perror(PROJECT);
-        return RC_ABORT;
-    }
     (*rule_list)[n].line = yyget_lineno(bison_args->lexer_state);
     (*rule_list)[n].mode = mode;
     *rule_list_len = n + 1;
@@ -974,27 +958,10 @@ int action_first_shape_line(pass_to_bison *bison_args, bxstr_t *line, sentry_t *
     rval.width = line->num_columns;
     rval.height = 1;
 
-    rval.chars = (char **) malloc(sizeof(char *));
-    if (rval.chars == NULL) {
-        perror(PROJECT ": shape_lines21");
-        return RC_ABORT;
-    }
-    rval.chars[0] = (char *) strdup(line->ascii);
-    if (rval.chars[0] == NULL) {
-        perror(PROJECT ": shape_lines22");
-        return RC_ABORT;
-    }
-
-    rval.mbcs = (bxstr_t **) malloc(sizeof(bxstr_t *));
-    if (rval.mbcs == NULL) {
-        perror(PROJECT ": shape_lines23");
-        return RC_ABORT;
-    }
+    rval.chars = (char **) alloc_ok(malloc(sizeof(char *)));
+    rval.chars[0] = (char *) alloc_ok(strdup(line->ascii));
+    rval.mbcs = (bxstr_t **) alloc_ok(malloc(sizeof(bxstr_t *)));
     rval.mbcs[0] = bxs_strdup(line);
-    if (rval.mbcs[0] == NULL) {
-        perror(PROJECT ": shape_lines24");
-        return RC_ABORT;
-    }
 
     memcpy(shape, &rval, sizeof(sentry_t));
     return RC_SUCCESS;
@@ -1020,29 +987,11 @@ int action_add_shape_line(pass_to_bison *bison_args, sentry_t *shape, bxstr_t *l
 
     shape->height++;
 
-    char **tmp = (char **) realloc(shape->chars, shape->height * sizeof(char *));
-    if (tmp == NULL) {
-        perror(PROJECT ": shape_lines11");
-        return RC_ABORT;
-    }
-    shape->chars = tmp;
-    shape->chars[shape->height - 1] = (char *) strdup(line->ascii);
-    if (shape->chars[shape->height - 1] == NULL) {
-        perror(PROJECT ": shape_lines12");
-        return RC_ABORT;
-    }
+    shape->chars = (char **) alloc_ok(realloc(shape->chars, shape->height * sizeof(char *)));
+    shape->chars[shape->height - 1] = (char *) alloc_ok(strdup(line->ascii));
 
-    bxstr_t **mtmp = (bxstr_t **) realloc(shape->mbcs, shape->height * sizeof(bxstr_t *));
-    if (mtmp == NULL) {
-        perror(PROJECT ": shape_lines13");
-        return RC_ABORT;
-    }
-    shape->mbcs = mtmp;
+    shape->mbcs = (bxstr_t **) alloc_ok(realloc(shape->mbcs, shape->height * sizeof(bxstr_t *)));
     shape->mbcs[shape->height - 1] = bxs_strdup(line);
-    if (shape->mbcs[shape->height - 1] == NULL) {
-        perror(PROJECT ": shape_lines14");
-        return RC_ABORT;
-    }
 
     return RC_SUCCESS;
 }
diff --git a/src/parser.y b/src/parser.y
index 7c54018..5c4833b 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -181,11 +181,7 @@ config_file
 
         --(bison_args->design_idx);
         bison_args->num_designs = bison_args->design_idx + 1;
-        tmp = (design_t *) realloc (bison_args->designs, (bison_args->num_designs) * sizeof(design_t));
-        if (!tmp) {
-            perror (PROJECT);
-            YYABORT;
-        }
+        tmp = (design_t *) alloc_ok(realloc(bison_args->designs, (bison_args->num_designs) * sizeof(design_t)));
         bison_args->designs = tmp;
     }
 
diff --git a/src/parsing.c b/src/parsing.c
index 65d21be..b27c1c2 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -191,6 +191,9 @@ static pass_to_bison parse_config_file(bxstr_t *config_file, design_t *child_con
 
     if (rc) {
         log_debug(__FILE__, MAIN, "yyparse() returned %d\n", rc);
+        if (rc == 2) {   /* parser ran out of memory */
+            exit(EXIT_FAILURE);
+        }
         return new_bison_args(config_file);
     }
     return bison_args;
diff --git a/src/regulex.c b/src/regulex.c
index e4b204d..e134c3a 100644
--- a/src/regulex.c
+++ b/src/regulex.c
@@ -60,6 +60,9 @@ pcre2_code *u32_compile_pattern(uint32_t *pattern)
             NULL);                   /* use default compile context */
 
     if (re == NULL) {
+        if (errornumber == PCRE2_ERROR_HEAP_FAILED) {
+            alloc_ok(NULL);
+        }
         PCRE2_UCHAR buffer[256];
         pcre2_get_error_message(errornumber, buffer, sizeof(buffer));
         bx_fprintf(stderr, "Regular expression pattern \"%s\" failed to compile at position %d: %s\n",
@@ -82,9 +85,12 @@ int regex_match(pcre2_code *pattern, char *subject_string)
 
 int u32_regex_match(pcre2_code *pattern, uint32_t *subject_string)
 {
-    pcre2_match_data *match_data = pcre2_match_data_create_from_pattern(pattern, NULL);
+    pcre2_match_data *match_data = (pcre2_match_data *) alloc_ok(pcre2_match_data_create_from_pattern(pattern, NULL));
     int rc = pcre2_match(pattern, (PCRE2_SPTR) subject_string, PCRE2_ZERO_TERMINATED, 0, 0, match_data, NULL);
     pcre2_match_data_free(match_data);
+    if (rc == PCRE2_ERROR_NOMEMORY) {
+        alloc_ok(NULL);
+    }
     return rc < 0 ? 0 : 1;
 }
 
@@ -112,15 +118,11 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
     PCRE2_SIZE outlen = input_len * 2; /* estimated length of output buffer in characters, fine if too small */
 
     PCRE2_SIZE bufsize = (input_len < 8) ? 16 : outlen;
-    uint32_t *output = (uint32_t *) malloc(sizeof(uint32_t) * bufsize); /* output buffer */
+    uint32_t *output = (uint32_t *) alloc_ok(malloc(sizeof(uint32_t) * bufsize)); /* output buffer */
     int pcre2_rc;
 
     int done = 0;
     while (!done) {
-        if (output == NULL) {
-            fprintf(stderr, "out of memory");
-            return NULL;
-        }
         PCRE2_SIZE outlen = bufsize;
 
         pcre2_rc = pcre2_substitute(search,
@@ -138,10 +140,13 @@ uint32_t *u32_regex_replace(pcre2_code *search, uint32_t *replace, uint32_t *inp
         else {
             log_debug(__FILE__, REGEXP, "Reallocating output buffer from %ld to %ld UTF-32 chars\n", bufsize, outlen);
             bufsize = outlen;
-            output = (uint32_t *) realloc(output, sizeof(uint32_t) * bufsize);
+            output = (uint32_t *) alloc_ok(realloc(output, sizeof(uint32_t) * bufsize));
         }
     }
 
+    if (pcre2_rc == PCRE2_ERROR_NOMEMORY) {
+        alloc_ok(NULL);
+    }
     if (pcre2_rc < 0) {
         PCRE2_UCHAR buffer[256];
         pcre2_get_error_message(pcre2_rc, buffer, sizeof(buffer));
diff --git a/src/remove.c b/src/remove.c
index 3081894..57aa036 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -343,7 +343,7 @@ int hmm(shape_line_ctx_t *shapes_relevant, uint32_t *cur_pos, size_t shape_idx,
         result = hmm(shapes_relevant, cur_pos, shape_idx + 1, end_pos, 1, anchored_right);
     }
     else {
-        uint32_t *shape_line = u32_strdup(shapes_relevant[shape_idx].text->memory);
+        uint32_t *shape_line = alloc_ok(u32_strdup(shapes_relevant[shape_idx].text->memory));
         size_t quality = shapes_relevant[shape_idx].text->num_chars;
         while (shape_line != NULL && quality > 0) {
             if (u32_strncmp(cur_pos, shape_line, quality) == 0) {
@@ -1194,11 +1194,7 @@ void output_input(const int trim_only)
             indent = input.lines[j].text->indent;
             ntabs = indent / opt.tabstop;
             nspcs = indent % opt.tabstop;
-            indentspc = (char *) malloc(ntabs + nspcs + 1);
-            if (indentspc == NULL) {
-                perror(PROJECT);
-                return;
-            }
+            indentspc = (char *) alloc_ok(malloc(ntabs + nspcs + 1));
             memset(indentspc, (int) '\t', ntabs);
             memset(indentspc + ntabs, (int) ' ', nspcs);
             indentspc[ntabs + nspcs] = '\0';
@@ -1210,7 +1206,7 @@ void output_input(const int trim_only)
             indent = input.indent;
         }
         else {
-            indentspc = (char *) strdup("");
+            indentspc = (char *) alloc_ok(strdup(""));
             indent = 0;
         }
 
diff --git a/src/tools.c b/src/tools.c
index 53cc7d5..34fdc92 100644
--- a/src/tools.c
+++ b/src/tools.c
@@ -168,7 +168,7 @@ char *concat_strings_alloc(size_t count, ...)
     }
     va_end(va);
 
-    char *result = malloc(total_len + 1);
+    char *result = alloc_ok(malloc(total_len + 1));
     char *p = result;
 
     va_start(va, count);
@@ -376,11 +376,7 @@ uint32_t *tabbify_indent(const size_t lineno, uint32_t *indentspc, const size_t
         return new_empty_string32();
     }
 
-    result = (uint32_t *) malloc((indentspc_len + 1) * sizeof(uint32_t));
-    if (result == NULL) {
-        perror(PROJECT);
-        return NULL;
-    }
+    result = (uint32_t *) alloc_ok(malloc((indentspc_len + 1) * sizeof(uint32_t)));
     u32_set(result, char_space, indentspc_len);
     set_char_at(result, indentspc_len, char_nul);
     result_len = indentspc_len;
@@ -676,6 +672,18 @@ int is_ascii_id(bxstr_t *s, int strict)
 
 
 
+void *alloc_ok(void *ptr)
+{
+    if (ptr == NULL) {
+        errno = ENOMEM;
+        perror(PROJECT);
+        exit(EXIT_FAILURE);
+    }
+    return ptr;
+}
+
+
+
 char *bx_strndup(const char *s, size_t n)
 {
     if (s == NULL) {
diff --git a/src/tools.h b/src/tools.h
index 7952778..9c56f9b 100644
--- a/src/tools.h
+++ b/src/tools.h
@@ -40,6 +40,14 @@
     _a < _b ? _a : _b;       \
 })
 
+/**
+ * Check the result of a memory allocation. Terminates the program with an error message if the allocation failed.
+ * @param ptr the newly allocated memory, or NULL if the allocation failed
+ * @return `ptr`, never NULL
+ */
+void *alloc_ok(void *ptr);
+
+
 /** free memory and clear pointer */
 #define BFREE(p) {          \
     if (p) {                \
diff --git a/src/unicode.c b/src/unicode.c
index a3b2b7d..e4a0a85 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -145,7 +145,7 @@ int is_blank(const ucs4_t c)
 
 uint32_t *new_empty_string32()
 {
-    return (uint32_t *) calloc(1, sizeof(uint32_t));
+    return (uint32_t *) alloc_ok(calloc(1, sizeof(uint32_t)));
 }
 
 
@@ -228,6 +228,9 @@ uint32_t *u32_strconv_from_arg(const char *src, const char *sourceEncoding)
             iconveh_question_mark); /* produce one question mark '?' per unconvertible character */
 
     if (result == NULL) {
+        if (errno == ENOMEM) {
+            alloc_ok(NULL);
+        }
         fprintf(stderr, "%s: failed to convert from '%s' to UTF-32: %s\n", PROJECT, sourceEncoding, strerror(errno));
     }
     return result;
@@ -248,7 +251,7 @@ char *u32_strconv_to_arg(const uint32_t *src, const char *targetEncoding)
         return NULL;
     }
     if (is_empty(src)) {
-        return strdup("");
+        return (char *) alloc_ok(strdup(""));
     }
 
     char *result = u32_strconv_to_encoding(
@@ -257,6 +260,9 @@ char *u32_strconv_to_arg(const uint32_t *src, const char *targetEncoding)
             iconveh_question_mark); /* produce one question mark '?' per unconvertible character */
 
     if (result == NULL) {
+        if (errno == ENOMEM) {
+            alloc_ok(NULL);
+        }
         fprintf(stderr, "%s: failed to convert from UTF-32 to '%s': %s\n", PROJECT, targetEncoding, strerror(errno));
     }
     return result;
@@ -301,11 +307,7 @@ char *to_utf8(uint32_t *src)
 
 uint32_t *u32_nspaces(const size_t n)
 {
-    uint32_t *result = (uint32_t *) malloc((n + 1) * sizeof(uint32_t));
-    if (result == NULL) {
-        perror(PROJECT);
-        return NULL;
-    }
+    uint32_t *result = (uint32_t *) alloc_ok(malloc((n + 1) * sizeof(uint32_t)));
     if (n > 0) {
         u32_set(result, char_space, n);
     }
@@ -353,7 +355,7 @@ void u32_insert_space_at(uint32_t **s, const size_t idx, const size_t n)
         x = len;
     }
 
-    *s = (uint32_t *) realloc(*s, (len + 1 + n) * sizeof(uint32_t));
+    *s = (uint32_t *) alloc_ok(realloc(*s, (len + 1 + n) * sizeof(uint32_t)));
     u32_move(*s + x + n, *s + x, len - x);
     u32_set(*s + x, char_space, n);
 }
-- 
2.43.0


From 8a172ac5f21fee0c57fa1ae88651becb3c8fb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 11/26] fix: reject an invalid -k value also when blank line
 handling was already chosen

---
 src/cmdline.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 2f98398..f051ee9 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -335,17 +335,13 @@ static int indentation_mode(opt_t *result, char *optarg)
  */
 static int killblank(opt_t *result, char *optarg)
 {
+    int is_yes = strisyes(optarg);
+    if (!is_yes && !strisno(optarg)) {
+        bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
+        return 1;
+    }
     if (result->killblank == -1) {
-        if (strisyes(optarg)) {
-            result->killblank = 1;
-        }
-        else if (strisno(optarg)) {
-            result->killblank = 0;
-        }
-        else {
-            bx_fprintf(stderr, "%s: -k: invalid parameter\n", PROJECT);
-            return 1;
-        }
+        result->killblank = is_yes ? 1 : 0;
     }
     return 0;
 }
-- 
2.43.0


From 5ed26d8f7f2b3f8aa91b9213c5899b5515034e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:11 +0000
Subject: [PATCH 12/26] fix: do not leave the box's fill blanks behind in empty
 lines when removing or mending

---
 src/remove.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/remove.c b/src/remove.c
index 57aa036..0df4536 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1023,7 +1023,13 @@ static void remove_vertical_from_input(remove_ctx_t *ctx)
                 (int) input.indent);
 
         bxstr_t *temp2 = bxs_substr(org_line, s_idx, e_idx);
-        if (opt.indentmode == 'b' || opt.indentmode == '\0') {
+        if (bxs_is_blank(temp2)) {
+            /* it was an empty line, the blanks only filled up the box */
+            bxs_free(temp2);
+            free_line_text(input.lines + input_line_idx);
+            input.lines[input_line_idx].text = bxs_new_empty_string();
+        }
+        else if (opt.indentmode == 'b' || opt.indentmode == '\0') {
             /* restore indentation */
             bxstr_t *temp = bxs_prepend_spaces(temp2, input.indent);
             free_line_text(input.lines + input_line_idx);
@@ -1088,10 +1094,13 @@ static void apply_results_to_input(remove_ctx_t *ctx)
         if (input.lines[j].text->num_columns > input.maxline) {
             input.maxline = input.lines[j].text->num_columns;
         }
-        if (input.lines[j].text->indent < input.indent) {
+        if (input.lines[j].text->num_columns > 0 && input.lines[j].text->indent < input.indent) {
             input.indent = input.lines[j].text->indent;
         }
     }
+    if (input.indent == SIZE_MAX) {
+        input.indent = 0;  /* only empty lines */
+    }
     if (ctx->empty_side[BLEF]) {
         /* If the side were not open, default padding would have been removed when the side was removed. */
         remove_default_padding(ctx, BMIN((int) input.indent, opt.design->padding[BLEF]));
-- 
2.43.0


From 5b46bb7ff2b44da95b9c04d8bfdb87d5f26ad450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:46 +0000
Subject: [PATCH 13/26] fix: fail when memory is exhausted while preparing
 shapes, paths and parent lists

---
 src/cmdline.c   |  2 +-
 src/discovery.c |  2 +-
 src/parsecode.c |  2 +-
 src/parsing.c   |  6 ++----
 src/query.c     |  2 +-
 src/shape.c     | 14 ++------------
 src/unicode.c   |  8 +++++++-
 7 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index f051ee9..f9328a8 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -814,7 +814,7 @@ opt_t *process_commandline(int argc, char *argv[])
                 break;
 
             case 'f':
-                result->f = strdup(optarg);   /* input file */
+                result->f = (char *) alloc_ok(strdup(optarg));   /* input file */
                 break;
             
             case 'h':
diff --git a/src/discovery.c b/src/discovery.c
index e92e5dd..d398b94 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -140,7 +140,7 @@ static char *locate_config_file_or_dir(char *path_utf8, const char *ext_msg)
 {
     char *result = NULL;
     if (can_read_file(path_utf8)) {
-        result = strdup(path_utf8);
+        result = (char *) alloc_ok(strdup(path_utf8));
     }
     else if (can_read_dir(path_utf8)) {
         result = locate_config_in_dir(path_utf8);
diff --git a/src/parsecode.c b/src/parsecode.c
index aa65e40..9b95077 100644
--- a/src/parsecode.c
+++ b/src/parsecode.c
@@ -671,7 +671,7 @@ int action_parent_config(pass_to_bison *bison_args, bxstr_t *filepath)
     int is_new = !array_contains_bxs(bison_args->parent_configs, bison_args->num_parent_configs, filepath);
     if (is_new) {
         bison_args->parent_configs
-                = realloc(bison_args->parent_configs, (bison_args->num_parent_configs + 1) * sizeof(bxstr_t *));
+                = alloc_ok(realloc(bison_args->parent_configs, (bison_args->num_parent_configs + 1) * sizeof(bxstr_t *)));
         bison_args->parent_configs[bison_args->num_parent_configs] = filepath;
         ++(bison_args->num_parent_configs);
     }
diff --git a/src/parsing.c b/src/parsing.c
index b27c1c2..3569453 100644
--- a/src/parsing.c
+++ b/src/parsing.c
@@ -224,10 +224,8 @@ static int record_parent_config_files(pass_to_bison *bison_args)
             bxstr_t *parent_file = bison_args->parent_configs[parent_idx];
             int is_new = !array_contains_bxs(parent_configs, num_parent_configs, parent_file);
             if (is_new) {
-                parent_configs = (bxstr_t **) realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *));
-                if (parent_configs == NULL) {
-                    return 1;
-                }
+                parent_configs = (bxstr_t **) alloc_ok(
+                        realloc(parent_configs, (num_parent_configs + 1) * sizeof(bxstr_t *)));
                 parent_configs[num_parent_configs] = parent_file;
                 ++num_parent_configs;
             }
diff --git a/src/query.c b/src/query.c
index 2293806..5775fdc 100644
--- a/src/query.c
+++ b/src/query.c
@@ -49,7 +49,7 @@ char **parse_query(char *optarg)
     /* CAUTION: This function cannot use `opt`, because it is involved in its construction. */
 
     char **query = NULL;
-    char *dup = strdup(optarg);   /* required because strtok() modifies its input */
+    char *dup = (char *) alloc_ok(strdup(optarg));   /* required because strtok() modifies its input */
 
     int contains_positive_element = 0;
     size_t num_expr = 0;
diff --git a/src/shape.c b/src/shape.c
index 817819c..41c69aa 100644
--- a/src/shape.c
+++ b/src/shape.c
@@ -138,18 +138,8 @@ int genshape(const size_t width, const size_t height, char ***chars, bxstr_t ***
         return 1;
     }
 
-    *chars = (char **) calloc(height, sizeof(char *));
-    if (*chars == NULL) {
-        perror(PROJECT);
-        return 2;
-    }
-
-    *mbcs = (bxstr_t **) calloc(height, sizeof(bxstr_t *));
-    if (*mbcs == NULL) {
-        BFREE(*chars);
-        perror(PROJECT);
-        return 4;
-    }
+    *chars = (char **) alloc_ok(calloc(height, sizeof(char *)));
+    *mbcs = (bxstr_t **) alloc_ok(calloc(height, sizeof(bxstr_t *)));
 
     for (j = 0; j < height; ++j) {
         (*chars)[j] = nspaces(width);
diff --git a/src/unicode.c b/src/unicode.c
index e4a0a85..b23e810 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -278,6 +278,9 @@ const char *check_encoding(const char *manual_encoding, const char *system_encod
             BFREE(unicode);
             return manual_encoding;
         }
+        if (errno == ENOMEM) {
+            alloc_ok(NULL);
+        }
         fprintf(stderr, "%s: Invalid character encoding: %s - falling back to %s\n",
                 PROJECT, manual_encoding, system_encoding);
         fflush(stderr);
@@ -293,10 +296,13 @@ char *to_utf8(uint32_t *src)
         return NULL;
     }
     if (is_empty(src)) {
-        return (char *) strdup("");
+        return (char *) alloc_ok(strdup(""));
     }
     char *result = u32_strconv_to_encoding(src, "UTF-8", iconveh_error);
     if (result == NULL) {
+        if (errno == ENOMEM) {
+            alloc_ok(NULL);
+        }
         bx_fprintf(stderr, "%s: failed to convert a string to UTF-8: %s\n", PROJECT, strerror(errno));
         return NULL;
     }
-- 
2.43.0


From 13ed6595557bf3838428786bbd3bc56cd6e6205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 14/26] fix: reject an invalid -s value also when a size was
 already given

---
 src/cmdline.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index f9328a8..64393ef 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -447,14 +447,18 @@ static int size_of_box(opt_t *result, char *optarg)
         *p = '\0';
     }
     errno = 0;
+    long width = 0;
+    long height = 0;
     if (optarg != p) {
-        result->reqwidth = strtol(optarg, NULL, 10);
+        width = strtol(optarg, NULL, 10);
+        result->reqwidth = width;
     }
     if (p) {
-        result->reqheight = strtol(p + 1, NULL, 10);
+        height = strtol(p + 1, NULL, 10);
+        result->reqheight = height;
         *p = 'x';
     }
-    if (errno || (result->reqwidth == 0 && result->reqheight == 0) || result->reqwidth < 0 || result->reqheight < 0) {
+    if (errno || (width == 0 && height == 0) || width < 0 || height < 0) {
         bx_fprintf(stderr, "%s: invalid box size specification -- %s\n", PROJECT, optarg);
         return 1;
     }
-- 
2.43.0


From 6fee46a4b55a8e1b1d302b8f3148f97f7a8ae11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:02 +0000
Subject: [PATCH 15/26] fix: do not print escape sequences of the text with
 --no-color when removing a box

---
 src/remove.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/remove.c b/src/remove.c
index 0df4536..837b1ab 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1219,10 +1219,12 @@ void output_input(const int trim_only)
             indent = 0;
         }
 
-        char *outtext = u32_strconv_to_output(bxs_first_char_ptr(input.lines[j].text, indent));
+        bxstr_t *outline = bxs_from_unicode(bxs_first_char_ptr(input.lines[j].text, indent));
+        char *outtext = bxs_to_output(outline);   /* without escape sequences unless color is enabled */
         fprintf(opt.outfile, "%s%s%s", indentspc, outtext,
                 (input.final_newline || j < input.num_lines - 1 ? opt.eol : ""));
         BFREE(outtext);
+        bxs_free(outline);
         BFREE(indentspc);
     }
 }
-- 
2.43.0


From 86cc13a637723e37e31247fccdd1748c1d422dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:22 +0000
Subject: [PATCH 16/26] fix: do not write past the end of a buffer when a box
 line contains tabs (-t u, -t k)

---
 src/bxstring.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bxstring.c b/src/bxstring.c
index 02287bc..da98495 100644
--- a/src/bxstring.c
+++ b/src/bxstring.c
@@ -91,6 +91,11 @@ bxstr_t *bxs_from_unicode(uint32_t *pInput)
     result->memory = alloc_ok(u32_strdup(pInput));
     result->num_chars = u32_strlen(pInput);
     size_t ascii_len = ((size_t) u32_strwidth(pInput, encoding)) + 1;
+    for (const uint32_t *p = pInput; *p != char_nul; p++) {
+        if (*p == char_tab) {
+            ++ascii_len;   /* u32_strwidth() does not count tabs, but we represent them as one blank each */
+        }
+    }
     result->ascii = (char *) alloc_ok(calloc(ascii_len, sizeof(char)));
     size_t map_size = 5;
     result->first_char = (size_t *) alloc_ok(calloc(map_size, sizeof(size_t)));
-- 
2.43.0


From 1d017af5ff800f13dad2ba1aafd54e1e42343ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 17/26] fix: do not write past the end of the buffer when a
 debug message is long

---
 src/logging.c | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index cc3d30d..13f79d7 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -20,6 +20,8 @@
 #include "config.h"
 
 #include <stdarg.h>
+#include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "regulex.h"
@@ -118,14 +120,41 @@ int is_debug_activated()
 
 
 
+/**
+ * Format a log message of any length.
+ * @param format the printf format string
+ * @param va the arguments
+ * @return the formatted message, for which new memory was allocated, or NULL if that failed
+ */
+static char *format_msg(const char *format, va_list va)
+{
+    va_list va_measure;
+    va_copy(va_measure, va);
+    int len = vsnprintf(NULL, 0, format, va_measure);
+    va_end(va_measure);
+    if (len < 0) {
+        return NULL;
+    }
+
+    char *msg = (char *) malloc((size_t) len + 1);
+    if (msg != NULL) {
+        vsnprintf(msg, (size_t) len + 1, format, va);
+    }
+    return msg;
+}
+
+
+
 void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_msg(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         char *short_module = shorten_module(module);
         bx_fprintf(stderr, "[%-9s] %s", short_module, msg);
@@ -139,11 +168,13 @@ void log_debug(const char *module, log_area_t log_area, const char *format, ...)
 void log_debug_cont(log_area_t log_area, const char *format, ...)
 {
     if (is_debug_logging(log_area)) {
-        char *msg = (char *) malloc(1024);
         va_list va;
         va_start(va, format);
-        vsprintf(msg, format, va);
+        char *msg = format_msg(format, va);
         va_end(va);
+        if (msg == NULL) {
+            return;
+        }
 
         bx_fprintf(stderr, "%s", msg);
         BFREE(msg);
-- 
2.43.0


From 3343913b4362a27b661b8851e913d6db610508bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:28 +0000
Subject: [PATCH 18/26] fix: do not lose the end of a line after an ESC
 character which does not start an escape sequence

---
 src/unicode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/unicode.c b/src/unicode.c
index b23e810..14dddb5 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -194,6 +194,10 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
                 ansipos = 0;
                 break;
             }
+        } else if (ansipos == 1) {
+            /* Not an escape sequence, just an ESC char. It must not swallow the char after it, which is visible. */
+            rest--;
+            break;
         } else {
             break;
         }
-- 
2.43.0


From 5f02d9ca9f0dc0d52f49da18271d8869f866289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 19/26] fix: do not write past the end of a string when a
 configuration file contains NUL bytes

---
 src/lexer.l | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lexer.l b/src/lexer.l
index e8f14f1..d3a324e 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -156,7 +156,6 @@ PFILENAME [^\r\n]+
      * Strings  --  first match everything starting from a potential string delimiter until the end of the line. We
      * will give back what we don't need and also detect unterminated strings. Strings always end on the same line.
      */
-    int rest_len = yyleng - 1;           /* length of string pointed to by p */
     int qcnt = 0;                        /* esc char count in current string */
 
     if (yytext[0] != yyextra->sdel) {
@@ -169,6 +168,7 @@ PFILENAME [^\r\n]+
         exit (EXIT_FAILURE);
     }
     char *p = str;
+    size_t rest_len = strlen(str);       /* length of string pointed to by p (yyleng may be more, if there is a NUL) */
 
     while (*p) {
         if (*p == yyextra->sesc) {
@@ -256,6 +256,14 @@ PFILENAME [^\r\n]+
     len = p - yytext;                    /* yyless(n): push back all but the first n */
     yyless (len);                        /* allow the lexer to return YENDSAMPLE */
 
+    if (strlen(sample) < len) {
+        if ((yyextra->yyerrcnt)++ < 5) {
+            yyerror(NULL, "SAMPLE block must not contain NUL characters");
+        }
+        BFREE(sample);
+        return YUNREC;
+    }
+
     sample[len] = '\n';                  /* replace 'e' with newline */
     btrim(sample, &len);
     if (len > 0) {
-- 
2.43.0


From dc704bc4935f31158b4fbaf89263710bba2e5b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 20/26] fix: skip the design instead of crashing when a
 configuration file contains illegal characters

---
 src/lexer.l | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/lexer.l b/src/lexer.l
index d3a324e..6f946c1 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -188,7 +188,7 @@ PFILENAME [^\r\n]+
             yylval->s = bxs_from_unicode(utf8);
             BFREE(utf8);
             BFREE(str);
-            return STRING;
+            return yylval->s != NULL ? STRING : YUNREC;   /* NULL if there was an illegal character */
         }
         --rest_len;
         ++p;
@@ -210,12 +210,15 @@ PFILENAME [^\r\n]+
 <PARENT>{PFILENAME} {
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     bxstr_t *bxstr = bxs_from_unicode(utf8);
-    yylval->s = bxs_trim(bxstr);
-
     BFREE(utf8);
-    bxs_free(bxstr);
 
     BEGIN(INITIAL);
+    if (bxstr == NULL) {
+        return YUNREC;    /* there was an illegal character */
+    }
+    yylval->s = bxs_trim(bxstr);
+    bxs_free(bxstr);
+
     report_state("FILENAM", bxs_to_output(yylval->s), "INITIAL");
     return FILENAME;
 }
@@ -270,6 +273,12 @@ PFILENAME [^\r\n]+
         uint32_t *utf8 = u32_strconv_from_arg(sample, CONFIG_FILE_ENCODING);
         uint32_t *nl = u32_strconv_from_arg("\n", CONFIG_FILE_ENCODING);
         bxstr_t *bxstr = bxs_from_unicode(utf8);
+        if (bxstr == NULL) {
+            BFREE(nl);
+            BFREE(utf8);
+            BFREE(sample);
+            return YUNREC;    /* there was an illegal character */
+        }
         bxstr_t *bxstr2 = bxs_rtrim(bxstr);
         bxs_free(bxstr);
         bxstr = bxs_strcat(bxstr2, nl);
@@ -412,8 +421,8 @@ PFILENAME [^\r\n]+
     uint32_t *utf8 = u32_strconv_from_arg(yytext, CONFIG_FILE_ENCODING);
     yylval->s = bxs_from_unicode(utf8);
     if (yylval->s == NULL) {
-        perror (PROJECT);
-        exit (EXIT_FAILURE);
+        BFREE(utf8);
+        return YUNREC;    /* there was an illegal character */
     }
     if (is_debug_logging(LEXER)) {
         char *out_utf8 = u32_strconv_to_output(utf8);
-- 
2.43.0


From c3df10311540c63eba69596a937a9085fe0be4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 21/26] fix: do not count lines as both top and bottom of the
 box when removing a damaged box

---
 src/remove.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/remove.c b/src/remove.c
index 837b1ab..ecdb380 100644
--- a/src/remove.c
+++ b/src/remove.c
@@ -1154,6 +1154,12 @@ int remove_box()
     else {
         ctx->bottom_start_idx = find_bottom_side(ctx);
     }
+    if (ctx->bottom_start_idx < ctx->top_end_idx) {
+        ctx->bottom_start_idx = ctx->top_end_idx;   /* a line which belongs to the top cannot be part of the bottom */
+    }
+    if (ctx->bottom_end_idx < ctx->bottom_start_idx) {
+        ctx->bottom_end_idx = ctx->bottom_start_idx;
+    }
     log_debug(__FILE__, MAIN, "ctx->bottom_start_idx = %d, ctx->bottom_end_idx = %d\n", (int) ctx->bottom_start_idx,
             (int) ctx->bottom_end_idx);
     if (ctx->bottom_start_idx > ctx->top_end_idx) {
-- 
2.43.0


From 3de15b1500f44bf2da9f5f9cc421e1396a8de5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 22/26] fix: fail with a message instead of looping forever
 when opposite sides of a design cannot be made equally long

---
 src/generate.c | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ea937d7..5167c98 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -34,6 +34,29 @@
 
 
 
+/**
+ * Determine how many steps the assembly of two opposite sides can take after both sides have reached their target size.
+ * In each step, one shape gets added to the side which is currently behind. Since their difference never exceeds the
+ * size of one shape, the situation must start to repeat after this number of steps. When that happens, the two sides
+ * will never become equally long.
+ * @param sarr all shapes of the current design
+ * @param side1 one side
+ * @param side2 the opposite side
+ * @param horizontal flag indicating if the sides are horizontal
+ * @return the number of steps
+ */
+static size_t max_assembly_steps(const sentry_t *sarr, const shape_t *side1, const shape_t *side2, int horizontal)
+{
+    size_t result = 0;
+    for (int i = 1; i < SHAPES_PER_SIDE - 1; ++i) {
+        result += horizontal ? sarr[side1[i]].width : sarr[side1[i]].height;
+        result += horizontal ? sarr[side2[i]].width : sarr[side2[i]].height;
+    }
+    return 8 * (result + 1);
+}
+
+
+
 static int horiz_precalc(const sentry_t *sarr,
                          size_t *topiltf, size_t *botiltf, size_t *hspace)
 /*
@@ -105,6 +128,7 @@ static int horiz_precalc(const sentry_t *sarr,
 
     btoggle = 1;                         /* can be 1 or 3 */
     ttoggle = 1;
+    size_t steps_left = max_assembly_steps(sarr, north_side, south_side, 1);
 
     do {
         shape_t *seite;                  /* ptr to north_side or south_side */
@@ -216,6 +240,11 @@ static int horiz_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in horiz_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (twidth >= target_width && bwidth >= target_width && steps_left-- == 0) {
+            bx_fprintf(stderr, "%s: the top and bottom sides of the design cannot be made equally long\n", PROJECT);
+            return 1;
+        }
     } while (twidth != bwidth || twidth < target_width || bwidth < target_width);
 
     *hspace = twidth;                    /* return either one */
@@ -289,6 +318,7 @@ static int vert_precalc(const sentry_t *sarr,
 
     rtoggle = 1;                         /* can be 1 or 3 */
     ltoggle = 1;
+    size_t steps_left = max_assembly_steps(sarr, west_side, east_side, 0);
 
     do {
         shape_t *seite;                  /* ptr to west_side or east_side */
@@ -400,6 +430,11 @@ static int vert_precalc(const sentry_t *sarr,
                 bx_fprintf(stderr, "%s: internal error in vert_precalc()\n", PROJECT);
                 return 1;
         }
+
+        if (lheight >= target_height && rheight >= target_height && steps_left-- == 0) {
+            bx_fprintf(stderr, "%s: the left and right sides of the design cannot be made equally long\n", PROJECT);
+            return 1;
+        }
     } while (lheight != rheight || lheight < target_height || rheight < target_height);
 
     *vspace = lheight;                   /* return either one */
-- 
2.43.0


From 741a1dbc0547ee3ea3662c88ad99c79a65eb52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 23/26] fix: reject padding and tab stop values that do not fit
 an int

-p a4294967297 was taken as a1, -p a-4294967295 as a1 and -t 4294967304
as 8, because the number was cut to an int before it was checked.
---
 src/cmdline.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cmdline.c b/src/cmdline.c
index 64393ef..7d8f7bc 100644
--- a/src/cmdline.c
+++ b/src/cmdline.c
@@ -20,6 +20,7 @@
 #include "config.h"
 #include <errno.h>
 #include <getopt.h>
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include <strings.h>
@@ -367,11 +368,12 @@ static int padding(opt_t *result, char *optarg)
         }
         char c = *p;
         errno = 0;
-        int size = (int) strtol(p + 1, &p, 10);
-        if (errno || size < 0) {
+        long value = strtol(p + 1, &p, 10);
+        if (errno || value < 0 || value > INT_MAX) {
             errfl = 1;
             break;
         }
+        int size = (int) value;
         switch (c) {
             case 'a': case 'A':
                 result->padding[BTOP] = size;
@@ -524,12 +526,12 @@ static int debug_areas(opt_t *result, char *optarg)
 static int tab_handling(opt_t *result, char *optarg)
 {
     char *p;
-    int width = (int) strtol(optarg, &p, 10);
+    long width = strtol(optarg, &p, 10);
     if (width < 1 || width > MAX_TABSTOP) {
-        bx_fprintf(stderr, "%s: invalid tab stop distance -- %d\n", PROJECT, width);
+        bx_fprintf(stderr, "%s: invalid tab stop distance -- %ld\n", PROJECT, width);
         return 1;
     }
-    result->tabstop = width;
+    result->tabstop = (int) width;
 
     int errfl = 0;
     if (*p != '\0') {
-- 
2.43.0


From afa9deb505df780115788060fc880dbf616dd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:38 +0000
Subject: [PATCH 24/26] fix: do not read before the start of an empty line when
 removing or mending a box

---
 src/input.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input.c b/src/input.c
index ca6ad46..26d9ca5 100644
--- a/src/input.c
+++ b/src/input.c
@@ -196,11 +196,11 @@ static void trim_trailing_ws_carefully(uint32_t *mbtemp, size_t *len_chars)
 {
     if (opt.r) {
         /* remove only trailing line breaks, but keep the space */
-        if (is_char_at(mbtemp, *len_chars - 1, char_newline)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_newline)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-        if (is_char_at(mbtemp, *len_chars - 1, char_cr)) {
+        if (*len_chars > 0 && is_char_at(mbtemp, *len_chars - 1, char_cr)) {
             set_char_at(mbtemp, *len_chars - 1, char_nul);
             --(*len_chars);
         }
-- 
2.43.0


From 3d65acf4e892fe3b887938cb0b2b81545a4159a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 25/26] fix: end with a failure when text cannot be converted
 from or to the character encoding

---
 src/unicode.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/unicode.c b/src/unicode.c
index 14dddb5..d5366de 100644
--- a/src/unicode.c
+++ b/src/unicode.c
@@ -212,7 +212,11 @@ uint32_t *advance_next32(const uint32_t *s, size_t *invis)
 
 uint32_t *u32_strconv_from_input(const char *src)
 {
-    return u32_strconv_from_arg(src, encoding);
+    uint32_t *result = u32_strconv_from_arg(src, encoding);
+    if (result == NULL && src != NULL) {
+        exit(EXIT_FAILURE);    /* text which cannot be converted must not be dropped; already reported */
+    }
+    return result;
 }
 
 
@@ -244,7 +248,11 @@ uint32_t *u32_strconv_from_arg(const char *src, const char *sourceEncoding)
 
 char *u32_strconv_to_output(const uint32_t *src)
 {
-    return u32_strconv_to_arg(src, encoding);
+    char *result = u32_strconv_to_arg(src, encoding);
+    if (result == NULL && src != NULL) {
+        exit(EXIT_FAILURE);    /* text which cannot be converted must not be dropped; already reported */
+    }
+    return result;
 }
 
 
-- 
2.43.0


From e6ea62e187d31beabb867af7f6b0f136a3283962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:44 +0000
Subject: [PATCH 26/26] fix: keep diagnostics out of the output file when
 started with standard error closed

---
 src/boxes.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/boxes.c b/src/boxes.c
index f1b9c96..cda6da6 100644
--- a/src/boxes.c
+++ b/src/boxes.c
@@ -18,6 +18,8 @@
 #ifndef __MINGW32__
 #include <ncurses.h>
 #endif
+#include <errno.h>
+#include <fcntl.h>
 #include <locale.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -531,6 +533,25 @@ static void close_output()
 
 
 
+/**
+ * Make sure that file descriptor 2 is in use. If we are started with standard error closed, the output file could get
+ * that descriptor, and our diagnostics would end up in it.
+ */
+static void reserve_stderr()
+{
+    #ifndef __MINGW32__
+        if (fcntl(STDERR_FILENO, F_GETFD) == -1 && errno == EBADF) {
+            int fd = open("/dev/null", O_WRONLY);
+            if (fd != -1 && fd != STDERR_FILENO) {
+                dup2(fd, STDERR_FILENO);
+                close(fd);
+            }
+        }
+    #endif
+}
+
+
+
 /*       _\|/_
          (o o)
  +----oOO-{_}-OOo------------------------------------------------------------+
@@ -544,6 +565,8 @@ int main(int argc, char *argv[])
     int saved_designheight;           /* opt.design->minheight backup, used for mending */
     design_t *saved_design;           /* the design which the two backups belong to */
 
+    reserve_stderr();
+
     if (atexit(close_output) != 0) {
         perror(PROJECT);
         return EXIT_FAILURE;
-- 
2.43.0

