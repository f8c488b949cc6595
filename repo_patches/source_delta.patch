From dfd2ebe4ee4fb31203410f715c8a10f05c641db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 01/35] fix: read unused random bytes when a read straddles the
 buffer end

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 2aa83a113d3e0e6c77bc9aa9db8ee2d22b8ba307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 02/35] fix: never use a randomness buffer that was only
 partially filled

---
 src/random/random.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..bca9244 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,17 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
 
     // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From ef68ce2d598da6b643bb5052c516cd96174853b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 03/35] fix: reject chacha20 keys and argon2 fields that do not
 fit their buffers

---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index bca9244..37efa26 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -111,6 +111,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -143,6 +146,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From d8424bf11c644d8f095799d7c67561d492cc2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 04/35] fix: an empty first argon2 field does not shift the
 following fields

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 37efa26..73d4d21 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -139,7 +139,6 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
         const char *end = &desc[16];
 
 #define PARSE_STRING(name) \
-        if(*end == ':') end++; \
         if(*end) { \
             start = end; \
             end = strchr(start, ':'); \
@@ -150,6 +149,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
                 return NULL; \
             } \
             memcpy(name, start, end - start); \
+            if(*end == ':') end++; \
         }
 
         PARSE_STRING(master_pass)
-- 
2.43.0


From d88019aaee788fc7084ed055220c4c197a668521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 05/35] fix: wipe random source state and derived key material
 after use

---
 src/random/deterministic.c | 6 +++++-
 src/random/xorshift.c      | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 273e30a..f50c2b6 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -30,6 +30,7 @@ passgen_random_chacha20_read_short(void *context_raw, void *dest, size_t size) {
 
     memcpy(dest, &block[context->offset % CHACHA20_BLOCK_SIZE], size);
     context->offset += size;
+    PASSGEN_CLEAR(&block);
     return size;
 }
 
@@ -146,5 +147,8 @@ passgen_random *passgen_random_chacha20_argon2_open(
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
-    return passgen_random_chacha20_open(random, hash, "passgen");
+    random = passgen_random_chacha20_open(random, hash, "passgen");
+    passgen_wipe(hash, hash_size);
+
+    return random;
 }
diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..5c8980f 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From 5b0b0e30aa717d83560bc9f556fbf49a4f15dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 06/35] fix: count the choice made for optional items in the
 entropy

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..72678e8 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // deciding this is a choice between two outcomes.
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From 48ba2a6f01b12295b92e3ff5d640a6cd2d92062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 07/35] fix: report word lists that cannot be read instead of
 using them

---
 src/generate.c |  7 +++++--
 src/wordlist.c | 13 ++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 72678e8..ddaf271 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -364,7 +364,7 @@ static int passgen_generate_special_markov(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
@@ -402,11 +402,14 @@ static int passgen_generate_special_wordlist(
     }
     passgen_wordlist *wordlist = entry->value;
     if(!wordlist->parsed) {
-        passgen_wordlist_parse(wordlist);
+        try(passgen_wordlist_parse(wordlist));
     }
 
     // pick word at random
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
+    if(!word) {
+        return -1;
+    }
 
     // UTF8-decode word and write codepoints
     // TODO: handle longer words
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..cb81779 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -17,15 +17,19 @@ void passgen_wordlist_init(
     wordlist->parsed_markov = false;
     wordlist->file = file;
     wordlist->should_close_file = true;
+    wordlist->data = NULL;
+    wordlist->size = 0;
+    wordlist->words = NULL;
+    wordlist->count = 0;
     passgen_markov_init(&wordlist->markov, markov_length);
 }
 
 int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed);
-    wordlist->parsed = true;
     try(passgen_wordlist_read(wordlist, wordlist->file));
     wordlist->file = NULL;
     passgen_wordlist_scan(wordlist);
+    wordlist->parsed = true;
     return 0;
 }
 
@@ -65,8 +69,9 @@ void passgen_wordlist_load(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist_init(wordlist, file, markov_length);
-    passgen_wordlist_parse(wordlist);
-    passgen_wordlist_parse_markov(wordlist);
+    if(0 == passgen_wordlist_parse(wordlist)) {
+        passgen_wordlist_parse_markov(wordlist);
+    }
 }
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
@@ -82,6 +87,8 @@ int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     // read in entire wordlist
     size_t read = fread(wordlist->data, 1, wordlist->size, file);
     if(read != wordlist->size) {
+        free(wordlist->data);
+        wordlist->data = NULL;
         return 1;
     }
 
-- 
2.43.0


From d6dcfc40a1dba97ee3650594f06c654c617da049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 08/35] fix: fail when the size of a word list cannot be
 determined

---
 src/wordlist.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index cb81779..5126146 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -77,12 +77,18 @@ void passgen_wordlist_load(
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     // get size of file
     fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
+    long size = ftell(file);
     fseek(file, 0, SEEK_SET);
+    if(size < 0) {
+        return 1;
+    }
+    wordlist->size = size;
 
     // allocate buffer to hold entire file and read in (plus zero termination)
     wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
+    if(!wordlist->data) {
+        return 1;
+    }
 
     // read in entire wordlist
     size_t read = fread(wordlist->data, 1, wordlist->size, file);
-- 
2.43.0


From 333eba219c0ae104fb69e2ea0fcafea5249847a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:33 +0000
Subject: [PATCH 09/35] fix: there is no random word in an empty word list

---
 src/wordlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wordlist.c b/src/wordlist.c
index 5126146..cc734f6 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -139,7 +139,7 @@ void passgen_wordlist_scan(passgen_wordlist *wordlist) {
 
 const char *
 passgen_wordlist_random(passgen_wordlist *wordlist, passgen_random *random) {
-    if(!wordlist->parsed) {
+    if(!wordlist->parsed || !wordlist->count) {
         return NULL;
     }
     size_t index = passgen_random_u64_max(random, wordlist->count);
-- 
2.43.0


From af86c1fd1f2e17014bb2d3657551eb775a32be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 10/35] fix: nothing can be generated from the markov chain of
 an empty word list

---
 src/generate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index ddaf271..2fc49be 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -369,6 +369,9 @@ static int passgen_generate_special_markov(
     if(!wordlist->parsed_markov) {
         passgen_wordlist_parse_markov(wordlist);
     }
+    if(!passgen_wordlist_count(wordlist)) {
+        return -1;
+    }
     passgen_markov *markov = &wordlist->markov;
     uint32_t word[128];
     size_t pos = markov->level;
-- 
2.43.0


From 8fcfab0b1d5ee3710772743504a73e617b16c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:55 +0000
Subject: [PATCH 11/35] fix: fail when a markov word does not fit the buffer

---
 src/generate.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index 2fc49be..89ff7e1 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -375,9 +375,16 @@ static int passgen_generate_special_markov(
     passgen_markov *markov = &wordlist->markov;
     uint32_t word[128];
     size_t pos = markov->level;
+    if(pos >= sizeof(word) / sizeof(word[0])) {
+        return -1;
+    }
     memset(word, 0, pos * sizeof(uint32_t));
     double *entropy = context->entropy ? &*context->entropy : NULL;
     do {
+        if(pos == sizeof(word) / sizeof(word[0])) {
+            // word does not fit.
+            return -1;
+        }
         word[pos] = passgen_markov_generate(
             markov,
             &word[pos - markov->level],
-- 
2.43.0


From 5c61e65d7158bf4e9d9c519ef4a9c1350b79f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 12/35] fix: reject unicode escapes beyond the last code point

---
 src/parser/token.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..79e7384 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -114,7 +114,16 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
-        token->codepoint = parser->data.unicode_payload.codepoint;
+        uint32_t payload = parser->data.unicode_payload.codepoint;
+
+        // make sure this is a code point.
+        if(payload > 0x10FFFF) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD;
+
+            return;
+        }
+
+        token->codepoint = payload;
         parser->state = PASSGEN_TOKEN_INIT;
 
         return;
-- 
2.43.0


From d80f0b67062792122e44a10d134dc1de5ba11909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 13/35] fix: reject UTF-8 input that ends in the middle of a
 sequence

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..4e83f22 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -82,6 +82,11 @@ int passgen_utf8_decode(
         return PASSGEN_UTF8_OUTPUT_SIZE;
     }
 
+    // input ends in the middle of a sequence.
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     return PASSGEN_UTF8_SUCCESS;
 }
 
-- 
2.43.0


From 3eff8f0971e87423539a6660bef477cab1ba5dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 14/35] fix: refuse to encode surrogates as UTF-8

---
 src/parser/parser.c | 11 ++++++++---
 src/util/utf8.c     |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..01e24d8 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -513,9 +513,14 @@ int passgen_parse_special_name(
     if(token->codepoint == '}') {
         passgen_stack_pop(&parser->state, NULL);
     } else {
-        passgen_pattern_special_push(
-            state->data.special.special,
-            token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT);
+        uint32_t codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
+
+        // surrogates cannot be part of a name, it is stored as UTF-8.
+        if(0xD800 <= codepoint && codepoint <= 0xDFFF) {
+            return -1;
+        }
+
+        passgen_pattern_special_push(state->data.special.special, codepoint);
     }
 
     return 0;
diff --git a/src/util/utf8.c b/src/util/utf8.c
index 4e83f22..1a4369c 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -113,6 +113,11 @@ int passgen_utf8_encode_codepoint(uint8_t *out, uint32_t utf) {
         return 2;
     }
 
+    if(0xD800 <= utf && utf <= 0xDFFF) {
+        // surrogates are not characters
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     if(utf <= 0xFFFF) {
         // 3-byte unicode
         out[0] = (uint8_t) (((utf >> 12) & 0x0F) | 0xE0);
-- 
2.43.0


From 7ea40a21357ce83d37e36f06690f3bcf90a6dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 15/35] fix: do not write past UTF-8 output buffers of less
 than four bytes

---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 1a4369c..dd4780b 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -146,7 +146,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && (out_len > 4) && (*out_pos < (out_len - 4))) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From 44c3bc7a127bb8b141042bcdbc19e28c980ec518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 16/35] fix: escape all control characters in JSON output

---
 src/generate.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/generate.c b/src/generate.c
index 89ff7e1..9421f9c 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -156,7 +156,7 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
+    unsigned char buffer[6] = {'\\', 0};
     size_t bytes = 2;
     switch(codepoint) {
         case '"':
@@ -181,6 +181,15 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
+            if(codepoint < 0x20) {
+                // all other control characters need to be escaped by value.
+                memcpy(&buffer[1], "u00", 3);
+                buffer[4] = '0' + (codepoint >> 4);
+                buffer[5] = "0123456789abcdef"[codepoint & 0xf];
+                bytes = 6;
+                break;
+            }
+
             bytes = passgen_utf8_encode_codepoint(
                 (uint8_t *) &buffer[0],
                 codepoint);
-- 
2.43.0


From 95a28ecf181b86dc2e6fde312afec73ff9ce01ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 17/35] fix: code points that share their low byte with syntax
 are text

---
 src/parser/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 01e24d8..bf50b83 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -254,7 +254,7 @@ int passgen_parse_group(
                 // special token
                 special = passgen_pattern_segment_new_special(
                     state->data.group.segment);
-                passgen_pattern_special_init(special, (char) codepoint);
+                passgen_pattern_special_init(special, codepoint);
                 passgen_parser_state_push_special(parser, special);
                 return 0;
             default:
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From 092b65308ecdfa27098f51e3b9801566f197e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 18/35] fix: a recycled segment counts towards the multiplier
 sum

---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index bf50b83..c2b3fe3 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -273,6 +273,7 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum += 1;
                 }
                 return 0;
             case ')':
-- 
2.43.0


From 5f6473baa5b376008468bdb7ef24afd1cbe03d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:04 +0000
Subject: [PATCH 19/35] fix: a repeated multiplier replaces the previous one in
 the sum

---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index c2b3fe3..f0481d0 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -309,8 +309,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 654003f840b06601f414093a8d860935ae7b5cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 20/35] fix: reject multipliers and repetitions that overflow

---
 src/parser/parser.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index f0481d0..eb39c71 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -264,6 +264,10 @@ int passgen_parse_group(
     } else {
         switch(codepoint) {
             case '|':
+                // the next segment would overflow the sum
+                if(state->data.group.group->multiplier_sum == SIZE_MAX) {
+                    return -1;
+                }
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
                     state->data.group.segment =
@@ -425,6 +429,11 @@ int passgen_parse_multiplier(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        if(*state->data.multiplier.sum >
+           SIZE_MAX - *state->data.multiplier.value) {
+            return -1;
+        }
+
         *state->data.multiplier.sum += *state->data.multiplier.value;
         passgen_stack_pop(&parser->state, NULL);
         return 0;
@@ -433,6 +442,10 @@ int passgen_parse_multiplier(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(*state->data.multiplier.value > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         *state->data.multiplier.value *= 10;
         *state->data.multiplier.value += digit;
 
@@ -462,6 +475,10 @@ int passgen_parse_repeat(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(state->data.repeat.repeat->min > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         state->data.repeat.repeat->min *= 10;
         state->data.repeat.repeat->min += digit;
 
@@ -483,6 +500,10 @@ int passgen_parse_repeat_range(
     if(token->codepoint >= '0' && token->codepoint <= '9') {
         uint8_t digit = token->codepoint - '0';
 
+        if(state->data.repeat.repeat->max > (SIZE_MAX - digit) / 10) {
+            return -1;
+        }
+
         state->data.repeat.repeat->max *= 10;
         state->data.repeat.repeat->max += digit;
 
-- 
2.43.0


From 5df3f892ea85935b103f93cfaa933e51beab6cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 21/35] fix: reject repetitions whose maximum is below the
 minimum

---
 src/parser/parser.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index eb39c71..ccc2e4b 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -493,6 +493,13 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // the number of choices is the difference plus one
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min ||
+           state->data.repeat.repeat->max - state->data.repeat.repeat->min ==
+               SIZE_MAX) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
-- 
2.43.0


From 4f95e4830fdf0f8518fb337b560b6a21d3a6a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 22/35] fix: an escaped end of a range is a code point

---
 src/parser/parser.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index ccc2e4b..3f74ac5 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -414,11 +414,20 @@ int passgen_parse_set_range(
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    uint32_t codepoint = token->codepoint;
+    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        // like at the start of a range, only a dash can be escaped.
+        codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+        if(codepoint != '-') {
+            return -1;
+        }
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From 65687095800021a22c5f7819b60dbffe220df872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 23/35] fix: modifiers after an empty group do not apply to the
 item before it

---
 src/parser/parser.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 3f74ac5..c596d91 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,10 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // modifiers still apply to a group that turned out to be empty
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From 379f7050e5f36dfd3c9379e53ba0fd3e868bbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 24/35] fix: passgen_parser_unicode reports invalid and
 unfinished escapes

---
 src/parser/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index c596d91..a8f72d2 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -597,6 +597,10 @@ int passgen_parser_unicode(
     for(size_t pos = 0; pos < length; pos++) {
         ret = passgen_token_parse(&token_parser, &token, 1, data[pos]);
 
+        if(ret < 0) {
+            return ret;
+        }
+
         if(ret == PASSGEN_TOKEN_INIT) {
             ret = passgen_parse_token(parser, &token);
 
@@ -606,5 +610,10 @@ int passgen_parser_unicode(
         }
     }
 
+    // the data ends in the middle of an escape
+    if(token_parser.state != PASSGEN_TOKEN_INIT) {
+        return -1;
+    }
+
     return 0;
 }
-- 
2.43.0


From 4168ad5c0c2e663bacbf075fa19b0c00a6a5c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 25/35] fix: reject special items without a name

---
 src/parser/parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index a8f72d2..22454c6 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -553,10 +553,20 @@ int passgen_parse_special_name(
     (void) parser;
 
     if(token->codepoint == '}') {
+        // there is nothing to look up without a name
+        if(!state->data.special.special->parameters_len) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
     } else {
         uint32_t codepoint = token->codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT;
 
+        // the end of the string cannot be part of a name
+        if(!codepoint) {
+            return -1;
+        }
+
         // surrogates cannot be part of a name, it is stored as UTF-8.
         if(0xD800 <= codepoint && codepoint <= 0xDFFF) {
             return -1;
-- 
2.43.0


From 08e61331e0098a32b8925f82e914d8df24e2403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 26/35] fix: an escaped closing bracket is a member of a set

---
 src/parser/parser.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 22454c6..80ab18b 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -388,9 +388,11 @@ int passgen_parse_set(
 
     uint32_t codepoint = token->codepoint;
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // no reason to expect an escaped token here unless it's a dash.
+        // no reason to expect an escaped token here unless it's a dash or the
+        // bracket that would otherwise close the set.
         switch(codepoint & ~PASSGEN_TOKEN_ESCAPED_BIT) {
             case '-':
+            case ']':
                 codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
                 break;
             default:
@@ -419,9 +421,10 @@ int passgen_parse_set_range(
 
     uint32_t codepoint = token->codepoint;
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
-        // like at the start of a range, only a dash can be escaped.
+        // like at the start of a range, only a dash or a closing bracket can
+        // be escaped.
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        if(codepoint != '-') {
+        if(codepoint != '-' && codepoint != ']') {
             return -1;
         }
     }
-- 
2.43.0


From 1817569989cbb8ba57162900c1f7cf4aacccb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 27/35] fix: inserting a key that is in its second position
 replaces it

---
 src/container/hashmap.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..0d5859d 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,6 +125,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // an entry for the same key, in either of its positions, is replaced.
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
@@ -134,12 +143,7 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
     } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
+        if(passgen_hashmap_move(map, hash)) {
             map->data[hash].key = key;
             map->data[hash].value = value;
             map->len += 1;
@@ -154,12 +158,7 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         map->len += 1;
         return (passgen_hashmap_entry){NULL, NULL};
     } else {
-        if(map->context->equal(map, map->data[hash].key, key)) {
-            passgen_hashmap_entry entry = map->data[hash];
-            map->data[hash].key = key;
-            map->data[hash].value = value;
-            return entry;
-        } else if(passgen_hashmap_move(map, hash)) {
+        if(passgen_hashmap_move(map, hash)) {
             map->data[hash].key = key;
             map->data[hash].value = value;
             map->len += 1;
-- 
2.43.0


From f0a705d201fdd72409165bc43519af6309001406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 28/35] fix: removing from an empty hashmap finds nothing

---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index 0d5859d..c2d9fe5 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -172,6 +172,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From cc146586cd524db75c0bdc3ced212fe4c18048e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 29/35] fix: refuse markov lengths that do not fit into a byte

---
 src/cli/passgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..8a2173b 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -341,7 +341,8 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                // markov chains store their length in a byte
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From fe971f5b00a91bad9238a60e85a5a7e17adc0bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 30/35] fix: return the documented status for an invalid
 randomness source

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 8a2173b..7c56619 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -41,7 +41,7 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
-        return 1;
+        return PASSGEN_ERROR_RANDOM_ALLOC;
     }
 
     return 0;
-- 
2.43.0


From 248a519d9a2e0eecef5a09dbc65b6b1f490481eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 31/35] fix: leave room for the terminator of a large
 configuration file

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 7c56619..27efab4 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -523,7 +523,7 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
+    char *config = malloc(10240 + 1);
     size_t read = fread(config, 1, 10240, file);
     config[read] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
-- 
2.43.0


From c1eccc086d2097afb42266b30c27684c536af5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 32/35] fix: stop at the end of the configuration when its last
 line is unterminated

---
 src/cli/passgen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 27efab4..7b8381e 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -533,7 +533,9 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
 
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
     // TODO: this code is a mess.
-    for(size_t pos = 0; data[pos]; pos++) {
+    // directives are terminated in place, so the end is determined up front.
+    size_t end = strlen(data);
+    for(size_t pos = 0; pos < end; pos++) {
         if(data[pos] == '#') {
             // skip this line, it's a comment
             while(data[pos] && data[pos] != '\n') pos++;
-- 
2.43.0


From 302169495bbac92cf00fde2866c3d21de716d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 33/35] fix: do not compare configuration directives beyond the
 end of the file

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 7b8381e..3edeb88 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -27,7 +27,7 @@
 #include "passgen/wordlist.h"
 
 #define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
+#define strprefix(prefix, str) strncmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
-- 
2.43.0


From e4c8a266416dec47bbf1898430756651c14acc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 34/35] fix: do not overflow the path of the user configuration
 file

---
 src/cli/passgen.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 3edeb88..96c7a20 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -597,17 +597,30 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
+    int length;
     char config_path[256];
     const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
     if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
+        length = snprintf(
+            config_path,
+            sizeof(config_path),
+            "%s/passgen.conf",
+            xdg_config_path);
     } else {
         const char *home = getenv("HOME");
         if(!home) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
+        length = snprintf(
+            config_path,
+            sizeof(config_path),
+            "%s/.config/passgen.conf",
+            home);
+    }
+    if(length < 0 || (size_t) length >= sizeof(config_path)) {
+        fprintf(stderr, "warning: path of configuration file is too long\n");
+        return 0;
     }
     FILE *file = fopen(config_path, "r");
     if(file) {
-- 
2.43.0


From 58e83a88f88452e2ce64afddca3aa9ac47dc0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:14 +0000
Subject: [PATCH 35/35] fix: report how far decoding got when the input is not
 valid UTF-8

---
 src/util/utf8.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index dd4780b..ccafa42 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -55,6 +55,8 @@ int passgen_utf8_decode(
             utf8_decode(&state, &codepoint, (*input)[input_offset]);
 
         if(status == UTF8_REJECT) {
+            *output += output_offset;
+            *input += input_offset;
             return PASSGEN_UTF8_INVALID_CHAR;
         }
 
-- 
2.43.0

