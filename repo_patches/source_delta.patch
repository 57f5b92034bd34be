From 0b1a808d6383ed8545a7532e1af819d463f526d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 01/45] fix: compare whole code points, not their low byte,
 when parsing groups

A character such as U+0128 has the same low byte as '(' and was treated as
that metacharacter.
---
 src/parser/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 715562f..bd138c7 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -237,7 +237,7 @@ int passgen_parse_group(
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
             case '(':
             case ')':
@@ -254,7 +254,7 @@ int passgen_parse_group(
                 // special token
                 special = passgen_pattern_segment_new_special(
                     state->data.group.segment);
-                passgen_pattern_special_init(special, (char) codepoint);
+                passgen_pattern_special_init(special, codepoint);
                 passgen_parser_state_push_special(parser, special);
                 return 0;
             default:
@@ -262,7 +262,7 @@ int passgen_parse_group(
                 return -1;
         }
     } else {
-        switch((char) codepoint) {
+        switch(codepoint) {
             case '|':
                 if(state->data.group.segment->multiplier > 0) {
                     // create new segment and parser state
-- 
2.43.0


From bb957c2c5cb426c520a32b47e616b36dc008fa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 02/45] fix: reject repeat ranges whose upper bound is below
 the lower one

The difference of the bounds underflowed and made generation repeat the item
an astronomical number of times.
---
 src/parser/parser.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index bd138c7..28b7174 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -474,6 +474,11 @@ int passgen_parse_repeat_range(
     passgen_token *token,
     passgen_parser_state *state) {
     if(token->codepoint == '}') {
+        // upper bound must not be smaller than lower bound
+        if(state->data.repeat.repeat->max < state->data.repeat.repeat->min) {
+            return -1;
+        }
+
         passgen_stack_pop(&parser->state, NULL);
         return 0;
     }
-- 
2.43.0


From 6614654a154c90b88a038caa1d6f16c913ac1e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:28 +0000
Subject: [PATCH 03/45] fix: do not apply the operator of an empty group to the
 item before it

a(){2} was parsed like a{2}, and (){2}a like {2}a.
---
 src/parser/parser.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 28b7174..d8006e0 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -233,7 +233,11 @@ int passgen_parse_group(
     passgen_pattern_special *special;
     passgen_pattern_item *item;
 
-    passgen_pattern_segment_clean(state->data.group.segment);
+    // a repeat or maybe that follows an empty group belongs to that group, so
+    // the group may only be removed when something else follows.
+    if(codepoint != '{' && codepoint != '?') {
+        passgen_pattern_segment_clean(state->data.group.segment);
+    }
 
     if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
         codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
-- 
2.43.0


From 8b2fd3c47a998025348e4ec1be8c18069661b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 04/45] fix: count the weight of an alternative that follows a
 zero-weight one

In {0}a|b|c the segment of a is recycled for b, but its weight was missing
from the sum, so that the last alternative was never chosen.
---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index d8006e0..9a8434a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -277,6 +277,7 @@ int passgen_parse_group(
                     // if the previous segment had a zero multiplier, recycle it
                     passgen_pattern_segment_free(state->data.group.segment);
                     passgen_pattern_segment_init(state->data.group.segment);
+                    state->data.group.group->multiplier_sum += 1;
                 }
                 return 0;
             case ')':
-- 
2.43.0


From 545c2f1c126b8d32445faf29d1fcaa9e292c6724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 05/45] fix: replace the weight of an alternative when it is
 given twice

{2}{3}a left the first weight in the sum, and generation could select a
segment behind the last one.
---
 src/parser/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 9a8434a..e83bb77 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -313,8 +313,9 @@ int passgen_parse_group(
                     passgen_parser_state_push_repeat(parser, &item->repeat);
                     return 0;
                 } else {
+                    state->data.group.group->multiplier_sum -=
+                        state->data.group.segment->multiplier;
                     state->data.group.segment->multiplier = 0;
-                    state->data.group.group->multiplier_sum -= 1;
                     passgen_parser_state_push_multiplier(
                         parser,
                         &state->data.group.segment->multiplier,
-- 
2.43.0


From 75ac0c60c8021deb783e388c4acb6ef2accd018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 06/45] fix: handle escaped tokens at the end of a set range

[+-\-] used the escape marker as part of the code point, which created a range
of a billion code points.
---
 src/parser/parser.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index e83bb77..8766716 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -410,15 +410,25 @@ int passgen_parse_set_range(
     passgen_token *token,
     passgen_parser_state *state) {
     (void) parser;
-    if(token->codepoint == ']') {
+    uint32_t codepoint = token->codepoint;
+
+    if(codepoint == ']') {
         return -1;
     }
 
-    if(token->codepoint < state->data.set.range->start) {
+    // as in the rest of the set, the only escaped token allowed is a dash.
+    if(codepoint & PASSGEN_TOKEN_ESCAPED_BIT) {
+        codepoint &= ~PASSGEN_TOKEN_ESCAPED_BIT;
+        if(codepoint != '-') {
+            return -1;
+        }
+    }
+
+    if(codepoint < state->data.set.range->start) {
         return -1;
     }
 
-    state->data.set.range->end = token->codepoint;
+    state->data.set.range->end = codepoint;
     state->type = PASSGEN_PARSER_SET;
 
     return 0;
-- 
2.43.0


From b951978e3fb45bd028a266884aa7536ce3c653a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 07/45] fix: reject repeat counts and weights that are too
 large

They wrapped around silently, so that a{18446744073709551617} was a{1} and
a{0,18446744073709551615} drew from an empty range.
---
 src/parser/parser.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index 8766716..060481e 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -434,6 +434,15 @@ int passgen_parse_set_range(
     return 0;
 }
 
+// add a decimal digit to a number, making sure that it does not get too large
+// (such that sums and differences of these numbers cannot overflow).
+static int parse_digit(size_t *value, uint32_t codepoint) {
+    *value *= 10;
+    *value += codepoint - '0';
+
+    return *value > UINT32_MAX ? -1 : 0;
+}
+
 int passgen_parse_multiplier(
     passgen_parser *parser,
     passgen_token *token,
@@ -445,12 +454,7 @@ int passgen_parse_multiplier(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        *state->data.multiplier.value *= 10;
-        *state->data.multiplier.value += digit;
-
-        return 0;
+        return parse_digit(state->data.multiplier.value, token->codepoint);
     }
 
     return -1;
@@ -474,12 +478,7 @@ int passgen_parse_repeat(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->min *= 10;
-        state->data.repeat.repeat->min += digit;
-
-        return 0;
+        return parse_digit(&state->data.repeat.repeat->min, token->codepoint);
     }
 
     return -1;
@@ -500,12 +499,7 @@ int passgen_parse_repeat_range(
     }
 
     if(token->codepoint >= '0' && token->codepoint <= '9') {
-        uint8_t digit = token->codepoint - '0';
-
-        state->data.repeat.repeat->max *= 10;
-        state->data.repeat.repeat->max += digit;
-
-        return 0;
+        return parse_digit(&state->data.repeat.repeat->max, token->codepoint);
     }
 
     return -1;
-- 
2.43.0


From e2e86ad3d0ee96e300fb0b99ebb53f58fd7aacb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:36 +0000
Subject: [PATCH 08/45] fix: reject unicode escapes beyond U+10FFFF

---
 src/parser/token.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/token.c b/src/parser/token.c
index a032cda..a1d0713 100644
--- a/src/parser/token.c
+++ b/src/parser/token.c
@@ -114,6 +114,13 @@ static inline void token_parse_unicode_payload(
     // once we read the closing brace, the payload is over and we can emit the
     // token.
     if(codepoint == '}') {
+        // make sure that this is a valid codepoint.
+        if(parser->data.unicode_payload.codepoint > 0x10FFFF) {
+            parser->state = PASSGEN_TOKEN_ERROR_UNICODE_PAYLOAD;
+
+            return;
+        }
+
         token->codepoint = parser->data.unicode_payload.codepoint;
         parser->state = PASSGEN_TOKEN_INIT;
 
-- 
2.43.0


From 94988f706f62a57932657fbe1b653be74c320a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 09/45] fix: reject UTF-8 input that ends in the middle of a
 character

---
 src/util/utf8.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 7d7cac5..2f3c756 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -75,6 +75,11 @@ int passgen_utf8_decode(
         input_offset += 1;
     }
 
+    // input ended in the middle of a multi-byte sequence.
+    if(state != UTF8_ACCEPT) {
+        return PASSGEN_UTF8_INVALID_CHAR;
+    }
+
     *output += output_offset;
     *input += input_offset;
 
-- 
2.43.0


From e2825df3152678d0a1ffd92a3f119c49430e2608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 10/45] fix: do not write out of bounds when encoding UTF-8
 into a tiny buffer

---
 src/util/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/utf8.c b/src/util/utf8.c
index 2f3c756..c925cf5 100644
--- a/src/util/utf8.c
+++ b/src/util/utf8.c
@@ -141,7 +141,7 @@ int passgen_utf8_encode(
     const uint32_t *in,
     size_t in_len,
     size_t *in_pos) {
-    while((*in_pos < in_len) && (*out_pos < (out_len - 4))) {
+    while((*in_pos < in_len) && ((*out_pos + 4) < out_len)) {
         int ret = passgen_utf8_encode_codepoint(&out[*out_pos], in[*in_pos]);
         if(ret < 0) {
             return ret;
-- 
2.43.0


From 30987cae990907abce7f88d45013fcb0fad30321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:50 +0000
Subject: [PATCH 11/45] fix: count the decision on an optional item in the
 entropy

---
 src/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate.c b/src/generate.c
index e6dacb6..39715ee 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -456,6 +456,11 @@ static int passgen_generate_item(
     // if it is a maybe (has a question mark following it), decide first if we
     // want to emit it or not.
     if(item->maybe) {
+        // both outcomes are equally likely
+        if(context->entropy) {
+            *context->entropy *= 2;
+        }
+
         if(!passgen_random_bool(context->env->random)) {
             return 0;
         }
-- 
2.43.0


From f91a9a0e6ba6aac144c57d6d4f984b10ed7ecece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:55 +0000
Subject: [PATCH 12/45] fix: do not hand out random bytes twice when the buffer
 runs out

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index b2f601d..b37bba9 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -42,7 +42,7 @@ void passgen_random_read(passgen_random *random, void *data, size_t bytes) {
         } else {
             // if we don't have enough, copy over whatever we have and
             // reload.
-            memcpy(data, random->buffer, left);
+            memcpy(data, &random->buffer[random->pos], left);
             passgen_random_reload(random);
 
             // if there's more to be read, recurse.
-- 
2.43.0


From 3f0bceee17ecd5f6ccb47ac4eb73d9cc9a5994d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 13/45] fix: stop when the randomness source delivers too few
 bytes

---
 src/random/random.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index b37bba9..44f1926 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -21,10 +21,16 @@ void passgen_random_reload(passgen_random *random) {
     // read random data.
     size_t bytes =
         random->read(random->context, &random->buffer, sizeof(random->buffer));
-    (void) bytes;
-
     // make sure we've read enough.
-    passgen_assert(bytes == sizeof(random->buffer));
+    if(bytes != sizeof(random->buffer)) {
+        fprintf(
+            stderr,
+            "Error reading from randomness source: trying to read %zu "
+            "bytes but got %zu",
+            sizeof(random->buffer),
+            bytes);
+        abort();
+    }
 
     // reset position in ring buffer.
     random->pos = 0;
-- 
2.43.0


From 0876844a37e01841ae93ba6c0acedfb3ff757cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:17 +0000
Subject: [PATCH 14/45] fix: escape control characters in JSON output and
 report encoding errors

---
 src/generate.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 39715ee..08f6bf7 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -156,8 +156,8 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
         return -1;
     }
 
-    unsigned char buffer[4] = {'\\', 0};
-    size_t bytes = 2;
+    unsigned char buffer[6] = {'\\', 0};
+    int bytes = 2;
     switch(codepoint) {
         case '"':
             buffer[1] = '"';
@@ -181,13 +181,25 @@ passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
             buffer[1] = 't';
             break;
         default:
+            // other control characters may not appear in a JSON string.
+            if(codepoint < 0x20) {
+                const char *hex = "0123456789abcdef";
+                buffer[1] = 'u';
+                buffer[2] = '0';
+                buffer[3] = '0';
+                buffer[4] = hex[codepoint >> 4];
+                buffer[5] = hex[codepoint & 0xF];
+                bytes = 6;
+                break;
+            }
+
             bytes = passgen_utf8_encode_codepoint(
                 (uint8_t *) &buffer[0],
                 codepoint);
     }
 
     // check that no error happened.
-    if(!bytes) {
+    if(bytes < 0) {
         return -1;
     }
 
-- 
2.43.0


From b27b36a471da7a06287d967898de4c1cecb2730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 15/45] fix: do not store a key twice in the hash map

---
 src/container/hashmap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index a468123..e4bda9c 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -125,6 +125,15 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
         passgen_hashmap_realloc(map, hashmap_sizes[0]);
     }
 
+    // if the key exists already (in either location), replace that entry
+    passgen_hashmap_entry *existing = passgen_hashmap_lookup(map, key);
+    if(existing) {
+        passgen_hashmap_entry entry = *existing;
+        existing->key = key;
+        existing->value = value;
+        return entry;
+    }
+
     size_t hash;
 
     hash = passgen_hashmap_position(map, key, true);
-- 
2.43.0


From bff8257e8cb00a1c923d7da7b955bbc9d0e22cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 16/45] fix: allow removing from an empty hash map

---
 src/container/hashmap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/container/hashmap.c b/src/container/hashmap.c
index e4bda9c..c9a063c 100644
--- a/src/container/hashmap.c
+++ b/src/container/hashmap.c
@@ -182,6 +182,11 @@ passgen_hashmap_insert(passgen_hashmap *map, const void *key, void *value) {
 
 passgen_hashmap_entry
 passgen_hashmap_remove(passgen_hashmap *map, const void *key) {
+    // make sure the hashmap is not empty
+    if(!map->data) {
+        return (passgen_hashmap_entry){NULL, NULL};
+    }
+
     size_t hash;
 
     // if this key exists
-- 
2.43.0


From e234c2bd003de62983ab863d52004c5b8d1c30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:56 +0000
Subject: [PATCH 17/45] fix: generate words of any length from wordlists

---
 src/generate.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 08f6bf7..471b589 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -420,16 +420,25 @@ static int passgen_generate_special_wordlist(
     // pick word at random
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
 
-    // UTF8-decode word and write codepoints
-    // TODO: handle longer words
-    size_t word_len = strlen(word);
-    const char *word_pos = &word;
-    uint32_t codepoints[128];
-    uint32_t *codepoints_pos = &codepoints[0];
-    try(passgen_utf8_decode(&codepoints_pos, 128, NULL, word_pos, word_len));
-    for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
-        try(emit(context, codepoints[i]));
-    }
+    // UTF8-decode word and write codepoints, piece by piece
+    const unsigned char *word_end = word + strlen(word);
+    int ret;
+    do {
+        uint32_t codepoints[128];
+        uint32_t *codepoints_pos = &codepoints[0];
+        ret = passgen_utf8_decode(
+            &codepoints_pos,
+            128,
+            NULL,
+            &word,
+            word_end - word);
+        if(ret < 0) {
+            return ret;
+        }
+        for(int i = 0; &codepoints[i] < codepoints_pos; i++) {
+            try(emit(context, codepoints[i]));
+        }
+    } while(ret == PASSGEN_UTF8_OUTPUT_SIZE);
 
     if(context->entropy) {
         *context->entropy *= passgen_wordlist_count(wordlist);
-- 
2.43.0


From 4032b951eaaf4430b79ac936c33ec8f7a7301a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:01 +0000
Subject: [PATCH 18/45] fix: do not overflow the buffer when generating long
 markov words

---
 src/generate.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 471b589..43af710 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -382,23 +382,27 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
-    uint32_t word[128];
-    size_t pos = markov->level;
-    memset(word, 0, pos * sizeof(uint32_t));
+    // last characters that were generated
+    uint32_t word[256];
+    passgen_assert(markov->level <= 256);
+    memset(word, 0, sizeof(word));
     double *entropy = context->entropy ? &*context->entropy : NULL;
-    do {
-        word[pos] = passgen_markov_generate(
+    while(true) {
+        uint32_t next = passgen_markov_generate(
             markov,
-            &word[pos - markov->level],
+            &word[0],
             context->env->random,
             entropy);
-        pos++;
-    } while(word[pos - 1]);
+        if(!next) {
+            break;
+        }
 
-    pos = markov->level;
-    while(word[pos]) {
-        try(emit(context, word[pos]));
-        pos++;
+        try(emit(context, next));
+        memmove(
+            &word[0],
+            &word[1],
+            (markov->level - 1) * sizeof(uint32_t));
+        word[markov->level - 1] = next;
     }
 
     return 0;
-- 
2.43.0


From 49852515118fcf58ec7ead5bffdb7633ceced255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 19/45] fix: fail cleanly on wordlists that are empty or can
 not be read

---
 src/generate.c |  8 ++++++++
 src/wordlist.c | 19 +++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 43af710..c894da3 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -382,6 +382,9 @@ static int passgen_generate_special_markov(
         passgen_wordlist_parse_markov(wordlist);
     }
     passgen_markov *markov = &wordlist->markov;
+    if(markov->count == 0) {
+        return -1;
+    }
     // last characters that were generated
     uint32_t word[256];
     passgen_assert(markov->level <= 256);
@@ -421,6 +424,11 @@ static int passgen_generate_special_wordlist(
         passgen_wordlist_parse(wordlist);
     }
 
+    // can't pick a word if there are none (or the list could not be read)
+    if(passgen_wordlist_count(wordlist) == 0) {
+        return -1;
+    }
+
     // pick word at random
     const unsigned char *word = passgen_wordlist_random(wordlist, context->env->random);
 
diff --git a/src/wordlist.c b/src/wordlist.c
index cefec06..e60cae9 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -3,6 +3,7 @@
 #include "passgen/config.h"
 #include "passgen/util/utf8.h"
 #include "try.h"
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -13,8 +14,7 @@ void passgen_wordlist_init(
     passgen_wordlist *wordlist,
     FILE *file,
     size_t markov_length) {
-    wordlist->parsed = false;
-    wordlist->parsed_markov = false;
+    memset(wordlist, 0, sizeof(*wordlist));
     wordlist->file = file;
     wordlist->should_close_file = true;
     passgen_markov_init(&wordlist->markov, markov_length);
@@ -71,13 +71,20 @@ void passgen_wordlist_load(
 
 int passgen_wordlist_read(passgen_wordlist *wordlist, FILE *file) {
     // get size of file
-    fseek(file, 0, SEEK_END);
-    wordlist->size = ftell(file);
-    fseek(file, 0, SEEK_SET);
+    if(fseek(file, 0, SEEK_END) != 0) {
+        return 1;
+    }
+    long size = ftell(file);
+    if(size < 0 || size == LONG_MAX || fseek(file, 0, SEEK_SET) != 0) {
+        return 1;
+    }
+    wordlist->size = size;
 
     // allocate buffer to hold entire file and read in (plus zero termination)
     wordlist->data = malloc(wordlist->size + 1);
-    passgen_assert(wordlist->data);
+    if(!wordlist->data) {
+        return 1;
+    }
 
     // read in entire wordlist
     size_t read = fread(wordlist->data, 1, wordlist->size, file);
-- 
2.43.0


From 645f07ea184ae742ff313b9c8de66f5ada7fb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:43 +0000
Subject: [PATCH 20/45] fix: accept long words and reject invalid ones when
 parsing markov chains

---
 include/passgen/wordlist.h |  3 ++-
 src/wordlist.c             | 27 +++++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/passgen/wordlist.h b/include/passgen/wordlist.h
index 7683e21..5e7110f 100644
--- a/include/passgen/wordlist.h
+++ b/include/passgen/wordlist.h
@@ -53,8 +53,9 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist);
 
 /// Generate markov chain from wordlist.
 ///
+/// @returns Zero on success, non-zero if the wordlist is not valid UTF-8.
 /// @memberof passgen_wordlist
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist);
 
 /// Generate random word from this wordlist.
 ///
diff --git a/src/wordlist.c b/src/wordlist.c
index e60cae9..68ce9bb 100644
--- a/src/wordlist.c
+++ b/src/wordlist.c
@@ -29,17 +29,22 @@ int passgen_wordlist_parse(passgen_wordlist *wordlist) {
     return 0;
 }
 
-void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
+int passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
     passgen_assert(!wordlist->parsed_markov);
     wordlist->parsed_markov = true;
 
-    size_t unicode_buffer_len = 256;
-    uint32_t unicode_buffer[unicode_buffer_len];
     for(size_t i = 0; i < wordlist->count; i++) {
-        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
         const uint8_t *word = (const uint8_t *) wordlist->words[i];
         size_t word_length = strlen((const char *) word);
 
+        // a word has at most as many codepoints as it has bytes
+        size_t unicode_buffer_len = word_length;
+        uint32_t *unicode_buffer = malloc(word_length * sizeof(uint32_t));
+        if(!unicode_buffer) {
+            return 1;
+        }
+        uint32_t *unicode_buffer_pos = &unicode_buffer[0];
+
         // decode utf8
         int ret = passgen_utf8_decode(
             &unicode_buffer_pos,
@@ -48,8 +53,15 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             &word,
             word_length);
 
-        // make sure the conversion worked
-        passgen_assert(ret == PASSGEN_UTF8_SUCCESS);
+        // make sure the conversion worked. if not, there is no valid markov
+        // chain for this wordlist.
+        if(ret != PASSGEN_UTF8_SUCCESS) {
+            size_t level = wordlist->markov.level;
+            free(unicode_buffer);
+            passgen_markov_free(&wordlist->markov);
+            passgen_markov_init(&wordlist->markov, level);
+            return 1;
+        }
 
         // add word to markov chain
         passgen_markov_add(
@@ -57,7 +69,10 @@ void passgen_wordlist_parse_markov(passgen_wordlist *wordlist) {
             unicode_buffer,
             unicode_buffer_pos - &unicode_buffer[0],
             1);
+        free(unicode_buffer);
     }
+
+    return 0;
 }
 
 void passgen_wordlist_load(
-- 
2.43.0


From 843f29d5f51be922a1e03b1bd9f293308cf046c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 21/45] fix: print passwords of any length and report when one
 can't be generated

---
 include/passgen/generate.h |   5 ++
 src/cli/passgen.c          | 120 +++++++++++++++++++++++++++----------
 src/cli/passgen.h          |   2 +
 src/generate.c             |  80 +++++++++++++------------
 4 files changed, 136 insertions(+), 71 deletions(-)

diff --git a/include/passgen/generate.h b/include/passgen/generate.h
index 831fefb..ffb096a 100644
--- a/include/passgen/generate.h
+++ b/include/passgen/generate.h
@@ -45,6 +45,11 @@ size_t passgen_generate_fill_utf8(
     uint8_t *buffer,
     size_t len);
 
+/// Encode a codepoint the way it appears inside of a JSON string, as UTF-8 and
+/// escaped if necessary. Writes up to six bytes and returns the number of bytes
+/// written, or a negative value if this is not a valid codepoint.
+int passgen_json_encode_codepoint(uint8_t *out, uint32_t codepoint);
+
 /// Generate a password from a patter, filling the result UTF-8 encoded and
 /// JSON-escaped into the provided buffer. Will not NULL-terminate the buffer,
 /// returns the number of bytes written.
diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 37d643b..3d91358 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -61,16 +61,51 @@ int passgen_cli_run(passgen_cli_opts opts) {
     return ret;
 }
 
+/// Generated password, grows as needed.
+struct output {
+    uint32_t *codepoints;
+    size_t len;
+    size_t cap;
+};
+
+static int output_push(void *data, uint32_t codepoint) {
+    struct output *output = data;
+
+    if(output->len == output->cap) {
+        size_t cap = output->cap ? 2 * output->cap : 256;
+        uint32_t *codepoints =
+            realloc(output->codepoints, cap * sizeof(uint32_t));
+        if(!codepoints) {
+            return -1;
+        }
+        output->codepoints = codepoints;
+        output->cap = cap;
+    }
+
+    output->codepoints[output->len++] = codepoint;
+    return 0;
+}
+
+static int output_write(
+    const struct output *output,
+    int (*encode)(uint8_t *out, uint32_t codepoint)) {
+    for(size_t i = 0; i < output->len; i++) {
+        uint8_t buffer[6];
+        int bytes = encode(&buffer[0], output->codepoints[i]);
+        if(bytes < 0) {
+            return PASSGEN_ERROR_GENERATE;
+        }
+        fwrite(&buffer[0], 1, bytes, stdout);
+    }
+
+    return 0;
+}
+
 int passgen_cli_generate_normal(
     passgen_cli_opts opts,
     passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    struct output output = {NULL, 0, 0};
+    int ret = 0;
 
     char sep = '\n';
     if(opts.null) {
@@ -78,54 +113,67 @@ int passgen_cli_generate_normal(
     }
 
     for(size_t i = 0; i < opts.amount; ++i) {
-        // get a NULL-terminated, random pass.
+        // get a random pass.
         double entropy;
-        size_t written = passgen_generate_fill_utf8(
+        output.len = 0;
+        ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
+            &output,
+            output_push);
+        if(ret != 0) {
+            break;
+        }
 
         if(opts.entropy) {
             fprintf(stderr, "entropy: %.2lf bits\n", log(entropy) / log(2));
         }
 
-        if(i == 0) {
-            printf("%s", pass);
-        } else {
-            printf("%c%s", sep, pass);
+        if(i != 0) {
+            printf("%c", sep);
         }
+
+        ret = output_write(&output, passgen_utf8_encode_codepoint);
+        if(ret != 0) {
+            break;
+        }
+    }
+
+    free(output.codepoints);
+    if(ret != 0) {
+        return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
     }
 
     printf("\n");
-    free(pass);
 
     return 0;
 }
 
 int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
-    // allocate some space for pass.
-    // size_t pass_len = pattern_maxlen(pattern);
-    size_t pass_len = 256;
-    uint8_t *pass = malloc(pass_len + 1);
-    if(!pass) {
-        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
-    }
+    struct output output = {NULL, 0, 0};
+    int ret = 0;
 
-    printf("[");
     for(size_t i = 0; i < opts.amount; ++i) {
         double entropy;
-        // get a NULL-terminated, random pass.
-        size_t written = passgen_generate_fill_json_utf8(
+        // get a random pass.
+        output.len = 0;
+        ret = passgen_generate(
             pattern,
             &opts.env,
             opts.entropy ? &entropy : NULL,
-            pass,
-            pass_len);
-        pass[written] = '\0';
-        printf("%s{\"output\":\"%s\"", (i == 0) ? "" : ",", pass);
+            &output,
+            output_push);
+        if(ret != 0) {
+            break;
+        }
+
+        printf("%s{\"output\":\"", (i == 0) ? "[" : ",");
+        ret = output_write(&output, passgen_json_encode_codepoint);
+        if(ret != 0) {
+            break;
+        }
+        printf("\"");
 
         if(opts.entropy) {
             printf(",\"entropy\":%lf", log(entropy) / log(2));
@@ -133,9 +181,14 @@ int passgen_cli_generate_json(passgen_cli_opts opts, passgen_pattern *pattern) {
 
         printf("}");
     }
+
+    free(output.codepoints);
+    if(ret != 0) {
+        return passgen_cli_bail(PASSGEN_ERROR_GENERATE, NULL);
+    }
+
     printf("]\n");
 
-    free(pass);
     return 0;
 }
 
@@ -507,6 +560,9 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
                 "\033[1;31merror\033[0m: preset `%s` not found\n",
                 (const char *) data);
             break;
+        case PASSGEN_ERROR_GENERATE:
+            fprintf(stderr, "error: couldn't generate a password.\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index b3c1bad..af83777 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -29,6 +29,8 @@ typedef enum {
 
     PASSGEN_SHOW_HELP,
     PASSGEN_SHOW_VERSION,
+
+    PASSGEN_ERROR_GENERATE,
 } passgen_cli_error;
 
 /// Options parsed from the command line.
diff --git a/src/generate.c b/src/generate.c
index c894da3..3c2320d 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -147,57 +147,59 @@ static int passgen_generate_write_buffer_utf8(void *data, uint32_t codepoint) {
     return 0;
 }
 
-/// Write JSON-escaped UTF-8 to buffer.
-static int
-passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
-    struct fillpos_utf8 *fillpos = data;
-
-    if(fillpos->cur == fillpos->len) {
-        return -1;
-    }
+int passgen_json_encode_codepoint(uint8_t *out, uint32_t codepoint) {
+    static const char hex[] = "0123456789abcdef";
 
-    unsigned char buffer[6] = {'\\', 0};
-    int bytes = 2;
+    out[0] = '\\';
     switch(codepoint) {
         case '"':
-            buffer[1] = '"';
-            break;
+            out[1] = '"';
+            return 2;
         case '\\':
-            buffer[1] = '\\';
-            break;
+            out[1] = '\\';
+            return 2;
         case '\b':
-            buffer[1] = 'b';
-            break;
+            out[1] = 'b';
+            return 2;
         case '\f':
-            buffer[1] = 'f';
-            break;
+            out[1] = 'f';
+            return 2;
         case '\r':
-            buffer[1] = 'r';
-            break;
+            out[1] = 'r';
+            return 2;
         case '\n':
-            buffer[1] = 'n';
-            break;
+            out[1] = 'n';
+            return 2;
         case '\t':
-            buffer[1] = 't';
-            break;
-        default:
-            // other control characters may not appear in a JSON string.
-            if(codepoint < 0x20) {
-                const char *hex = "0123456789abcdef";
-                buffer[1] = 'u';
-                buffer[2] = '0';
-                buffer[3] = '0';
-                buffer[4] = hex[codepoint >> 4];
-                buffer[5] = hex[codepoint & 0xF];
-                bytes = 6;
-                break;
-            }
+            out[1] = 't';
+            return 2;
+    }
 
-            bytes = passgen_utf8_encode_codepoint(
-                (uint8_t *) &buffer[0],
-                codepoint);
+    // other control characters may not appear in a JSON string.
+    if(codepoint < 0x20) {
+        out[1] = 'u';
+        out[2] = '0';
+        out[3] = '0';
+        out[4] = hex[codepoint >> 4];
+        out[5] = hex[codepoint & 0xF];
+        return 6;
     }
 
+    return passgen_utf8_encode_codepoint(out, codepoint);
+}
+
+/// Write JSON-escaped UTF-8 to buffer.
+static int
+passgen_generate_write_buffer_json_utf8(void *data, uint32_t codepoint) {
+    struct fillpos_utf8 *fillpos = data;
+
+    if(fillpos->cur == fillpos->len) {
+        return -1;
+    }
+
+    uint8_t buffer[6];
+    int bytes = passgen_json_encode_codepoint(&buffer[0], codepoint);
+
     // check that no error happened.
     if(bytes < 0) {
         return -1;
-- 
2.43.0


From dd15957aa802adb33d1ba05b4a9f2c4e865b90fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 22/45] fix: do not crash when referring to a wordlist with an
 empty name

---
 src/generate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/generate.c b/src/generate.c
index 3c2320d..513234e 100644
--- a/src/generate.c
+++ b/src/generate.c
@@ -371,8 +371,10 @@ static int passgen_generate_literal(
 static int passgen_generate_special_markov(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    // there are no parameters if the name is empty
+    const char *name = special->parameters ? special->parameters : "";
     passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+        passgen_hashmap_lookup(&context->env->wordlists, name);
     if(!entry) {
         return -1;
     }
@@ -416,8 +418,10 @@ static int passgen_generate_special_markov(
 static int passgen_generate_special_wordlist(
     passgen_generate_context *context,
     const passgen_pattern_special *special) {
+    // there are no parameters if the name is empty
+    const char *name = special->parameters ? special->parameters : "";
     passgen_hashmap_entry *entry =
-        passgen_hashmap_lookup(&context->env->wordlists, special->parameters);
+        passgen_hashmap_lookup(&context->env->wordlists, name);
     if(!entry) {
         return -1;
     }
-- 
2.43.0


From ee9ecd572679facba3a4fe610ac99164a06013d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 23/45] fix: reject markov chain lengths that are too large

---
 src/cli/passgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 3d91358..0a8e9b4 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -394,7 +394,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'M':
                 opt = atoi(optarg);
-                if(opt < 1) {
+                if(opt < 1 || opt > UINT8_MAX) {
                     return passgen_cli_bail(
                         PASSGEN_ERROR_ILLEGAL_MARKOV_LENGTH,
                         &opt);
-- 
2.43.0


From f7ddf916b50ac2770b7782ff0f74092a5239fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:33 +0000
Subject: [PATCH 24/45] fix: read configuration files of any size

---
 src/cli/passgen.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 0a8e9b4..02ec611 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -578,8 +578,21 @@ void passgen_cli_opts_free(passgen_cli_opts *opts) {
 
 int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     // TODO: use something like passgen_buffer to do this
-    char *config = malloc(10240);
-    size_t read = fread(config, 1, 10240, file);
+    size_t size = 10240;
+    size_t read = 0;
+    char *config = malloc(size);
+    while(config) {
+        // always leave space for the terminating NULL.
+        read += fread(&config[read], 1, size - read - 1, file);
+        if(read < size - 1) break;
+        size *= 2;
+        char *bigger = realloc(config, size);
+        if(!bigger) free(config);
+        config = bigger;
+    }
+    if(!config) {
+        return passgen_cli_bail(PASSGEN_ERROR_ALLOC, NULL);
+    }
     config[read] = 0;
     int ret = passgen_cli_opts_config_parse(opts, config);
     free(config);
-- 
2.43.0


From 88572566cab7adf51b3cd782e06bff4dc2e70364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 25/45] fix: do not read past the end of the configuration file

---
 src/cli/passgen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 02ec611..42435e3 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -27,7 +27,7 @@
 #include "passgen/wordlist.h"
 
 #define UNUSED(x)              (void) x
-#define strprefix(prefix, str) memcmp(prefix, str, strlen(prefix))
+#define strprefix(prefix, str) strncmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
     if(opts->env.random) {
@@ -605,6 +605,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
         if(data[pos] == '#') {
             // skip this line, it's a comment
             while(data[pos] && data[pos] != '\n') pos++;
+            if(!data[pos]) break;
             continue;
         }
         if(data[pos] == '\n') {
@@ -616,9 +617,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = data[pos + length] == 0;
             data[pos + length] = 0;
             passgen_cli_opts_random(opts, &data[pos]);
             pos += length;
+            if(last) break;
             continue;
         }
         if(0 == strprefix("wordlist", &data[pos])) {
@@ -626,9 +629,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = data[pos + length] == 0;
             data[pos + length] = 0;
             passgen_cli_opts_wordlist(opts, &data[pos]);
             pos += length;
+            if(last) break;
             continue;
         }
         if(0 == strprefix("preset", &data[pos])) {
@@ -636,9 +641,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos] && (data[pos] == ' ' || data[pos] == '\t')) pos++;
             size_t length = 0;
             while(data[pos + length] && data[pos + length] != '\n') length++;
+            bool last = data[pos + length] == 0;
             data[pos + length] = 0;
             passgen_cli_opts_preset(opts, &data[pos]);
             pos += length;
+            if(last) break;
             continue;
         }
     }
-- 
2.43.0


From 10086c38e8f14a550806bd85b33fa11297f4dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 26/45] fix: ignore unknown lines in configuration files

---
 src/cli/passgen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 42435e3..bb77feb 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -648,6 +648,11 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             if(last) break;
             continue;
         }
+        if(data[pos] != ' ' && data[pos] != '\t') {
+            // skip this line, it's not something that we understand
+            while(data[pos] && data[pos] != '\n') pos++;
+            if(!data[pos]) break;
+        }
     }
     return 0;
 }
-- 
2.43.0


From cdfc9227d6c33af7c1549ce0ff47add388556658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:07 +0000
Subject: [PATCH 27/45] fix: do not overflow the buffer for the configuration
 file path

---
 src/cli/passgen.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index bb77feb..8b23135 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -675,17 +675,28 @@ int passgen_cli_opts_config_system(passgen_cli_opts *opts) {
 }
 
 int passgen_cli_opts_config_user(passgen_cli_opts *opts) {
-    char config_path[256];
+    char config_path[4096];
+    size_t config_len = sizeof(config_path);
+    int written;
     const char *xdg_config_path = getenv("XDG_CONFIG_PATH");
     if(xdg_config_path) {
-        sprintf(config_path, "%s/passgen.conf", xdg_config_path);
+        written = snprintf(
+            config_path,
+            config_len,
+            "%s/passgen.conf",
+            xdg_config_path);
     } else {
         const char *home = getenv("HOME");
         if(!home) {
             fprintf(stderr, "warning: cannot locate home directory\n");
             return 0;
         }
-        sprintf(config_path, "%s/.config/passgen.conf", home);
+        written =
+            snprintf(config_path, config_len, "%s/.config/passgen.conf", home);
+    }
+    if(written < 0 || (size_t) written >= config_len) {
+        fprintf(stderr, "warning: path to configuration file is too long\n");
+        return 0;
     }
     FILE *file = fopen(config_path, "r");
     if(file) {
-- 
2.43.0


From 196c78ec040fb439c49b771615fb00caa2828762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 28/45] fix: reject chacha20 keys and argon2 inputs that are
 too long

---
 src/random/random.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/random/random.c b/src/random/random.c
index 44f1926..17b5df6 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -110,6 +110,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             key_end = key_ptr + strlen(key_ptr);
         }
         char key[32] = {0};
+        if((size_t) (key_end - key_ptr) > sizeof(key)) {
+            return NULL;
+        }
         memcpy(key, key_ptr, key_end - key_ptr);
 
         char iv[] = "passgen";
@@ -142,6 +145,9 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             if(!end) { \
                 end = start + strlen(start); \
             } \
+            if((size_t) (end - start) >= sizeof(name)) { \
+                return NULL; \
+            } \
             memcpy(name, start, end - start); \
         }
 
-- 
2.43.0


From f7278645573360c95dc7f075b42238fa32360ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 29/45] fix: keep empty and additional fields of
 chacha20-argon2 descriptions apart

---
 src/random/random.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 17b5df6..8b1b37d 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -151,10 +151,18 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             memcpy(name, start, end - start); \
         }
 
-        PARSE_STRING(master_pass)
+        // an empty passphrase must not be confused with a missing one
+        if(*end != ':') {
+            PARSE_STRING(master_pass)
+        }
         PARSE_STRING(domain)
         PARSE_STRING(token)
 
+        // there must not be anything left over
+        if(*end) {
+            return NULL;
+        }
+
         return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
     }
 #endif
-- 
2.43.0


From 87aca680c9937dc6e17122253b5ebfd3c2206aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 30/45] fix: wipe the state of the xorshift generator when
 closing it

---
 src/random/xorshift.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/random/xorshift.c b/src/random/xorshift.c
index 5e501f9..5c8980f 100644
--- a/src/random/xorshift.c
+++ b/src/random/xorshift.c
@@ -1,3 +1,4 @@
+#include "passgen/config.h"
 #include "passgen/random.h"
 #include "passgen/util/endian.h"
 #include <stdlib.h>
@@ -34,7 +35,9 @@ passgen_random_xorshift_read(void *context, void *dest, size_t size) {
 }
 
 static void passgen_random_xorshift_close(void *context) {
-    free(context);
+    uint64_t *state = context;
+    PASSGEN_CLEAR(state);
+    free(state);
 }
 
 passgen_random *
-- 
2.43.0


From 6c9a8e594b171b66492fbbee7f0b87c646e2a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 31/45] fix: wipe the derived key after opening an argon2
 source

---
 src/random/deterministic.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index 273e30a..afceeae 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -140,11 +140,13 @@ passgen_random *passgen_random_chacha20_argon2_open(
         config = *config_ptr;
     }
 
-    size_t hash_size = CHACHA20_KEY_SIZE;
-    uint8_t hash[hash_size];
+    uint8_t hash[CHACHA20_KEY_SIZE];
+    size_t hash_size = sizeof(hash);
     void *work_area = malloc(1024 * config.nb_blocks);
     passgen_argon2(&hash[0], hash_size, work_area, config, inputs, extras);
     free(work_area);
 
-    return passgen_random_chacha20_open(random, hash, "passgen");
+    random = passgen_random_chacha20_open(random, hash, "passgen");
+    passgen_wipe(hash, sizeof(hash));
+    return random;
 }
-- 
2.43.0


From 6cff374107d079e6ce763279281502daa7514379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:56 +0000
Subject: [PATCH 32/45] fix: do not leave random data behind in the buffer of a
 file source

---
 src/random/system.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/random/system.c b/src/random/system.c
index e58c038..228fde8 100644
--- a/src/random/system.c
+++ b/src/random/system.c
@@ -77,11 +77,10 @@ passgen_random_path_open(passgen_random *random, const char *path) {
         if(!random) return NULL;
     }
 
-    return passgen_random_file_open(random, device);
-
-    passgen_random_reload(random);
+    // we have our own buffer, don't leave random data in a second one.
+    setvbuf(device, NULL, _IONBF, 0);
 
-    return random;
+    return passgen_random_file_open(random, device);
 }
 
 passgen_random *passgen_random_file_open(passgen_random *random, FILE *file) {
-- 
2.43.0


From 288e2b8de351989ff8d234606fc3b5c66df0afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:01 +0000
Subject: [PATCH 33/45] fix: release a wordlist when it is replaced

---
 src/env.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/env.c b/src/env.c
index 756ab4f..d1f2f59 100644
--- a/src/env.c
+++ b/src/env.c
@@ -38,9 +38,15 @@ int passgen_env_wordlist_add(
     FILE *file,
     size_t markov_length) {
     passgen_wordlist *wordlist = malloc(sizeof(passgen_wordlist));
-    passgen_hashmap_insert(&env->wordlists, name, wordlist);
+    passgen_hashmap_entry previous =
+        passgen_hashmap_insert(&env->wordlists, name, wordlist);
     passgen_wordlist_init(wordlist, file, markov_length);
 
+    // this might have replaced a wordlist of the same name
+    if(previous.key) {
+        wordlist_entry_free(NULL, &previous);
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 48d6ae73d45dec3a58b93529a03728b835aa1734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 34/45] fix: do not clamp xorshift seeds above 2^63 - 1

---
 src/random/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/random.c b/src/random/random.c
index 8b1b37d..43b4bea 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -88,7 +88,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             return NULL;
         }
 
-        uint64_t seed = atoll(seed_str);
+        uint64_t seed = strtoull(seed_str, NULL, 10);
         if(seed == 0) {
             return NULL;
         }
-- 
2.43.0


From 46b0f928fd173a93fcae4854add6ea78bb781e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 35/45] fix: accept blanks as separator of definitions in
 configuration files

This is the documented syntax, and the one the shipped configuration uses.
---
 src/cli/passgen.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 8b23135..974e976 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -599,6 +599,18 @@ int passgen_cli_opts_config_load(passgen_cli_opts *opts, FILE *file) {
     return ret;
 }
 
+// definitions in configuration files may separate the name with blanks instead
+// of a colon, turn those into the format that is used on the command line.
+static char *config_definition(char *line) {
+    char *end = line + strcspn(line, ": \t");
+    size_t blanks = strspn(end, " \t");
+    if(blanks) {
+        memmove(end + 1, end + blanks, strlen(end + blanks) + 1);
+        *end = ':';
+    }
+    return line;
+}
+
 int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
     // TODO: this code is a mess.
     for(size_t pos = 0; data[pos]; pos++) {
@@ -631,7 +643,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos + length] && data[pos + length] != '\n') length++;
             bool last = data[pos + length] == 0;
             data[pos + length] = 0;
-            passgen_cli_opts_wordlist(opts, &data[pos]);
+            passgen_cli_opts_wordlist(opts, config_definition(&data[pos]));
             pos += length;
             if(last) break;
             continue;
@@ -643,7 +655,7 @@ int passgen_cli_opts_config_parse(passgen_cli_opts *opts, char *data) {
             while(data[pos + length] && data[pos + length] != '\n') length++;
             bool last = data[pos + length] == 0;
             data[pos + length] = 0;
-            passgen_cli_opts_preset(opts, &data[pos]);
+            passgen_cli_opts_preset(opts, config_definition(&data[pos]));
             pos += length;
             if(last) break;
             continue;
-- 
2.43.0


From ff28da96ff493ee53cb1ee47b831bb51fe1e8226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:15 +0000
Subject: [PATCH 36/45] fix: let -m override the randomness source of the
 configuration

---
 src/cli/passgen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 974e976..33f2257 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -325,6 +325,7 @@ void passgen_cli_presets_list(const passgen_cli_opts *opts) {
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
     const char *short_opts = "a:p:P:d:w:r:m:D:M:t:ezhvjl";
     const char *preset = NULL;
+    bool random = false;
 
     static struct option long_opts[] = {
         {"amount", required_argument, NULL, 'a'},
@@ -403,6 +404,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 break;
             case 'r':
                 try(passgen_cli_opts_random(opts, optarg));
+                random = true;
                 break;
             case 'P':
                 try(passgen_cli_opts_preset(opts, optarg));
@@ -449,13 +451,17 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
         return PASSGEN_SHOW_HELP;
     }
 
-    // fallback to system randomness if nothing else is defined
+    // a master passphrase overrides the randomness source of the configuration
 #ifdef PASSGEN_MONOCYPHER
-    if(!opts->env.random && opts->master_passphrase) {
+    if(!random && opts->master_passphrase) {
+        if(opts->env.random) {
+            passgen_random_free(opts->env.random);
+        }
         opts->env.random = passgen_random_chacha20_argon2_open(NULL, opts->master_passphrase, opts->master_domain, opts->master_token, NULL);
     }
 #endif
 
+    // fallback to system randomness if nothing else is defined
     if(!opts->env.random) {
         opts->env.random = passgen_random_open(NULL, NULL);
         assert(opts->env.random);
-- 
2.43.0


From 6d1e34f3e1b55ffad1450b8c4dad3fd26cc16721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 37/45] fix: keep the randomness source when a new one can not
 be opened

---
 src/cli/passgen.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 33f2257..ec0116a 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -30,20 +30,22 @@
 #define strprefix(prefix, str) strncmp(prefix, str, strlen(prefix))
 
 int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
-    if(opts->env.random) {
-        passgen_random_free(opts->env.random);
-        opts->env.random = NULL;
-    }
+    passgen_random *opened = passgen_random_open(NULL, random);
 
-    opts->env.random = passgen_random_open(NULL, random);
-
-    if(!opts->env.random) {
+    // keep the existing one, if any, unless there is one to replace it
+    if(!opened) {
         printf(
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
         return 1;
     }
 
+    if(opts->env.random) {
+        passgen_random_free(opts->env.random);
+    }
+
+    opts->env.random = opened;
+
     return 0;
 }
 
-- 
2.43.0


From 6d33cb89e3d3a72ce21ab195e21e30699446e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:06 +0000
Subject: [PATCH 38/45] fix: report invalid definitions on standard error

Those in configuration files do not stop the tool, and its standard output is
the generated passwords.
---
 src/cli/passgen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index ec0116a..96960a3 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -34,7 +34,8 @@ int passgen_cli_opts_random(passgen_cli_opts *opts, const char *random) {
 
     // keep the existing one, if any, unless there is one to replace it
     if(!opened) {
-        printf(
+        fprintf(
+            stderr,
             "\033[1;31merror\033[0m: invalid randomness source '%s'\n",
             random);
         return 1;
@@ -227,7 +228,8 @@ int passgen_cli_opts_preset(passgen_cli_opts *opts, const char *arg) {
     memcpy(arg_copy, arg, arg_len + 1);
     char *colon = strstr(arg_copy, ":");
     if(!colon) {
-        printf(
+        fprintf(
+            stderr,
             "Error: expected preset:value for preset definition `%s`\n",
             arg);
         return 1;
-- 
2.43.0


From 9bede8aded3b53c54f2464b5349ab9ae45eff4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 39/45] fix: do not let the seccomp filter close standard
 streams

The kernel only looks at the lower half of the argument of close, so
0x100000001 closed standard output.
---
 src/cli/passgen.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 96960a3..e25aecf 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -800,12 +800,23 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 2));
 
     // allow closing, as long as the fd is not any of the standard streams.
+    // the kernel ignores the upper half of the argument, so that must not make
+    // a difference: it has to be 3 or have any bit besides the lowest two set.
     seccomp_rule_add(
         ctx,
         SCMP_ACT_ALLOW,
         SCMP_SYS(close),
         1,
-        SCMP_CMP(0, SCMP_CMP_GT, 2));
+        SCMP_CMP(0, SCMP_CMP_MASKED_EQ, 0xffffffffu, 3));
+    for(int bit = 2; bit < 32; bit++) {
+        scmp_datum_t mask = (scmp_datum_t) 1 << bit;
+        seccomp_rule_add(
+            ctx,
+            SCMP_ACT_ALLOW,
+            SCMP_SYS(close),
+            1,
+            SCMP_CMP(0, SCMP_CMP_MASKED_EQ, mask, mask));
+    }
 
     // allow reading random data
     seccomp_rule_add(ctx, SCMP_ACT_ALLOW, SCMP_SYS(getrandom), 0);
-- 
2.43.0


From a797b1088525681f6e1a98adb16b92c67e9a648e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:00 +0000
Subject: [PATCH 40/45] fix: do not get killed by the seccomp filter when
 writing to a console

stdio queries the terminal settings when it allocates the buffer of
standard output, if that is a character device but not a pseudo-terminal.
---
 src/cli/passgen.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index e25aecf..19cc008 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -14,6 +14,7 @@
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <sys/types.h>
+#include <unistd.h>
 #endif
 
 #include "../try.h"
@@ -853,6 +854,15 @@ void passgen_cli_seccomp_init() {
         SCMP_CMP(0, SCMP_CMP_EQ, 1),
         SCMP_CMP(1, SCMP_CMP_EQ, TIOCGWINSZ));
 
+    // when stdio allocates the buffer of a character device other than a
+    // pseudo-terminal (the console, /dev/null), it queries the terminal settings,
+    // which the filter does not allow. this does not happen if it has one.
+    static char buffer[BUFSIZ];
+    struct stat stat;
+    bool terminal =
+        0 == fstat(STDOUT_FILENO, &stat) && S_ISCHR(stat.st_mode);
+    setvbuf(stdout, buffer, terminal ? _IOLBF : _IOFBF, sizeof(buffer));
+
     // apply rules
     seccomp_load(ctx);
     seccomp_release(ctx);
-- 
2.43.0


From 3fd84e005aa0db7c1f9c4c54bb368019f3347ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:53 +0000
Subject: [PATCH 41/45] fix: wipe the copies of the key and the master
 passphrase made while parsing a description

---
 src/random/random.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/random/random.c b/src/random/random.c
index 43b4bea..3b1c37a 100644
--- a/src/random/random.c
+++ b/src/random/random.c
@@ -125,7 +125,10 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
             memcpy(iv, iv_ptr, iv_len);
         }
 
-        return passgen_random_chacha20_open(random, key, iv);
+        // don't leave a copy of the key on the stack
+        random = passgen_random_chacha20_open(random, key, iv);
+        passgen_wipe(key, sizeof(key));
+        return random;
     }
 
     // use chacha20 with raw key and IV
@@ -146,7 +149,7 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
                 end = start + strlen(start); \
             } \
             if((size_t) (end - start) >= sizeof(name)) { \
-                return NULL; \
+                goto error; \
             } \
             memcpy(name, start, end - start); \
         }
@@ -160,10 +163,19 @@ passgen_random_open_parse(passgen_random *random, const char *desc) {
 
         // there must not be anything left over
         if(*end) {
-            return NULL;
+            goto error;
         }
 
-        return passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
+        // don't leave copies of the secrets on the stack
+        random = passgen_random_chacha20_argon2_open(random, master_pass, domain, token, NULL);
+        goto wipe;
+error:
+        random = NULL;
+wipe:
+        passgen_wipe(master_pass, sizeof(master_pass));
+        passgen_wipe(domain, sizeof(domain));
+        passgen_wipe(token, sizeof(token));
+        return random;
     }
 #endif
 
-- 
2.43.0


From 923091c8898aaaa04843cec2dd024f5f9a7b1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 42/45] fix: wipe the keystream block used for reads that start
 inside of a block

---
 src/random/deterministic.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/random/deterministic.c b/src/random/deterministic.c
index afceeae..9a4500e 100644
--- a/src/random/deterministic.c
+++ b/src/random/deterministic.c
@@ -29,6 +29,7 @@ passgen_random_chacha20_read_short(void *context_raw, void *dest, size_t size) {
         context->offset / CHACHA20_BLOCK_SIZE);
 
     memcpy(dest, &block[context->offset % CHACHA20_BLOCK_SIZE], size);
+    passgen_wipe(block, sizeof(block));
     context->offset += size;
     return size;
 }
-- 
2.43.0


From 152a353a7a70df027221277d48e9ee5871044154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 43/45] fix: release nested groups without recursion

---
 src/pattern/group.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/pattern/group.c b/src/pattern/group.c
index fb1df75..bf209d4 100644
--- a/src/pattern/group.c
+++ b/src/pattern/group.c
@@ -7,11 +7,23 @@ void passgen_pattern_group_init(passgen_pattern_group *group) {
     group->multiplier_sum = 0;
 }
 
-void passgen_pattern_group_free(passgen_pattern_group *group) {
+// Release a group, but move the groups it contains to a list of pending groups
+// instead of releasing them, too.
+static void
+group_release(passgen_pattern_group *group, passgen_stack *pending) {
     for(size_t i = 0; i < group->segments.len; i++) {
         passgen_pattern_segment *segment =
             passgen_stack_get(&group->segments, i);
 
+        for(size_t j = 0; j < segment->items.len; j++) {
+            passgen_pattern_item *item = passgen_stack_get(&segment->items, j);
+
+            if(item->kind == PASSGEN_PATTERN_GROUP) {
+                passgen_stack_push(pending, &item->data.group);
+                passgen_pattern_group_init(&item->data.group);
+            }
+        }
+
         passgen_pattern_segment_free(segment);
     }
 
@@ -20,6 +32,20 @@ void passgen_pattern_group_free(passgen_pattern_group *group) {
     PASSGEN_CLEAR(group);
 }
 
+void passgen_pattern_group_free(passgen_pattern_group *group) {
+    // groups can be nested arbitrarily deep, so this can't be recursive
+    passgen_stack pending;
+    passgen_stack_init(&pending, sizeof(passgen_pattern_group));
+    group_release(group, &pending);
+
+    passgen_pattern_group nested;
+    while(passgen_stack_pop(&pending, &nested)) {
+        group_release(&nested, &pending);
+    }
+
+    passgen_stack_free(&pending);
+}
+
 void passgen_pattern_group_finish(passgen_pattern_group *group) {
     // iterate through the segments and find out if there are any non-empty
     // ones.
-- 
2.43.0


From 909075654452d606f179f92a1eee2b0b536be8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 44/45] fix: report failure when output cannot be written

The tool exited with status 0 when writing to a full device or a closed
standard output, although the passwords were lost.
---
 src/cli/passgen.c | 17 +++++++++++++++--
 src/cli/passgen.h |  4 ++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cli/passgen.c b/src/cli/passgen.c
index 19cc008..c0fb4c3 100644
--- a/src/cli/passgen.c
+++ b/src/cli/passgen.c
@@ -62,7 +62,10 @@ int passgen_cli_run(passgen_cli_opts opts) {
 
     ret = passgen_cli_generate(opts, &pattern);
     passgen_pattern_free(&pattern);
-    return ret;
+    if(ret != 0) {
+        return ret;
+    }
+    return passgen_cli_flush();
 }
 
 /// Generated password, grows as needed.
@@ -394,7 +397,7 @@ int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]) {
                 return PASSGEN_SHOW_VERSION;
             case 'l':
                 passgen_cli_presets_list(opts);
-                exit(0);
+                exit(passgen_cli_flush());
             case 'w':
                 try(passgen_cli_opts_wordlist(opts, optarg));
                 break;
@@ -574,6 +577,9 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
         case PASSGEN_ERROR_GENERATE:
             fprintf(stderr, "error: couldn't generate a password.\n");
             break;
+        case PASSGEN_ERROR_OUTPUT:
+            fprintf(stderr, "error: couldn't write output.\n");
+            break;
         default:
             printf("error: unknown error.\n");
             break;
@@ -582,6 +588,13 @@ int passgen_cli_bail(passgen_cli_error error, const void *data) {
     return error;
 }
 
+int passgen_cli_flush(void) {
+    if(fflush(stdout) != 0 || ferror(stdout)) {
+        return passgen_cli_bail(PASSGEN_ERROR_OUTPUT, NULL);
+    }
+    return 0;
+}
+
 void passgen_cli_opts_free(passgen_cli_opts *opts) {
     passgen_hashmap_free(&opts->presets);
     passgen_env_free(&opts->env);
diff --git a/src/cli/passgen.h b/src/cli/passgen.h
index af83777..3eb5ee5 100644
--- a/src/cli/passgen.h
+++ b/src/cli/passgen.h
@@ -31,6 +31,7 @@ typedef enum {
     PASSGEN_SHOW_VERSION,
 
     PASSGEN_ERROR_GENERATE,
+    PASSGEN_ERROR_OUTPUT,
 } passgen_cli_error;
 
 /// Options parsed from the command line.
@@ -103,6 +104,9 @@ void passgen_cli_show_version(void);
 /// Exit the program early using the specified error and data.
 int passgen_cli_bail(passgen_cli_error error, const void *data);
 
+/// Write out pending output, fails if any of the output could not be written.
+int passgen_cli_flush(void);
+
 /// Parse the options passed on the command line, @p argc and @p argv, and
 /// return the parsed result.
 int passgen_cli_opts_parse(passgen_cli_opts *opts, int argc, char *argv[]);
-- 
2.43.0


From 21b07473d30ca96f7fb6ea3c4ae88c3e41bc2c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 45/45] fix: show the error marker below the character it
 refers to

It was one column to the left, or, behind characters that take more than one
byte, too far to the right.
---
 src/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index d48c6f2..ffccd13 100644
--- a/src/error.c
+++ b/src/error.c
@@ -30,7 +30,7 @@ void passgen_error_print(passgen_error *error, const char *pattern) {
     }
     fprintf(stderr, "\033[1;33mpattern\033[0m: %s\n", pattern);
     fprintf(stderr, "         ");
-    for(size_t i = 1; i < error->offset.byte; i++) {
+    for(size_t i = 0; i < error->offset.codepoint; i++) {
         fprintf(stderr, " ");
     }
     fprintf(stderr, "\033[1;31m^\033[0m\n");
-- 
2.43.0

