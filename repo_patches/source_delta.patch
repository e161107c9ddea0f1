From d07bcf7d055504c381ca0efee742e8aacd2f4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:39 +0000
Subject: [PATCH 001/102] fix: hex_to_bytes wrote before checking the target
 size and accepted an invalid leading nibble

---
 src/util/bytes.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..1272c30 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -284,26 +284,29 @@ bool bytes_all_equal(bytes_t a, uint8_t value) {
 }
 
 static inline int hexchar_to_int(char c) {
-  if (isdigit(c)) return c - '0';
-  if (isxdigit(c)) return tolower(c) - 'a' + 10;
+  if (isdigit((unsigned char) c)) return c - '0';
+  if (isxdigit((unsigned char) c)) return tolower((unsigned char) c) - 'a' + 10;
   return -1; // Invalid character
 }
 
 int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
-  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
   if (!hexstring || !buffer.data) return -1;
+  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
 
   // Handle odd-length hex strings by padding with leading zero
   int dst_offset = hex_len % 2;
   // Skip optional "0x" prefix
-  int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
-
-  // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
+  int src_offset = (hex_len >= 2 && hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
   // Validate buffer has enough space for the conversion
-  if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-    return -1;
+  if (buffer.len < (hex_len - src_offset + 1) / 2) return -1;
+
+  // Handle leading nibble for odd-length strings
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1) return -1;
+    buffer.data[0] = nibble;
+  }
 
   // Convert pairs of hex characters to bytes
   for (size_t i = src_offset; i < hex_len; i += 2) {
-- 
2.43.0


From f89670c284df8a51be625a597a67469f9fa54450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:43 +0000
Subject: [PATCH 002/102] fix: keep formatted output of fixed-size buffers
 inside the buffer and always terminated

---
 src/util/bytes.c | 72 +++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 41 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 1272c30..79c156f 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -331,51 +331,41 @@ void buffer_add_chars(buffer_t* buffer, const char* data) {
   }
 }
 
+// number of bytes needed to write the character as part of a json string
+static inline uint32_t escaped_char_len(uint8_t c) {
+  switch (c) {
+    case '"':
+    case '\\':
+    case '\b':
+    case '\f':
+    case '\n':
+    case '\r':
+    case '\t':
+      return 2;
+    default:
+      return c < 0x20 ? 6 : 1; // other control characters: \uXXXX
+  }
+}
+
 static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data) {
   if (!data) return;
   const uint8_t* str = (const uint8_t*) data;
   int            len = strlen(data);
 
-  // Calculate additional bytes needed for escape sequences
-  int escaped_len = 0;
-  for (int i = 0; i < len; i++) {
-    uint8_t c = str[i];
-
-    switch (c) {
-      // Special JSON characters that need escaping (add 1 byte for backslash)
-      case '"':
-      case '\\':
-      case '\b':
-      case '\f':
-      case '\n':
-      case '\r':
-      case '\t':
-        escaped_len += 1; // Add 1 byte for the backslash
-        break;
-
-      default:
-        if (c < 0x20) {
-          // Other control characters: escape as \uXXXX (add 5 bytes: \uXXXX)
-          escaped_len += 5;
-        }
-        // else: no additional bytes needed
-        break;
-    }
-  }
-
-  buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
+  // Calculate the bytes needed including the escape sequences
+  size_t escaped_len = 0;
+  for (int i = 0; i < len; i++) escaped_len += escaped_char_len(str[i]);
 
-  // Fast path: if no escaping needed, use buffer_append
-  if (escaped_len == 0) {
-    buffer_append(buffer, bytes(str, len));
-    buffer->data.data[buffer->data.len] = 0;
-    return;
-  }
+  size_t max_len = buffer_grow(buffer, buffer->data.len + escaped_len + 1);
+  if (buffer->data.len >= max_len) return; // fixed buffer without any space left
 
   // Perform the actual escaping
   for (int i = 0; i < len; i++) {
     uint8_t c = str[i];
 
+    // fixed buffers can't grow, so stop if the character plus NULL-Terminator does not fit anymore
+    if (buffer->data.len + escaped_char_len(c) + 1 > max_len) break;
+
     switch (c) {
       case '"':
         buffer->data.data[buffer->data.len++] = '\\';
@@ -653,7 +643,7 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
         case 'u': { // write bytes as hex without leading zeros
           uint32_t len = buf->data.len;
           buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
-          if (buf->data.data[len] == '0')
+          if (buf->data.len > len && buf->data.data[len] == '0')
             buffer_splice(buf, len, 1, bytes(NULL, 0));
           break;
         }
@@ -724,12 +714,12 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
   }
   va_end(args);
   if (last_pos != p)
-    buffer_add_chars(buf, last_pos);                            // automaticly appen NULL-Terminator
-  else if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
-    buf->data.data[buf->data.len] = 0;                          // then add it
-  else {                                                        // so we reached a limit without space for the NULL-Terminator
-    buf->data.len--;                                            // remove the last character
-    buf->data.data[buf->data.len] = 0;                          // then add it
+    buffer_add_chars(buf, last_pos);                       // add the remaining text
+  if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
+    buf->data.data[buf->data.len] = 0;                     // then add it
+  else if (buf->data.len) {                                // so we reached a limit without space for the NULL-Terminator
+    buf->data.len--;                                       // remove the last character
+    buf->data.data[buf->data.len] = 0;                     // then add it
   }
   return (char*) buf->data.data;
 }
-- 
2.43.0


From 80f2760f9a939509b93a239226dfdc3721ebae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:31 +0000
Subject: [PATCH 003/102] fix: bound JSON string, hex and integer conversions
 by the target buffer and accept '+' in exponents

---
 src/util/json.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..6c61309 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -87,7 +87,7 @@ static const char* find_end(const char* pos, char start, char end) {
 static json_t parse_number(const char* start) {
   json_t json = json(JSON_TYPE_NUMBER, start, 0);
   for (; *start; start++) {
-    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == 'e' || *start == 'E')
+    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == '+' || *start == 'e' || *start == 'E')
       json.len++;
     else
       break;
@@ -202,6 +202,7 @@ json_t json_get_path(json_t parent, const char* path) {
   const char* next_idx  = strchr(path, '[');
   const char* next      = (next_prop && next_idx) ? (next_prop < next_idx ? next_prop : next_idx) : (next_prop ? next_prop : next_idx);
   if (!next) return json_get(parent, path);
+  if ((size_t) (next - path) >= sizeof(tmp)) return JSON_INVALID(parent.start);
   strncpy(tmp, path, next - path);
   tmp[next - path] = '\0';
   json_t value     = json_get(parent, tmp);
@@ -209,7 +210,7 @@ json_t json_get_path(json_t parent, const char* path) {
   if (next && strlen(next + 1) > 0) {
     if (*next == '[') {
       const char* end_idx = strchr(next + 1, ']');
-      if (!end_idx) return JSON_INVALID(parent.start);
+      if (!end_idx || (size_t) (end_idx - next) > sizeof(tmp)) return JSON_INVALID(parent.start);
       strncpy(tmp, next + 1, end_idx - next - 1);
       tmp[end_idx - next - 1] = '\0';
       json_t item             = json_at(value, atoi(tmp));
@@ -337,26 +338,26 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
-  buffer_grow(buffer, value.len + 1);
+  size_t max_len   = buffer_grow(buffer, value.len + 1); // for fixed-size buffers this may be less than requested
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 1 > max_len ? max_len - 1 : value.len - 2));
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, bytes((uint8_t*) value.start, value.len + 1 > max_len ? max_len - 1 : value.len));
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
 }
 
 uint64_t json_as_uint64(json_t value) {
-  uint8_t  tmp[20] = {0};
+  uint8_t  tmp[24] = {0};
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
-    if (len == -1) return 0;
+    if (len == -1 || len > 8) return 0; // invalid or too big for a uint64
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
@@ -372,17 +373,20 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
+  size_t max_len   = buffer_grow(buffer, value.len / 2); // never write more than this (fixed-size buffers do not grow)
+  buffer->data.len = (uint32_t) max_len;
   int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
-  if (len == -1) return NULL_BYTES;
+  if (len == -1) {
+    buffer->data.len = 0;
+    return NULL_BYTES;
+  }
   buffer->data.len = (uint32_t) len;
   return buffer->data;
 }
-- 
2.43.0


From 1d60482013bdba4ca4aac9e18a431b3f59f638a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:35 +0000
Subject: [PATCH 004/102] fix: JSON schema check accepted strings without 0x
 prefix, oversized odd-length hex and non-numeric suint

---
 src/util/json_validate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..b9ef260 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
@@ -164,8 +164,8 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
   if (len > 0 && (l % 2 || l / 2 != len)) ERROR("%sExpected hex string with fixed size (%d) but got %d bytes", error_prefix, len, l / 2);
   if (isuint && (l == 0 || (val.start[3] == '0' && l > 1)))
     ERROR("%sno leading zeros allowed for uint", error_prefix);
-  if (isuint && l / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
-  if (len < 0 && l / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
+  if (isuint && (l + 1) / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
+  if (len < 0 && (l + 1) / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
   return NULL;
 }
 
@@ -194,7 +194,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
   if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
-  if (strncmp(def, "suint", 5) == 0) return val.type == JSON_TYPE_STRING ? NULL : strdup("Expected suint");
+  if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix ? error_prefix : "");
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
   ERROR("%sUnknown type %s", error_prefix ? error_prefix : "", def);
-- 
2.43.0


From e662e31f20a002cfc22d81b5b721ae9a63a0d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:41 +0000
Subject: [PATCH 005/102] fix: RLP decoding read lengths outside of the input
 and overflowed on long lengths

---
 src/chains/eth/verifier/rlp.c | 81 +++++++++++++++++------------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..d719b59 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,51 +23,50 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
-  if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+// reads the header of the item at src_idx and checks that header and content are inside of src.
+static bool read_header(bytes_t* src, size_t src_idx, size_t* header_len, size_t* content_len, rlp_type_t* type) {
+  size_t  available = src->len - src_idx;
+  uint8_t c         = src->data[src_idx];
+  *type             = c < 0xc0 ? RLP_ITEM : RLP_LIST;
+  if (c < 0x80) { // single byte
+    *header_len  = 0;
+    *content_len = 1;
+    return true;
+  }
+
+  uint8_t len = c - (*type == RLP_LIST ? 0xc0 : 0x80);
+  if (len < 56) {
+    *header_len  = 1;
+    *content_len = len;
+  }
+  else { // long form, where the length is encoded in the following bytes
+    uint64_t content = 0;
+    size_t   n       = len - 55;
+    if (available < n + 1) return false;
+    for (size_t i = 0; i < n; i++) content = (content << 8) | src->data[src_idx + 1 + i];
+    if (content > src->len) return false;
+    *header_len  = n + 1;
+    *content_len = (size_t) content;
+  }
+  return *header_len <= available && *content_len <= available - *header_len;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
-  size_t pos = 0, src_idx = 0;
-  for (; src_idx < src->len; src_idx++, pos++) {
-    uint8_t c = src->data[src_idx];
-    if (c < 0x80) {
-      if ((int) pos == index)
-        return check_range(target, src, 1, src->data + src_idx, 1);
-    }
-    else if (c < 0xb8) {
-      if ((int) pos == index)
-        return check_range(target, src, c - 0x80, src->data + src_idx + 1, RLP_ITEM);
-      src_idx += c - 0x80;
-    }
-    else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
-      if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
-      src_idx += len + c - 0xb7;
-    }
-    else if (c < 0xf8) {
-      size_t len = c - 0xc0;
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + 1, RLP_LIST);
-      src_idx += len;
-    }
-    else {
-      size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
-      if ((int) pos == index)
-        return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
-      src_idx += len + c - 0xf7;
+  bytes_t    data = *src; // target may point to src
+  size_t     src_idx = 0, header_len = 0, content_len = 0;
+  int        pos  = 0;
+  rlp_type_t type = RLP_ITEM;
+  if (index >= 0 && target) *target = NULL_BYTES;
+  for (; src_idx < data.len; src_idx += header_len + content_len, pos++) {
+    if (!read_header(&data, src_idx, &header_len, &content_len, &type)) return RLP_OUT_OF_RANGE;
+    if (pos == index) {
+      if (!target) return RLP_OUT_OF_RANGE;
+      *target = bytes(data.data + src_idx + header_len, content_len);
+      return type;
     }
   }
 
-  if (index < 0) return src_idx == src->len ? (rlp_type_t) pos : RLP_OUT_OF_RANGE;
-
-  return (src_idx > src->len) ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND;
+  return index < 0 ? (rlp_type_t) pos : RLP_NOT_FOUND;
 }
 
 static void encode_length(buffer_t* buf, uint32_t len, uint8_t offset) {
@@ -120,7 +119,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0};
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
@@ -128,7 +127,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From 3098a2f6927f7bab796ff7204d331f08a948f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:01 +0000
Subject: [PATCH 006/102] fix: Patricia proofs were accepted although
 incomplete or malformed

---
 src/chains/eth/verifier/patricia.c | 90 +++++++++++++-----------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..df9b467 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -61,37 +61,40 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
   return nibbles;
 }
 
-static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+static int handle_node(bytes_t node, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth);
+
+// handles the reference to a child, which is either the hash of the next witness or the embedded node itself.
+static int handle_child(bytes_t child, rlp_type_t type, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  if (type == RLP_LIST) return handle_node(child, k, last_node, last_val, next_hash, depth); // embedded node
+  if (type != RLP_ITEM || child.len != 32 || last_node) return 0;                           // there must be a witness for this hash
+  memcpy(next_hash, child.data, 32);
+  return 1;
+}
+
+// node is the payload (the items without the list-header) of the node.
+static int handle_node(bytes_t node, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
+  bytes_t    val  = NULL_BYTES;
+  rlp_type_t type = RLP_NOT_FOUND;
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
       if (**k == 0xFF) {
-        if (!last_node || rlp_decode(&node, 16, &node) != RLP_ITEM) return 0;
-        *last_val = node;
-        return node.len == 0 ? 2 : 3;
+        if (!last_node || rlp_decode(&node, 16, &val) != RLP_ITEM) return 0;
+        *last_val = val;
+        return val.len == 0 ? 2 : 3;
       }
 
-      if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
-        *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
-      }
-      else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
-      else
-        memcpy(next_hash, val.data, 32); // the hash of the next node
+      type = rlp_decode(&node, **k, &val);
+      if (type == RLP_ITEM && val.len == 0) // we got a NULL, which means value does not exists
+        return last_node ? 2 : 0;
       *k += 1;
-      return 1;
+      return handle_child(val, type, k, last_node, last_val, next_hash, depth);
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0 || (*val.data >> 4) > 3)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
@@ -103,45 +106,22 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         if (match < np_len) return last_node ? 2 : 0;
 
         *k += np_len;
-        if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
-        }
-        else if (**k == 0xFF) { // we reached the end of the path
-          if (is_leaf) {
-            *last_val = val;
-            return last_node ? 3 : 0;
-          }
-          else if (last_node)
-            return 0; // this is an extension node, but the path is not complete
-
-          // follow the extension, which should lead to branch with the value.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-
-          //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
-        }
-        else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
-          return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
-        else {                      // it is an extension and we follow the extension to the branch.
-          *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
-          return 1;
-        }
+        type = rlp_decode(&node, 1, &val);
+        if (!is_leaf) // it is an extension and we follow the extension to the branch.
+          return handle_child(val, type, k, last_node, last_val, next_hash, depth);
+        if (!last_node || type != RLP_ITEM) return 0;
+        if (**k != 0xFF) return 2; // we found a leaf matching the path, but the path is not complete yet, so it does not exist.
+        *last_val = val;
+        return 3;
       }
 
     default:
       return 0;
   }
-  return 1;
 }
 
 INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_t proof, bytes_t* expected) {
-  int       result     = 1;
+  int       result     = 0; // an empty proof does not prove anything
   uint8_t*  nibbles    = patricia_to_nibbles(path, 0);
   uint8_t*  key        = nibbles;
   bytes_t   last_value = NULL_BYTES;
@@ -161,12 +141,18 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
       result = 0;
       break;
     }
-    if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
+    bytes_t node = NULL_BYTES;
+    if (rlp_decode(&witness.bytes, 0, &node) != RLP_LIST) {
+      result = 0;
+      break;
+    }
+    if (1 != (result = handle_node(node, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
   if (nibbles) safe_free(nibbles);
-  return result == 3 ? PATRICIA_FOUND : (patricia_result_t) result;
+  if (result == 3) return PATRICIA_FOUND;
+  return result == 2 ? PATRICIA_NOT_EXISTING : PATRICIA_INVALID;
 }
-- 
2.43.0


From cbd4dcae8bb37f6915f4de452c1fceb3394440ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:06 +0000
Subject: [PATCH 007/102] fix: Patricia trie builder kept stale parents, small
 roots and wrong proof nodes

---
 src/chains/eth/verifier/patricia_trie.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index f5f9c3a..9d2e4d4 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -103,7 +103,7 @@ static void node_update_hash(node_t* node, bool follow_parent, ssz_builder_t* bu
   rlp_to_list(&buf);
   node->hash_len = buf.data.len;
   if (builder) ssz_add_dynamic_list_bytes(builder, 0, buf.data);
-  if (node->hash_len >= 32) {
+  if (node->hash_len >= 32 || !node->parent) { // the root is always hashed
     keccak(buf.data, node->hash);
     node->hash_len = 32;
   }
@@ -282,6 +282,7 @@ static void set_value(node_t* parent, nibbles_t nibbles, bytes_t value) {
           *old_leaf                  = *parent;                     // with the current values
           old_leaf->values.leaf.path =                              // just adjusting the path
               nibbles_to_path(remaining_nibbles(leaf_nibbles, same + 1), old_leaf->type == NODE_TYPE_LEAF);
+          if (old_leaf->type == NODE_TYPE_EXTENSION) old_leaf->values.extension.child->parent = old_leaf;
           old_idx = leaf_nibbles.data[matching];
         }
 
@@ -358,9 +359,10 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
   builder.def           = &def;
   while (root && offset <= nibbles.len) {
     // add the node
-    if (root->hash_len >= 32)
+    if (root->hash_len >= 32) { // smaller nodes are embedded in the parent
       node_update_hash(root, false, &builder);
-    len++;
+      len++;
+    }
 
     if (offset == nibbles.len) break;
     if (root->type == NODE_TYPE_BRANCH) {
@@ -372,8 +374,9 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
     else {
       nibbles_t remaining = remaining_nibbles(nibbles, offset);
       int       leaf_nibble_len;
-      int       same = nibble_cmp(remaining, root->values.leaf.path, &leaf_nibble_len);
-      root           = root->values.extension.child;
+      int       same = nibble_cmp(remaining, root->values.extension.path, &leaf_nibble_len);
+      if (same < leaf_nibble_len) break; // the path leaves the trie here
+      root = root->values.extension.child;
       offset += same;
     }
   }
-- 
2.43.0


From 90917846667ffc020c804304bf4f041ad072e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:30 +0000
Subject: [PATCH 008/102] fix: SSZ validation, accessors and proofs were off
 for edge lengths and invalid offsets

---
 src/util/ssz.c         | 44 +++++++++++++++++++------------
 src/util/ssz_builder.c | 16 +++++++-----
 src/util/ssz_merkle.c  | 59 +++++++++++++++++++++---------------------
 3 files changed, 66 insertions(+), 53 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..9952f4a 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -143,12 +143,13 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
           THROW_INVALID("Invalid first offset for list");
+        if (first_offset / SSZ_OFFSET_SIZE > ob.def->def.vector.len) THROW_INVALID("Invalid length for list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
@@ -158,8 +159,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Fixed-size elements: total length must be multiple of element size
       size_t fixed_length = ssz_fixed_length(ob.def->def.vector.type);
       if (fixed_length == 0 || ob.bytes.len % fixed_length != 0 ||
-          ob.bytes.len > ob.def->def.vector.len * fixed_length) THROW_INVALID("Invalid length for list");
-      if (recursive && ob.def->type != SSZ_TYPE_UINT) {
+          ob.bytes.len > (uint64_t) ob.def->def.vector.len * fixed_length) THROW_INVALID("Invalid length for list");
+      if (recursive && ob.def->def.vector.type->type != SSZ_TYPE_UINT) {
         for (int i = 0; i < ob.bytes.len; i += fixed_length) {
           if (!ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + i, fixed_length)), recursive, state)) return false;
         }
@@ -167,17 +168,21 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       return true;
     }
     case SSZ_TYPE_BIT_VECTOR:
-      // Bit vector length must match definition exactly
-      RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
+      // Bit vector length must match definition exactly and the unused bits of the last byte must not be set
+      RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3 &&
+                          (ob.def->def.vector.len % 8 == 0 || (ob.bytes.data[ob.bytes.len - 1] >> (ob.def->def.vector.len % 8)) == 0),
+                      "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list length can be up to max length plus the delimiting bit, which must be set in the last byte
+      RETURN_VALID_IF(ob.bytes.len > 0 && ob.bytes.data[ob.bytes.len - 1] != 0 && ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_len = 0;
+      for (int i = 0; i < ob.def->def.container.len; i++) fixed_len += ssz_fixed_length(ob.def->def.container.elements + i);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_len) : (ob.bytes.len != fixed_len)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
@@ -186,8 +191,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
           const ssz_def_t* def = ob.def->def.container.elements + i;
           if (ssz_is_dynamic(def)) {
             uint32_t offset = uint32_from_le(ob.bytes.data + pos);
-            // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
-            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
+            // Validate offset: must be within bounds, start after the fixed portion, and monotonically increasing
+            if (offset > ob.bytes.len || (last_ob.def ? offset < last_offset : offset != fixed_len))
               THROW_INVALID("Invalid offset for container");
             if (last_ob.def) {
               last_ob.bytes = bytes(ob.bytes.data + last_offset, offset - last_offset);
@@ -213,8 +218,10 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
     case SSZ_TYPE_UNION:
       // Union: first byte is selector, remaining bytes are the selected variant
       if (ob.bytes.len == 0 || ob.bytes.data[0] >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
-      if (recursive && ob.def->def.container.elements[ob.bytes.data[0]].type != SSZ_TYPE_NONE && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
+      if (recursive && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
       return true;
+    case SSZ_TYPE_NONE:
+      RETURN_VALID_IF(ob.bytes.len == 0, "Invalid length for none");
     default:
       return true;
   }
@@ -240,13 +247,14 @@ uint32_t ssz_len(ssz_ob_t ob) {
     case SSZ_TYPE_LIST: {
       size_t fixed_length = ssz_fixed_length(ob.def->def.vector.type);
       if (fixed_length == 0) return 0;
-      return ob.bytes.len > SSZ_OFFSET_SIZE && ssz_is_dynamic(ob.def->def.vector.type)
+      return ob.bytes.len >= SSZ_OFFSET_SIZE && ssz_is_dynamic(ob.def->def.vector.type)
                  ? uint32_from_le(ob.bytes.data) / SSZ_OFFSET_SIZE
                  : ob.bytes.len / fixed_length;
     }
     case SSZ_TYPE_BIT_VECTOR:
       return ob.bytes.len * 8;
     case SSZ_TYPE_BIT_LIST: {
+      if (ob.bytes.len == 0) return 0;
       uint8_t last_bit = ob.bytes.data[ob.bytes.len - 1];
       if (last_bit == 1) return ob.bytes.len * 8 - 8;
       for (int i = 7; i >= 0; i--) {
@@ -270,15 +278,17 @@ ssz_ob_t ssz_at(ssz_ob_t ob, uint32_t index) {
     return res;
 
   if (ssz_is_dynamic(ob.def->def.vector.type)) {
+    if ((uint64_t) len * SSZ_OFFSET_SIZE > ob.bytes.len) return res;
     uint32_t offset     = uint32_from_le(ob.bytes.data + index * SSZ_OFFSET_SIZE);
     uint32_t end_offset = index < len - 1 ? uint32_from_le(ob.bytes.data + (index + 1) * SSZ_OFFSET_SIZE) : ob.bytes.len;
+    if (offset > end_offset || end_offset > ob.bytes.len) return res;
     return (ssz_ob_t) {
         .def   = ob.def->def.vector.type,
         .bytes = bytes(ob.bytes.data + offset, end_offset - offset)};
   }
 
   size_t element_size = ssz_fixed_length(ob.def->def.vector.type);
-  if (element_size * (index + 1) > ob.bytes.len)
+  if ((uint64_t) element_size * ((uint64_t) index + 1) > ob.bytes.len)
     return res;
 
   return (ssz_ob_t) {
@@ -391,11 +401,11 @@ static void dump(ssz_dump_t* ctx, ssz_ob_t ob, const char* name, int intend) {
       buffer_add_chars(buf, "{\n");
       for (int i = 0; i < def->def.container.len; i++) {
         ssz_ob_t val = ssz_get(&ob, (char*) def->def.container.elements[i].name);
-        if (val.def->flags & SSZ_FLAG_OPT_MASK) {
+        if (val.def && val.def->flags & SSZ_FLAG_OPT_MASK) {
           mask |= bytes_as_le(val.bytes);
           continue;
         }
-        if (mask && (mask & (1 << i)) == 0) continue;
+        if (mask && (mask & (((uint64_t) 1) << i)) == 0) continue;
         if (first)
           first = false;
         else
@@ -416,7 +426,7 @@ static void dump(ssz_dump_t* ctx, ssz_ob_t ob, const char* name, int intend) {
       if (def == &ssz_string_def || def->flags & SSZ_FLAG_STRING)
         bprintf(buf, ctx->no_quotes ? "%J" : "\"%J\"", (json_t) {.type = JSON_TYPE_OBJECT, .start = (char*) ob.bytes.data, .len = ob.bytes.len});
       else if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1) { // byte array
-        if (def->flags & SSZ_FLAG_UINT) {
+        if (def->flags & SSZ_FLAG_UINT && ob.bytes.len <= SSZ_MAX_UINT_SIZE) {
           bytes32_t tmp = {0};
           for (int i = 0; i < ob.bytes.len; i++) tmp[i] = ob.bytes.data[ob.bytes.len - 1 - i];
           bprintf(buf, ctx->no_quotes ? "0x%u" : "\"0x%u\"", bytes(tmp, ob.bytes.len));
diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..cea0918 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32); // the value must not exceed 32 bytes
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
@@ -267,7 +268,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
           c4_state_add_error(state, error);
           free(error);
         }
-        optmask |= 1 << i;
+        optmask |= ((uint64_t) 1) << i;
         ssz_ob_t ob = ssz_from_json(element, def->def.container.elements + i, state);
         ssz_add_bytes(&buf, def->def.container.elements[i].name, ob.bytes);
         safe_free(ob.bytes.data);
@@ -299,7 +300,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_BOOLEAN: {
       // Boolean: convert JSON boolean to 0 or 1
-      buffer_grow(&buf.fixed, 1);
+      buffer_append(&buf.fixed, bytes(NULL, 1));
       buf.fixed.data.data[0] = json_as_bool(json) ? 1 : 0;
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
@@ -348,11 +349,12 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       return ssz_builder_to_bytes(&buf);
     }
     case SSZ_TYPE_BIT_VECTOR: {
-      bytes_t bytes = json_as_bytes(json, &buf.fixed);
-      if (bytes.len > def->def.vector.len / 8)
-        buf.fixed.data.len = def->def.vector.len / 8;
-      else if (bytes.len < def->def.vector.len / 8)
-        buffer_append(&buf.fixed, bytes(NULL, def->def.vector.len / 8 - bytes.len));
+      bytes_t  bytes = json_as_bytes(json, &buf.fixed);
+      uint32_t len   = (def->def.vector.len + 7) / 8;
+      if (bytes.len > len)
+        buf.fixed.data.len = len;
+      else if (bytes.len < len)
+        buffer_append(&buf.fixed, bytes(NULL, len - bytes.len));
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_BIT_LIST:
diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..ef59551 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -57,16 +57,16 @@ typedef struct {
  * @param val The value to compute log2_ceil for
  * @return The ceiling of log2(val), or 0 if val < 2
  */
-static inline uint32_t log2_ceil(uint32_t val) {
+static inline uint32_t log2_ceil(uint64_t val) {
   if (val < 2) return 0;
 
   // Use MSVC intrinsic for counting leading zeros
   unsigned long index;
 #if defined(_MSC_VER)
-  _BitScanReverse(&index, val);
+  _BitScanReverse64(&index, val);
   uint32_t floor_log2 = index;
 #else
-  uint32_t floor_log2 = 31 - __builtin_clz(val);
+  uint32_t floor_log2 = 63 - __builtin_clzll(val);
 #endif
   return (val & (val - 1)) == 0 ? floor_log2 : floor_log2 + 1;
 }
@@ -102,7 +102,7 @@ gindex_t ssz_gindex(const ssz_def_t* def, int num_elements, ...) {
       }
     }
     else if (def->type == SSZ_TYPE_LIST) {
-      leafes = is_basic_type(def->def.vector.type) ? ((def->def.vector.len * ssz_fixed_length(def->def.vector.type) + 31) >> 5) * 2 : def->def.vector.len * 2;
+      leafes = is_basic_type(def->def.vector.type) ? ((((uint64_t) def->def.vector.len) * ssz_fixed_length(def->def.vector.type) + 31) >> 5) * 2 : ((uint64_t) def->def.vector.len) * 2;
       idx    = (uint64_t) va_arg(args, int);
       def    = def->def.vector.type;
     }
@@ -203,9 +203,9 @@ static ssz_ob_t ssz_get_field(ssz_ob_t* ob, int index) {
           if (ssz_is_dynamic(ob->def->def.container.elements + n)) {
             if (pos + 4 > ob->bytes.len) return (ssz_ob_t) {0};
 
-            offset = uint32_from_le(ob->bytes.data + pos);
-            if (offset < ob->bytes.len)
-              res.bytes.len = ob->bytes.data + offset - res.bytes.data;
+            uint32_t next_offset = uint32_from_le(ob->bytes.data + pos);
+            if (next_offset < offset || next_offset > ob->bytes.len) return (ssz_ob_t) {0};
+            res.bytes.len = next_offset - offset;
             break;
           }
           pos += ssz_fixed_length(ob->def->def.container.elements + n);
@@ -298,6 +298,17 @@ static int calc_num_leafes(const ssz_ob_t* ob, bool only_used) {
   }
 }
 
+// stores the hash in the proof, if it is one of the witnesses
+static int add_witness(merkle_ctx_t* ctx, gindex_t gindex, uint8_t* hash) {
+  int pos = gindex_indexOf(ctx->proof->witnesses, gindex);
+  if (pos >= 0) {
+    uint32_t len = (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32;
+    if (ctx->proof->proof->data.len < len) buffer_append(ctx->proof->proof, bytes(NULL, len - ctx->proof->proof->data.len));
+    memcpy(ctx->proof->proof->data.data + pos * 32, hash, 32);
+  }
+  return pos;
+}
+
 static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent);
 static void set_leaf(ssz_ob_t ob, int index, uint8_t* out, merkle_ctx_t* ctx) {
   memset(out, 0, 32);
@@ -387,8 +398,8 @@ static void merkle_hash(merkle_ctx_t* ctx, int index, int depth, uint8_t* out) {
 
 #ifdef PRECOMPILE_ZERO_HASHES
 
-    int gindex_subtree_left_leaf = gindex << subtree_depth;                          // gindex of first leaf of the current subtree
-    int gindex_last_used_leaf    = (1 << ctx->max_depth) + ctx->num_used_leafes - 1; // gindex of last leaf of the used leafes
+    gindex_t gindex_subtree_left_leaf = gindex << subtree_depth;                                       // gindex of first leaf of the current subtree
+    gindex_t gindex_last_used_leaf    = (((gindex_t) 1) << ctx->max_depth) + ctx->num_used_leafes - 1; // gindex of last leaf of the used leafes
     if (gindex_last_used_leaf < gindex_subtree_left_leaf && subtree_depth < MAX_DEPTH)
       cached_zero_hash(subtree_depth - 1, out);
     else {
@@ -408,16 +419,11 @@ static void merkle_hash(merkle_ctx_t* ctx, int index, int depth, uint8_t* out) {
 
   if (ctx->proof) {
     gindex  = ssz_add_gindex(ctx->root_gindex, gindex); // global gindex
-    int pos = gindex_indexOf(ctx->proof->witnesses, gindex);
+    int pos = add_witness(ctx, gindex, out);
     log_debug_full("gindex: %l (i: %d  d:%d  r:%l) %s %x",
                    gindex, index, depth, ctx->root_gindex, pos >= 0 ? "X" : " ", bytes(out, 32));
     //    fprintf(stderr, "gindex: %llu (i: %d  d:%d  r:%llu) %s", gindex, index, depth, ctx->root_gindex, pos >= 0 ? "X" : " ");
     //    print_hex(stderr, bytes(out, 32), " : ", "\n");
-    if (pos >= 0) {
-      buffer_grow(ctx->proof->proof, (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32);
-      ctx->proof->proof->data.len = ctx->proof->witnesses->data.len / sizeof(gindex_t) * 32;
-      memcpy(ctx->proof->proof->data.data + pos * 32, out, 32);
-    }
   }
 }
 
@@ -441,11 +447,7 @@ static void mix_in_length(uint8_t* root, uint32_t length, merkle_ctx_t* ctx) {
   uint64_to_le(length_bytes, (uint64_t) length);
   sha256_merkle(bytes(root, 32), bytes(length_bytes, 32), root);
 
-  if (ctx && ctx->proof) {
-    int pos = gindex_indexOf(ctx->proof->witnesses, ctx->root_gindex + 1);
-    if (pos >= 0 && ctx->proof->proof->data.data)
-      memcpy(ctx->proof->proof->data.data + pos * 32, length_bytes, 32);
-  }
+  if (ctx && ctx->proof) add_witness(ctx, ctx->root_gindex + 1, length_bytes);
 }
 
 /**
@@ -464,13 +466,10 @@ static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent) {
   calc_leafes(&ctx, ob);
   if (parent) {
     ctx.proof       = parent->proof;
-    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST ? parent->last_gindex * 2 : parent->last_gindex;
+    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST ? parent->last_gindex * 2 : parent->last_gindex;
   }
 
-  if (ctx.num_leafes == 1)
-    set_leaf(ob, 0, out, NULL);
-  else
-    merkle_hash(&ctx, 0, 0, out);
+  merkle_hash(&ctx, 0, 0, out);
 
   // Mix in length for variable-length types (lists and bit lists)
   if (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST)
@@ -630,10 +629,12 @@ void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t
 }
 
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
-  uint32_t depth = log2_ceil((uint32_t) gindex2 + 1) - 1;
-  if (depth > 63) {
-    log_error("gindex depth is too large: %u", depth);
+  if (gindex1 == 0 || gindex2 == 0) return 0;
+  uint32_t depth = 0;
+  while (gindex2 >> (depth + 1)) depth++;
+  if (gindex1 >> (63 - depth) > 1) {
+    log_error("gindex depth is too large: %d", depth);
     return 0;
   }
-  return (gindex1 << depth) | (gindex2 & ((1 << depth) - 1));
+  return (gindex1 << depth) | (gindex2 & ((((gindex_t) 1) << depth) - 1));
 }
-- 
2.43.0


From 449b9c70231a4af5238e43c5f1e626fe94d68224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:34 +0000
Subject: [PATCH 009/102] fix: multi merkle proofs did not bind leafes sharing
 a gindex or covered by another leaf

---
 src/util/ssz_merkle.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index ef59551..a8e3fdd 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -591,7 +591,26 @@ static bool merkle_proof(merkle_proof_data_t* proof, gindex_t start, gindex_t en
   return true;
 }
 
+// each leaf must be bound to the root, which is not the case if a leaf is covered by another leaf.
+static bool are_leafes_independent(bytes_t leafes, gindex_t* gindex) {
+  for (uint32_t i = 0; i < leafes.len / 32; i++) {
+    if (gindex[i] == 0) return false;
+    for (uint32_t j = 0; j < i; j++) {
+      if (gindex[i] == gindex[j]) {
+        if (memcmp(leafes.data + i * 32, leafes.data + j * 32, 32)) return false;
+        continue;
+      }
+      gindex_t low = gindex[i] > gindex[j] ? gindex[i] : gindex[j], high = gindex[i] > gindex[j] ? gindex[j] : gindex[i];
+      while (low > high) low >>= 1;
+      if (low == high) return false;
+    }
+  }
+  return true;
+}
+
 bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t* gindex, bytes32_t out) {
+  memset(out, 0, 32);
+  if (proof_data.len % 32 || !are_leafes_independent(leafes, gindex)) return false;
   buffer_t witnesses_gindex  = {0};
   buffer_t calculated_gindex = {0};
   for (uint32_t i = 0; i < leafes.len / 32; i++)
-- 
2.43.0


From 81b6a95bb92dbc39348ba2cf98eb0a054b6b245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:29 +0000
Subject: [PATCH 010/102] fix: type definition of created Patricia proofs was a
 dangling pointer to the stack

---
 src/chains/eth/verifier/patricia_trie.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 9d2e4d4..782c227 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -350,7 +350,9 @@ INTERNAL void patricia_set_value(node_t** root, bytes_t path, bytes_t value) {
 }
 
 INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
-  ssz_def_t     def     = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+  // static, because the returned object refers to it
+  static const ssz_def_t def = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+
   ssz_builder_t builder = {0};
   buffer_t      buf     = {0};
   nibbles_t     nibbles = path_to_nibbles(path, false);
@@ -425,7 +427,9 @@ INTERNAL node_t* patricia_clone_tree(node_t* node) {
 
 #if defined(TEST) && defined(DEBUG)
 static void rlp_dump(node_t* node) {
-  ssz_def_t     def     = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+  // static, because the returned object refers to it
+  static const ssz_def_t def = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+
   ssz_builder_t builder = {0};
   builder.def           = &def;
   node_update_hash(node, false, &builder);
-- 
2.43.0


From 422113387b09cd5adf4126e9daeef2bc90e478a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:00 +0000
Subject: [PATCH 011/102] fix: a proof only answers the method it was created
 for

---
 src/chains/eth/verifier/eth_verify.c | 36 ++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index f99770e..5b24039 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -110,8 +110,44 @@ const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_ETHEREUM ? eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) : NULL;
 }
 
+// the proof type each method needs. A proof only answers the method it was created for.
+static const struct {
+  const char*    method;
+  eth_ssz_type_t proof;
+} proof_types[] = {
+    {"eth_call", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF},
+    {"eth_getLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", ETH_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+static bool proof_answers_method(verify_ctx_t* ctx) {
+  if (!ctx->method) return true;
+  for (int i = 0; i < sizeof(proof_types) / sizeof(proof_types[0]); i++) {
+    if (strcmp(ctx->method, proof_types[i].method) == 0) return ssz_is_type(&ctx->proof, eth_ssz_verification_type(proof_types[i].proof));
+  }
+  return ctx->proof.def->type == SSZ_TYPE_NONE; // all other methods do not use a proof
+}
+
 bool c4_eth_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_ETHEREUM || c4_eth_get_chain_spec(ctx->chain_id) == NULL) return false;
+  if (!proof_answers_method(ctx)) {
+    ctx->state.error = strdup("the proof does not match the requested method");
+    ctx->success     = false;
+    return true;
+  }
   if (!c4_update_from_sync_data(ctx)) return true;
 
 #ifdef ETH_TX
-- 
2.43.0


From bc930b2bffcb84d526102933ad63947836ef6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:21 +0000
Subject: [PATCH 012/102] fix: storage values were uninitialised, overran or
 rejected for empty storage

---
 src/chains/eth/verifier/eth_account.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..e440de0 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,9 +56,9 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
-  int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+  if (values.data && values.len) memset(values.data, 0, values.len);
+  int  len   = ssz_len(storage_proofs);
+  bool empty = memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0;
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
@@ -66,11 +66,17 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     ssz_ob_t  proof   = ssz_get(&storage, "proof");
     ssz_ob_t  key     = ssz_get(&storage, "key");
     bytes_t   leaf    = {0};
+    if (empty) { // an empty storage has no nodes and all values are zero
+      if (ssz_len(proof) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+      continue;
+    }
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM) {
+      if (leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
+    }
   }
 
   return true;
@@ -85,14 +91,14 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   bytes32_t storage_hash  = {0};
 
   keccak(address.bytes, address_hash);
+  memcpy(storage_hash, EMPTY_ROOT_HASH, 32);
 
   switch (field) {
     case ETH_ACCOUNT_CODE_HASH:
       memcpy(values.data, EMPTY_HASH, 32);
       break;
     case ETH_ACCOUNT_STORAGE_HASH:
-      memcpy(values.data, EMPTY_ROOT_HASH, 32);
-      break;
+      break; // only the storage values are set, see verify_storage
     default:
       memset(values.data, 0, 32);
       break;
@@ -106,11 +112,11 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
     if (rlp_decode(&rlp_account, 0, &rlp_account) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
     if (rlp_decode(&rlp_account, 2, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     // get the storage hash from the proof
-    if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
+    if (field_value.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     memcpy(storage_hash, field_value.data, field_value.len);
 
     // get the field value from the proof
-    if (field) {
+    if (field && field != ETH_ACCOUNT_STORAGE_HASH) {
       if (rlp_decode(&rlp_account, field - 1, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
       if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof on execution layer!");
       memcpy(values.data + 32 - field_value.len, field_value.data, field_value.len);
-- 
2.43.0


From aab2404c0e75e482ce68811f592d3eee1155380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:24 +0000
Subject: [PATCH 013/102] fix: an exclusion proof must not deliver the value of
 the neighbouring leaf

---
 src/chains/eth/verifier/eth_account.c | 43 +++++++--------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index e440de0..135dbdd 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -128,25 +128,17 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// the value stored for the key (or NULL_BYTES if the proof shows that there is none)
+static bytes_t get_proven_value(ssz_ob_t proof, bytes_t key) {
+  bytes32_t path  = {0};
+  bytes32_t root  = {0};
+  bytes_t   value = NULL_BYTES;
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "proof"), ssz_get(&storage, "key").bytes);
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -155,7 +147,7 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_proven_value(ssz_get(&account, "accountProof"), ssz_get(&account, "address").bytes);
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -315,21 +307,6 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
-}
-
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
@@ -357,7 +334,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), bytes(verified_address, 20));
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-- 
2.43.0


From 5a95f00b01fb45a4da086e925a8983c257ddef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:45 +0000
Subject: [PATCH 014/102] fix: storage proofs were not compared with the
 requested keys

---
 src/chains/eth/verifier/eth_account.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 135dbdd..47a1ebb 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -307,12 +307,37 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
+static bool matches_storage_key(ssz_ob_t storage_proofs, uint32_t index, json_t requested) {
+  bytes32_t tmp     = {0};
+  buffer_t  buf     = stack_buffer(tmp);
+  ssz_ob_t  storage = ssz_at(storage_proofs, index);
+  bytes_t   key     = ssz_get(&storage, "key").bytes;
+  if (requested.type != JSON_TYPE_STRING || requested.len > 68 || key.len != 32) return false;
+  bytes_t value = json_as_bytes(requested, &buf);
+  return value.data && value.len <= 32 && bytes_all_zero(bytes(key.data, 32 - value.len)) && memcmp(key.data + 32 - value.len, value.data, value.len) == 0;
+}
+
+// the storage proofs must be exactly for the keys in the request
+static bool verify_requested_keys(verify_ctx_t* ctx, eth_account_field_t field) {
+  ssz_ob_t storage_proofs = ssz_get(&ctx->proof, "storageProof");
+  uint32_t len            = ssz_len(storage_proofs);
+  if (field == ETH_ACCOUNT_STORAGE_HASH) return len == 1 && matches_storage_key(storage_proofs, 0, json_at(ctx->args, 1));
+  if (field != ETH_ACCOUNT_PROOF) return true;
+  json_t keys = json_at(ctx->args, 1);
+  if (keys.type != JSON_TYPE_ARRAY || json_len(keys) != len) return false;
+  for (uint32_t i = 0; i < len; i++) {
+    if (!matches_storage_key(storage_proofs, i, json_at(keys, i))) return false;
+  }
+  return true;
+}
+
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
   if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!verify_requested_keys(ctx, field)) RETURN_VERIFY_ERROR(ctx, "storage proof does not match the keys in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
-- 
2.43.0


From 929ab4a5c43378c933d196aea1a4c2c9b8dddcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:49 +0000
Subject: [PATCH 015/102] fix: account data of another type or for a request
 without a valid address was accepted

---
 src/chains/eth/verifier/eth_account.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 47a1ebb..4c9fcbb 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -336,7 +336,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!req_address.data || req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
   if (!verify_requested_keys(ctx, field)) RETURN_VERIFY_ERROR(ctx, "storage proof does not match the keys in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
@@ -399,7 +399,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     }
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
-  else if (field == ETH_ACCOUNT_CODE_HASH) {
+  else if (field == ETH_ACCOUNT_CODE_HASH && ssz_is_type(&data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES))) {
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
-- 
2.43.0


From 0478749346cac40048b7beec367c63281901870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:26 +0000
Subject: [PATCH 016/102] fix: eth_getProof of a missing account wrote a NULL
 balance and dropped the requested keys

---
 src/chains/eth/verifier/eth_account.c | 28 +++++++++++++--------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 4c9fcbb..9d418c8 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -361,16 +361,16 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
         bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), bytes(verified_address, 20));
         bytes_t       value         = {0};
+        ssz_builder_t storage_list  = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
+        for (int i = 0; i < values.len / 32; i++) {
+          ssz_builder_t storage_builder = ssz_builder_for_def(storage_list.def->def.vector.type);
+          ssz_ob_t      storage         = ssz_at(storage_proof, i);
+          ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
+          ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
+          ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
+          ssz_add_dynamic_list_builders(&storage_list, values.len / 32, storage_builder);
+        }
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
-          ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          for (int i = 0; i < values.len / 32; i++) {
-            ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
-            ssz_ob_t      storage         = ssz_at(storage_proof, i);
-            ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
-            ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
-            ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
-          }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
           rlp_decode(&account, 3, &value);
@@ -379,17 +379,15 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           ssz_add_uint256(&builder, value); // nonce
           rlp_decode(&account, 2, &value);
           ssz_add_bytes(&builder, "storageHash", value);
-          ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_builders(&builder, "storageProof", storage_list_builder);
         }
         else {
-          ssz_add_bytes(&builder, "balance", bytes(0, 32));
+          ssz_add_uint256(&builder, NULL_BYTES); // balance
           ssz_add_bytes(&builder, "codeHash", bytes(EMPTY_HASH, 32));
-          ssz_add_bytes(&builder, "nonce", bytes(0, 32));
+          ssz_add_uint256(&builder, NULL_BYTES); // nonce
           ssz_add_bytes(&builder, "storageHash", bytes(EMPTY_ROOT_HASH, 32));
-          ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_bytes(&builder, "storageProof", NULL_BYTES);
         }
+        ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
+        ssz_add_builders(&builder, "storageProof", storage_list);
 
         ctx->data = ssz_builder_to_bytes(&builder);
         break;
-- 
2.43.0


From 41035929c36c943dbaef95002803a242e2770a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:30 +0000
Subject: [PATCH 017/102] fix: account and call proofs for a block hash were
 accepted for every other block only

---
 src/chains/eth/verifier/eth_account.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 9d418c8..0b0e4b3 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -278,12 +278,12 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
   uint8_t   leafes[64]         = {0};
   memcpy(leafes, state_root, 32);
   memcpy(leafes + 32, block.bytes.data, block.bytes.len);
-  ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root);
+  if (!ssz_verify_multi_merkle_proof(state_merkle_proof.bytes, bytes(leafes, block.def->type == SSZ_TYPE_NONE ? 32 : 64), gindex, body_root)) RETURN_VERIFY_ERROR(ctx, "invalid state proof!");
   if (block_number.type == JSON_TYPE_STRING && strncmp(block_number.start, "\"0x", 3) == 0) {
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-- 
2.43.0


From 31215fa40a4090557e1a7e1682670475746d4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:12 +0000
Subject: [PATCH 018/102] fix: a failed verification without an error message
 was reported as success

---
 src/verifier/verify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..b8921d1 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -87,6 +87,8 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   // verify the proof
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
+  else if (!ctx->success && !ctx->state.error && !c4_state_get_pending_request(&ctx->state))
+    ctx->state.error = strdup("verification failed"); // without a reason, but never report unverified data as success
 
   return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
 }
-- 
2.43.0


From bf421f149dcdd849a6dbf295d26feb48c22354cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:58 +0000
Subject: [PATCH 019/102] fix: block data attached to the request was returned
 unverified

---
 src/chains/eth/verifier/verify_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..a297d96 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,7 +84,7 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
+  if (ctx->flags & VERIFY_FLAG_FREE_DATA) return; // already created, data passed with the request is never used, since it is not verified
 
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
@@ -119,7 +119,7 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 }
 
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
-  if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  if (req_block.type != JSON_TYPE_STRING || req_block.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
   if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
@@ -175,7 +175,7 @@ bool verify_block_number_proof(verify_ctx_t* ctx) {
   ssz_ob_t  header       = ssz_get(&ctx->proof, "header");
 
   // calculate the tree root of the execution payload
-  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
+  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid block number proof!");
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
 
-- 
2.43.0


From 5119dba0f061784b3dedd479e279a6fcbe6243e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:19 +0000
Subject: [PATCH 020/102] fix: v and chainId of legacy transactions were taken
 from the first byte of v only

---
 src/chains/eth/ssz/verify_data_types.h |  2 +-
 src/chains/eth/verifier/eth_tx.c       | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index ac2a438..12f5592 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -108,7 +108,7 @@ static const ssz_def_t ETH_TX_DATA[] = {
     SSZ_BYTES32("r"),                                                          // the r value of the transaction
     SSZ_BYTES32("s"),                                                          // the s value of the transaction signature
     SSZ_UINT32("chainId"),                                                     // the chain ID of the transaction
-    SSZ_UINT8("v"),                                                            // the v value of the transaction signature
+    SSZ_UINT64("v"),                                                           // the v value of the transaction signature
     SSZ_UINT64("gas"),                                                         // the gas limit
     SSZ_ADDRESS("from"),                                                       // the sender of the transaction
     SSZ_BYTES("to", 20),                                                       // the target of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..21b995d 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -697,7 +697,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   bytes_t  rlp_tx_sig_y_parity              = {0};
   bytes_t  rlp_v_field                      = {0};
   uint8_t  tx_sig_y_parity                  = 0;
-  uint8_t  v_for_ssz                        = 0;
+  uint64_t v_for_ssz                        = 0;
   uint32_t chain_id                         = 0;
   uint64_t gas_price_rlp_val                = 0;
   uint64_t max_priority_fee_per_gas_rlp_val = 0;
@@ -727,10 +727,9 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    v_for_ssz       = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity = (v_for_ssz + 1) % 2;
+    chain_id        = (uint32_t) (v_for_ssz < 35 ? 1 : (v_for_ssz - 35 - tx_sig_y_parity) / 2);
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
@@ -781,7 +780,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   }
 
   ssz_add_uint32(buffer, chain_id);
-  ssz_add_uint8(buffer, v_for_ssz);
+  ssz_add_uint64(buffer, v_for_ssz);
   ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gas", RLP_ITEM)));
   ssz_add_bytes(buffer, "from", bytes(from_address, 20));
   ssz_add_bytes(buffer, "to", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "to", RLP_ITEM));
-- 
2.43.0


From 2f66df4cf0d4612a284fb1036cbfec3f55385e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:49 +0000
Subject: [PATCH 021/102] fix: transaction index of the request was truncated
 before comparing it with the proof

---
 src/chains/eth/verifier/verify_tx_proof.c | 8 ++++++--
 src/chains/op/verifier/op_verify_tx.c     | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..a1fdbe3 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -74,6 +74,10 @@ static bool create_eth_tx_data(verify_ctx_t* ctx, bytes_t raw, bytes32_t block_h
   ctx->flags |= VERIFY_FLAG_FREE_DATA;
   return true;
 }
+static bool verify_index(json_t index, uint32_t tx_index) {
+  return index.len <= 20 && json_as_uint64(index) == tx_index; // 20 = 64 bit as hex with prefix and quotes
+}
+
 static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes32_t block_hash) {
   if (ctx->method == NULL) return true;
   if (strcmp(ctx->method, "eth_getTransactionByHash") == 0) {
@@ -85,13 +89,13 @@ static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes
     bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
     if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!verify_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     uint64_t req_block_num = json_as_uint64(json_at(ctx->args, 0));
     if (!req_block_num) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (req_block_num != ssz_get_uint64(&ctx->proof, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!verify_index(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else
     RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 150edc1..6480e67 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -57,14 +57,14 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_at(ctx->args, 1).len > 20 || json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
     bytes32_t block_hash_expected = {0};
     buffer_t  buf                 = stack_buffer(block_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_at(ctx->args, 1).len > 20 || json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     if (execution_payload == NULL) return false; // error already set
     bytes_t block_hash_found = ssz_get(execution_payload, "blockHash").bytes;
-- 
2.43.0


From 3a75bf3931f0bec1d590e1f4fcbedb1e200fd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:13 +0000
Subject: [PATCH 022/102] fix: oversized or missing signature values of a
 transaction overran the buffer

---
 src/chains/eth/verifier/eth_tx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 21b995d..51472ed 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -198,7 +198,7 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
-  rlp_decode(&raw_tx, defs.len - 4, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 4, &last_item) < RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
@@ -225,9 +225,9 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
 
   uint8_t sig[65]    = {0};
   uint8_t pubkey[64] = {0};
-  rlp_decode(&raw_tx, defs.len - 2, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 2, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 32 - last_item.len, last_item.data, last_item.len);
-  rlp_decode(&raw_tx, defs.len - 1, &last_item);
+  if (rlp_decode(&raw_tx, defs.len - 1, &last_item) != RLP_ITEM || last_item.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid signature!");
   memcpy(sig + 64 - last_item.len, last_item.data, last_item.len);
   sig[64] = (uint8_t) (v > 28 ? (v % 2 ? 27 : 28) : v);
 
-- 
2.43.0


From 71c9f1500ec63795902dc406d07ab806e29d17f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:58 +0000
Subject: [PATCH 023/102] fix: receipts with a wrong type, data of another type
 or altered log positions were accepted

---
 src/chains/eth/verifier/eth_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 51472ed..0592175 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -297,11 +297,12 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   tx_type_t type    = 0;
   bytes_t   val     = {0};
   bytes32_t tx_hash = {0};
+  if (!ssz_is_type(&receipt_data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "invalid receipt data type!");
   keccak(tx_raw, tx_hash);
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -336,6 +337,9 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (!bytes_eq(ssz_get(&log, "transactionHash").bytes, bytes(tx_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "a log of the chain can not be removed!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
-- 
2.43.0


From bb04c2af239196cad0aaec158dfb889d84094f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:23 +0000
Subject: [PATCH 024/102] fix: logs were accepted without being compared with
 the filter, the arguments or the data type

---
 src/chains/eth/verifier/eth_tx.c            | 57 +++++++++++++++++++++
 src/chains/eth/verifier/eth_tx.h            |  1 +
 src/chains/eth/verifier/verify_logs_proof.c |  6 +--
 src/chains/op/verifier/op_verify_logs.c     |  7 +--
 4 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 0592175..239ccf0 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -270,6 +270,62 @@ static bool matches(ssz_ob_t log, bytes_t logs) {
   return true;
 }
 
+// checks the bytes of a log against a filter value, which is either a hexvalue or a list of alternatives.
+static bool matches_filter(json_t filter, bytes_t value) {
+  if (filter.type == JSON_TYPE_ARRAY) {
+    int len = json_len(filter);
+    for (int i = 0; i < len; i++) {
+      if (matches_filter(json_at(filter, i), value)) return true;
+    }
+    return len == 0;
+  }
+  if (filter.type != JSON_TYPE_STRING) return filter.type == JSON_TYPE_NULL || filter.type == JSON_TYPE_NOT_FOUND;
+  bytes32_t tmp = {0};
+  buffer_t  buf = stack_buffer(tmp);
+  return filter.len == 2 * value.len + 4 && bytes_eq(json_as_bytes(filter, &buf), value);
+}
+
+// checks the blocknumber of a log, tags can not be checked here.
+static bool matches_range(json_t filter, uint64_t block_number, bool is_lower_bound) {
+  if (filter.type != JSON_TYPE_STRING || filter.len < 5 || strncmp(filter.start + 1, "0x", 2)) return true;
+  if (filter.len > 20) return false;
+  uint64_t limit = json_as_uint64(filter);
+  return is_lower_bound ? block_number >= limit : block_number <= limit;
+}
+
+static bool log_matches_filter(json_t filter, ssz_ob_t log) {
+  uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
+  ssz_ob_t log_topics   = ssz_get(&log, "topics");
+  json_t   topics       = json_get(filter, "topics");
+  if (!matches_filter(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (!matches_filter(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  if (!matches_range(json_get(filter, "fromBlock"), block_number, true)) return false;
+  if (!matches_range(json_get(filter, "toBlock"), block_number, false)) return false;
+  int topics_len = topics.type == JSON_TYPE_ARRAY ? json_len(topics) : 0;
+  for (int i = 0; i < topics_len; i++) {
+    bytes_t topic = i < ssz_len(log_topics) ? ssz_at(log_topics, i).bytes : NULL_BYTES;
+    if (!matches_filter(json_at(topics, i), topic)) return false;
+  }
+  return true;
+}
+
+INTERNAL bool c4_tx_prepare_logs(verify_ctx_t* ctx) {
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    if (ctx->flags & VERIFY_FLAG_FREE_DATA) return true; // already taken from the args in a previous run
+    if (ctx->data.def->type != SSZ_TYPE_NONE || ctx->args.type != JSON_TYPE_ARRAY) RETURN_VERIFY_ERROR(ctx, "the logs to verify must be passed as arguments!");
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    return ctx->state.error == NULL;
+  }
+
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid logs data type!");
+  uint32_t log_count = ssz_len(ctx->data);
+  for (uint32_t i = 0; i < log_count && ctx->method; i++) {
+    if (!log_matches_filter(json_at(ctx->args, 0), ssz_at(ctx->data, i))) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
+  }
+  return true;
+}
+
 INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw) {
   bytes32_t tx_hash = {0};
   bytes_t   val     = {0};
@@ -280,6 +336,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+  if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "a log of the chain can not be removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
   uint32_t logs_len = rlp_decode(&logs, -1, &logs);
diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..2963a77 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -97,6 +97,7 @@ bool    c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* ad
 bool    c4_tx_verify_tx_hash(verify_ctx_t* ctx, bytes_t raw);
 bool    c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
 bool    c4_tx_verify_receipt_proof(verify_ctx_t* ctx, ssz_ob_t receipt_proof, uint32_t tx_index, bytes32_t receipt_root, bytes_t* receipt_raw);
+bool    c4_tx_prepare_logs(verify_ctx_t* ctx); // takes the logs from the args (eth_verifyLogs) or checks the given logs against the filter
 bool    c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
 bytes_t c4_eth_create_tx_path(uint32_t tx_index, buffer_t* buf);
 bool    c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer, bytes_t raw_tx,
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..50135d4 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,11 +83,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -136,6 +131,7 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
 }
 
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  if (!c4_tx_prepare_logs(ctx)) return false;
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..9c1ec43 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,12 +40,6 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
@@ -117,6 +111,7 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 }
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
+  if (!c4_tx_prepare_logs(ctx)) return false;
 
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
-- 
2.43.0


From 2684f3ad8e73e8bb59d2e4011a9463608272bf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:12 +0000
Subject: [PATCH 025/102] fix: fields of a receipt could be hidden or added by
 the mask of the prover

---
 src/chains/eth/verifier/eth_tx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 239ccf0..f20cc6f 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -349,6 +349,11 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
 
+// bits of the _optmask in ETH_RECEIPT_DATA
+#define RECEIPT_TO              (1 << 7)
+#define RECEIPT_REQUIRED_FIELDS 0x1d7e // all but to, gasUsed and effectiveGasPrice
+#define RECEIPT_DEPOSIT_FIELDS  0xc000 // depositNonce and depositReceiptVersion
+
 INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw) {
   bytes32_t tmp     = {0};
   tx_type_t type    = 0;
@@ -367,6 +372,10 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   if (!bytes_eq(ssz_get(&receipt_data, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&receipt_data, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
   if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&receipt_data, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+  // all verified fields must be part of the result, the deposit fields only for deposit transactions ("to" may be missing when creating a contract)
+  uint32_t mask     = ssz_get_uint32(&receipt_data, "_optmask");
+  uint32_t required = RECEIPT_REQUIRED_FIELDS | (val.len ? RECEIPT_TO : 0);
+  if ((mask & required) != required || (type != TX_TYPE_DEPOSITED && (mask & RECEIPT_DEPOSIT_FIELDS))) RETURN_VERIFY_ERROR(ctx, "invalid fields in receipt data!");
 
   if (type != TX_TYPE_LEGACY) {
     if (receipt_raw.len < 1 || receipt_raw.data[0] != type) RETURN_VERIFY_ERROR(ctx, "invalid type!");
-- 
2.43.0


From 961ea15434b06f160b0b06ea5b75ddb27efd2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:53 +0000
Subject: [PATCH 026/102] fix: headers signed by less than two thirds of the
 sync committee were trusted

---
 src/chains/eth/verifier/beacon_header.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..a200af3 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -73,7 +73,7 @@ bool eth_calculate_domain(chain_id_t chain_id, uint64_t slot, bytes32_t domain)
   // compute fork_data root hash to the seconf 32 bytes of bffer
   if (!chain) return false;
   chain->fork_version_func(chain_id, c4_chain_fork_id(chain_id, epoch_for_slot(slot - 1, chain)), buffer); // write fork_version as first 4 bytes into the buffer
-  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) false;                                      // add the genesis_validator_root as the the other 32 bytes to the buffer.
+  if (!c4_chain_genesis_validators_root(chain_id, buffer + 4)) return false;                               // add the genesis_validator_root as the the other 32 bytes to the buffer.
 
   ssz_hash_tree_root(ssz_ob(FORK_DATA_CONTAINER, bytes(buffer, 36)), base_digest); // calculate base_digest
 
@@ -91,6 +91,12 @@ static bool calculate_signing_message(verify_ctx_t* ctx, uint64_t slot, bytes32_
   return true;
 }
 
+static uint32_t participation(bytes_t bits) {
+  uint32_t count = 0;
+  for (uint32_t i = 0; i < bits.len * 8; i++) count += (bits.data[i / 8] >> (i % 8)) & 1;
+  return count;
+}
+
 static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t header_proof) {
   ssz_ob_t  headers           = ssz_get(&header_proof, "headers"); // the intermediate headers between the current block and the block with the signature
   ssz_ob_t  signed_header     = ssz_get(&header_proof, "header");  // the block matching the signature
@@ -159,7 +165,10 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   ssz_hash_tree_root(*header, root);
 
   // compute signing message and store it in root again
-  calculate_signing_message(ctx, slot, root, root);
+  if (!calculate_signing_message(ctx, slot, root, root)) return C4_ERROR;
+
+  // a header is only trusted if at least 2/3 of the sync committee signed it
+  if (participation(sync_committee_bits->bytes) * 3 < sync_committee_bits->bytes.len * 8 * 2) THROW_ERROR("not enough sync committee participants!");
 
 #ifdef BLOCK_HASH_CACHE
   valid = is_already_validated(root);
-- 
2.43.0


From b69355a6d386c5f0f8fd15e74642f33afadb551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:56 +0000
Subject: [PATCH 027/102] fix: historic proofs were accepted for any position
 in the signed state

---
 src/chains/eth/verifier/beacon_header.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index a200af3..3e2ac6a 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -120,13 +120,30 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the only place in the state of the signed block, where the root of the block at the given slot is allowed to be found:
+// state.historical_summaries[period].block_summary_root -> block_roots[slot % 8192], or 0 if there is no summary for this slot.
+static uint64_t historic_block_gindex(const chain_spec_t* spec, chain_id_t chain_id, uint64_t signed_slot, uint64_t slot) {
+  uint64_t period       = slot >> 13;                                                                       // one summary for 8192 slots
+  uint64_t first_period = spec->fork_epochs[C4_FORK_BELLATRIX] >> spec->epochs_per_period_bits;             // the summaries start with the capella fork
+  uint64_t gindex       = (c4_chain_fork_id(chain_id, epoch_for_slot(signed_slot, spec)) >= C4_FORK_ELECTRA ? 64 : 32) + 27; // historical_summaries
+  if (period < first_period || period - first_period >= (1 << 24)) return 0;
+  gindex = ((gindex * 2) << 24) + (period - first_period); // the summary in the list
+  return ((gindex * 2) << 13) + (slot & 8191);             // block_summary_root is the first field of the summary
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
+  uint64_t  gindex        = ssz_get_uint64(&historic_proof, "gindex");
+
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec) THROW_ERROR("unsupported chain id!");
+  if (gindex != historic_block_gindex(spec, ctx->chain_id, ssz_get_uint64(&signed_header, "slot"), ssz_get_uint64(&header, "slot")))
+    THROW_ERROR("invalid gindex for historic proof!");
 
   ssz_hash_tree_root(header, block_root);
-  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
+  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, gindex, state_root);
 
   if (memcmp(state_root, ssz_get(&signed_header, "stateRoot").bytes.data, 32))
     THROW_ERROR("invalid state root for historic proof!");
-- 
2.43.0


From fc1f774c5b774f361cf48fa2188dbe201261dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:19 +0000
Subject: [PATCH 028/102] fix: responses set by a binding were parsed as JSON
 without terminator, empty responses kept a request pending forever

---
 bindings/colibri.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..ea73f7a 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -143,9 +143,12 @@ void c4_free_prover_ctx(prover_t* ctx) {
 }
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
-  data_request_t* ctx      = (data_request_t*) req_ptr;
-  ctx->response            = bytes_dup(bytes(data.data, data.len));
-  ctx->response_node_index = node_index;
+  data_request_t* ctx = (data_request_t*) req_ptr;
+  safe_free(ctx->response.data);
+  ctx->response = bytes(safe_malloc(data.len + 1), data.len); // always 0-terminated, since a json-response is parsed as string
+  if (data.len) memcpy(ctx->response.data, data.data, data.len);
+  ctx->response.data[data.len] = 0;
+  ctx->response_node_index     = node_index;
 }
 
 void c4_req_set_error(void* req_ptr, char* error, uint16_t node_index) {
-- 
2.43.0


From d52b699f75f89731cbf335bfc4230c66323443dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:22 +0000
Subject: [PATCH 029/102] fix: a still pending request was added again with an
 already freed url

---
 src/chains/eth/verifier/sync_committee_state.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..fef337e 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -191,10 +191,9 @@ static bool req_client_update(c4_state_t* state, uint32_t period, uint32_t count
       *data = req->response;
       return true;
     }
-    else if (req->error) {
+    else if (req->error)
       c4_state_add_error(state, req->error);
-      return false;
-    }
+    return false;
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
@@ -240,10 +239,9 @@ bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t*
       json_as_bytes(root, &root_buf);
       return true;
     }
-    else if (req->error) {
+    else if (req->error)
       c4_state_add_error(state, req->error);
-      return false;
-    }
+    return false;
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
@@ -278,10 +276,9 @@ static bool req_bootstrap(c4_state_t* state, bytes32_t block_root, chain_id_t ch
       *data = req->response;
       return true;
     }
-    else if (req->error) {
+    else if (req->error)
       c4_state_add_error(state, req->error);
-      return false;
-    }
+    return false;
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
-- 
2.43.0


From 57baeaa0dbd9f8cb60c07d30294ba49c2fbc98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:46 +0000
Subject: [PATCH 030/102] fix: light client updates with a wrong length were
 read beyond the end of the response

---
 src/chains/eth/verifier/sync_committee.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..2ea22e2 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -302,7 +302,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
         break;
       }
       pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE));
-      if (pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
+      if (pos > light_client_updates.len || light_client_updates.len - pos < UPDATE_PREFIX_SIZE) {
         success = false;
         c4_state_add_error(&ctx->state, "invalid offset in lighthouse client update!");
         break;
@@ -312,8 +312,8 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
 
     length = uint64_from_le(light_client_updates.data + pos);
 
-    // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
+    // the length counts the 4 bytes before the data, and the data must be within the bounds
+    if (length < data_length_offset || data_offset > light_client_updates.len || length - data_length_offset > light_client_updates.len - data_offset) {
       success = false;
       c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
       break;
-- 
2.43.0


From 00000ff61587097f9383891e63a2a6d32e541488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:35 +0000
Subject: [PATCH 031/102] fix: the weak subjectivity check was skipped after
 waiting for the checkpoint, for updates inside of a proof and failed for
 lists in lighthouse format

---
 src/chains/eth/verifier/sync_committee.c      |  30 ++++-
 src/chains/eth/verifier/sync_committee.h      |  12 +-
 .../eth/verifier/sync_committee_state.c       | 123 ++++++++----------
 3 files changed, 89 insertions(+), 76 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 2ea22e2..b5f349f 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -72,7 +72,8 @@ static uint64_t finalized_root_gindex(chain_id_t chain_id, uint64_t slot) {
   return fork == C4_FORK_DENEB ? DENEP_FINALIZED_ROOT_GINDEX : ELECTRA_FINALIZED_ROOT_GINDEX;
 }
 
-static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update) {
+static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  (void) data;
 
   bytes32_t sync_root             = {0};
   bytes32_t merkle_root           = {0};
@@ -185,11 +186,27 @@ static bool update_from_lc_sync_data(verify_ctx_t* ctx) {
     if (chain_state.status == C4_STATE_SYNC_CHECKPOINT && c4_handle_bootstrap(ctx, bootstrap.bytes, chain_state.data.checkpoint) != C4_SUCCESS) return false;
   }
 
+  // updates spanning more than the weak subjectivity period need to be confirmed by the checkpoint source,
+  // so in this case we don't use them, but fetch and check them as soon as the validators are needed.
+  const chain_spec_t* spec        = c4_eth_get_chain_spec(ctx->chain_id);
+  uint32_t            updates_len = ssz_len(updates);
+  uint32_t            last_period = 0;
+  for (uint32_t i = 0; i < updates_len; i++) {
+    ssz_ob_t update   = ssz_union(ssz_at(updates, i));
+    ssz_ob_t attested = ssz_get(&update, "attestedHeader");
+    ssz_ob_t header   = ssz_get(&attested, "beacon");
+    uint32_t period   = period_for_slot(ssz_get_uint64(&header, "slot"), spec) + 1;
+    if (period > last_period) last_period = period;
+  }
+  if (c4_exceeds_weak_subjectivity(ctx->chain_id, last_period)) {
+    ctx->sync_data.def = &ssz_none;
+    return true;
+  }
+
   // run all light client updates
-  uint32_t updates_len = ssz_len(updates);
   for (uint32_t i = 0; i < updates_len; i++) {
     ssz_ob_t update = ssz_union(ssz_at(updates, i));
-    if (!update_light_client_update(ctx, &update)) return false;
+    if (!update_light_client_update(ctx, &update, NULL)) return false;
   }
 
   // we may want to clean up the sync data, so we don't sync again.
@@ -282,9 +299,10 @@ static bool detect_update_format(bytes_t data) {
  * @param ctx Verification context
  * @param light_client_updates Raw bytes containing one or more light client updates
  * @param process_update Callback function to process each individual update
+ * @param data data passed to the callback
  * @return true if all updates were processed successfully, false otherwise
  */
-INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*)) {
+INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*, void*), void* data) {
   uint64_t length     = 0;
   bool     success    = true;
   bool     lighthouse = detect_update_format(light_client_updates);
@@ -338,7 +356,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
     }
 
     // Process this update using the callback
-    if (!process_update(ctx, &light_client_update_ob)) {
+    if (!process_update(ctx, &light_client_update_ob, data)) {
       success = false;
       break;
     }
@@ -359,5 +377,5 @@ INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_u
   }
 
   // Process all light client updates using the general processor
-  return c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update);
+  return c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update, NULL);
 }
diff --git a/src/chains/eth/verifier/sync_committee.h b/src/chains/eth/verifier/sync_committee.h
index 234ea26..3112539 100644
--- a/src/chains/eth/verifier/sync_committee.h
+++ b/src/chains/eth/verifier/sync_committee.h
@@ -122,9 +122,10 @@ bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t client_updates);
  * @param ctx Verification context
  * @param light_client_updates Raw SSZ-encoded updates
  * @param process_update Callback function invoked for each update
+ * @param data data passed to the callback
  * @return true if all updates processed successfully, false on error
  */
-bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*));
+bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*, void*), void* data);
 
 /**
  * Handle and process raw light client bootstrap data from Beacon API.
@@ -189,6 +190,15 @@ fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data);
  */
 uint64_t c4_current_sync_committee_gindex(chain_id_t chain_id, uint64_t slot);
 
+/**
+ * Checks if the given period is further away from the periods already known than the weak subjectivity period allows.
+ *
+ * @param chain_id Chain identifier
+ * @param period the period to reach
+ * @return true if a checkpoint source must confirm the updates leading to this period
+ */
+bool c4_exceeds_weak_subjectivity(chain_id_t chain_id, uint32_t period);
+
 c4_chain_state_t c4_state_deserialize(bytes_t data);
 
 bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t* checkpoint_epoch, bytes32_t checkpoint_root);
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index fef337e..b13dfc8 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -618,49 +618,37 @@ static void clear_sync_state(chain_id_t chain_id) {
   storage_conf.del(name);
 }
 
+bool c4_exceeds_weak_subjectivity(chain_id_t chain_id, uint32_t period) {
 #ifdef USE_CHECKPOINTZ
-/**
- * Find the most recent finalized checkpoint from verified light client updates.
- * Iterates through all cached light_client/updates requests to find the highest finalized slot.
- * Used for weak subjectivity validation when syncing across large time gaps.
- *
- * @param ctx Verification context with cached requests
- * @param checkpoint_root Output parameter for the finalized checkpoint root
- * @return Slot number of the last finalized checkpoint, or 0 if not found
- */
-static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes32_t checkpoint_root) {
-  ssz_ob_t finalized_header = {0};
-  uint64_t finalized_slot   = 0;
-  for (data_request_t* req = ctx->state.requests; req; req = req->next) {
-    if (req->type == C4_DATA_TYPE_BEACON_API && strncmp(req->url, "eth/v1/beacon/light_client/updates", 34) == 0 && req->response.data && req->response.len > 0 && req->encoding == C4_DATA_ENCODING_SSZ) {
-      bytes_t  client_updates = req->response;
-      uint64_t length         = 0;
-      for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-        uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-        uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-        length                      = uint64_from_le(client_updates.data + pos);
-
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
-        bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
-        fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
-        const ssz_def_t* client_update_def   = eth_get_light_client_update(fork);
-        if (!client_update_def) break;
-
-        ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
-        ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
-        ssz_ob_t header    = ssz_get(&finalized, "beacon");
-        uint64_t slot      = ssz_get_uint64(&header, "slot");
-        if (slot > finalized_slot) {
-          finalized_slot   = slot;
-          finalized_header = header;
-        }
-      }
-    }
-  }
-  if (finalized_slot == 0) return 0;
-  ssz_hash_tree_root(finalized_header, checkpoint_root);
-  return finalized_slot;
+  const chain_spec_t* spec           = c4_eth_get_chain_spec(chain_id);
+  c4_chain_state_t    state          = c4_get_chain_state(chain_id);
+  uint32_t            count          = period_count(&state);
+  uint32_t            highest_period = 0;
+  for (uint32_t i = 0; i < count; i++)
+    highest_period = state.data.periods[i] > highest_period ? state.data.periods[i] : highest_period;
+  if (!spec || highest_period == 0 || period <= highest_period) return false; // No gap, no need to check
+  return (((uint64_t) (period - highest_period)) << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
+#else
+  (void) chain_id;
+  (void) period;
+  return false;
+#endif
+}
+
+#ifdef USE_CHECKPOINTZ
+typedef struct {
+  ssz_ob_t header;
+  uint64_t slot;
+} finality_checkpoint_t;
+
+static bool find_finalized_header(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  (void) ctx;
+  finality_checkpoint_t* last      = (finality_checkpoint_t*) data;
+  ssz_ob_t               finalized = ssz_get(update, "finalizedHeader");
+  ssz_ob_t               header    = ssz_get(&finalized, "beacon");
+  uint64_t               slot      = ssz_get_uint64(&header, "slot");
+  if (slot > last->slot) *last = (finality_checkpoint_t) {.header = header, .slot = slot};
+  return true;
 }
 
 /**
@@ -680,10 +668,13 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * ## Implementation
  *
  * When a sync gap exceeds the WSP, this function:
- * 1. Finds the last verified finalized checkpoint from cached light client updates
+ * 1. Finds the last finalized checkpoint in the light client updates
  * 2. Queries checkpointz (external beacon node) for the block root at that slot
  * 3. Verifies that both roots match, confirming we're on the canonical chain
  *
+ * This happens before any of the updates is stored, since otherwise the committees they contain would
+ * already be used while waiting for the response.
+ *
  * ## When to Disable (USE_CHECKPOINTZ=OFF)
  *
  * Disabling checkpointz (which disables this function AND bootstrap checkpoint fetching) is acceptable when:
@@ -698,30 +689,22 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * https://github.com/runtimeverification/beacon-chain-verification/blob/master/weak-subjectivity/weak-subjectivity-analysis.pdf
  *
  * @param ctx Verification context
- * @param sync_state Current sync committee state
- * @param target_period Target period to sync to
+ * @param client_updates the updates leading to the target period
  * @return C4_SUCCESS if validation passes, C4_ERROR if checkpoint mismatch, C4_PENDING if waiting for checkpointz response
  */
-static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
-  const chain_spec_t* spec                                   = c4_eth_get_chain_spec(ctx->chain_id);
-  bytes32_t           last_verified_finality_checkpoint_root = {0};
-  if (!spec) return C4_SUCCESS; // Cannot validate without spec
-
-  // Calculate period difference
-  if (target_period <= sync_state->highest_period) return C4_SUCCESS; // No gap, no need to check
-
-  uint32_t period_diff = target_period - sync_state->highest_period;
-  uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;
-
-  // Check if we exceed weak subjectivity period
-  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
-
-  // first find the last finality checkpoint we have verifier during a light_client_update.
-  uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
+static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, bytes_t client_updates) {
+  bytes32_t             last_finality_checkpoint_root = {0};
+  finality_checkpoint_t last                          = {0};
+
+  // first find the last finality checkpoint in the updates.
+  if (!c4_process_light_client_updates(ctx, client_updates, find_finalized_header, &last))
+    return c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+  uint64_t finality_slot = last.slot;
   if (!finality_slot) {
     clear_sync_state(ctx->chain_id);
     return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
   }
+  ssz_hash_tree_root(last.header, last_finality_checkpoint_root);
 
   buffer_t url_buf = {0};
   bprintf(&url_buf, "eth/v1/beacon/blocks/%l/root", finality_slot);
@@ -770,7 +753,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
     buffer_t  root_buf         = {.data = bytes(checkpointz_root, 32), .allocated = -32};
     json_as_bytes(root, &root_buf);
 
-    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
+    if (memcmp(checkpointz_root, last_finality_checkpoint_root, 32) != 0) {
       clear_sync_state(ctx->chain_id);
       return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
     }
@@ -942,18 +925,20 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
-      if (!c4_handle_client_updates(ctx, light_client_updates))
+      // Check weak subjectivity period BEFORE storing any of the updates
+      // If this fails, clear_sync_state() is called inside to force re-initialization
+      bool exceeds_wsp = c4_exceeds_weak_subjectivity(ctx->chain_id, period);
+#ifdef USE_CHECKPOINTZ
+      if (exceeds_wsp) TRY_ASYNC(c4_check_weak_subjectivity(ctx, light_client_updates));
+#endif
+      if (!c4_handle_client_updates(ctx, light_client_updates)) {
+        if (exceeds_wsp) clear_sync_state(ctx->chain_id); // the confirmed checkpoint is not based on the updates, so none of them can be trusted
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+      }
     }
     else
       return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Check weak subjectivity period BEFORE loading new sync state
-    // If this fails, clear_sync_state() is called inside to force re-initialization
-#ifdef USE_CHECKPOINTZ
-    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
-#endif
-
     // Load new sync state after successful WSP check
     sync_state = get_validators_from_cache(ctx, period);
     if (sync_state.validators.data == NULL) return c4_state_add_error(&ctx->state, "Failed to get validators");
-- 
2.43.0


From 7c62914b811690bf14383e7a7c7cc2d43475c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:56 +0000
Subject: [PATCH 032/102] fix: light client updates of an unknown period caused
 an endless recursion

---
 src/chains/eth/verifier/sync_committee.c       | 6 +++++-
 src/chains/eth/verifier/sync_committee_state.c | 3 +++
 src/verifier/verify.h                          | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index b5f349f..cb17f00 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -377,5 +377,9 @@ INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_u
   }
 
   // Process all light client updates using the general processor
-  return c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update, NULL);
+  verify_flags_t flags = ctx->flags;
+  ctx->flags |= VERIFY_FLAG_SYNCING;
+  bool success = c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update, NULL);
+  ctx->flags   = flags;
+  return success;
 }
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index b13dfc8..9712e84 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -904,6 +904,9 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
   c4_sync_validators_t sync_state = get_validators_from_cache(ctx, period);
 
   if (sync_state.validators.data == NULL) {
+    // handling a light client update must never start another sync, since it would end up handling the same update again.
+    if (ctx->flags & VERIFY_FLAG_SYNCING) THROW_ERROR("the light client update is not based on a known sync committee");
+
     // Strategy 1: No cached periods exist - initialize from trusted checkpoint
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
diff --git a/src/verifier/verify.h b/src/verifier/verify.h
index 9d5412f..0e8f519 100644
--- a/src/verifier/verify.h
+++ b/src/verifier/verify.h
@@ -80,6 +80,7 @@ typedef uint32_t verify_flags_t;
  */
 typedef enum {
   VERIFY_FLAG_FREE_DATA = 1 << 0, // if set, the data section will be freed after verification. This flag is set when the verifier generates the actual result data from the proof and needs cleanup afterwards.
+  VERIFY_FLAG_SYNCING   = 1 << 1, // set while light client updates are handled, which must be based on already known committees.
 } verify_flag_t;
 
 /**
-- 
2.43.0


From 4eb0abc74c52442f07e49ac9262db6de1833bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:33 +0000
Subject: [PATCH 033/102] fix: periods were stored twice and a limit above 8
 wrote beyond the list of periods

---
 .../eth/verifier/sync_committee_state.c       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 9712e84..2f05954 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -353,13 +353,15 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
   uint32_t periods = period_count(state);
   char     name[100];
 
-  while (periods >= max_states) {
+  if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS;
+
+  while (periods && periods >= max_states) {
     uint32_t oldest       = 0;
     uint32_t latest       = 0;
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (uint32_t i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
@@ -390,6 +392,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     periods--;
+    state->data.periods[periods] = 0;
   }
 
   return periods;
@@ -445,11 +448,19 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
-  // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  // is this period already tracked?
+  uint32_t periods = period_count(&state);
+  bool     known   = false;
+  for (uint32_t i = 0; i < periods && !known; i++)
+    known = state.data.periods[i] == period;
+
+  if (!known) {
+    // Cleanup old periods if storage limit reached
+    periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
 
-  // Add new period to tracking
-  state.data.periods[periods] = period;
+    // Add new period to tracking
+    state.data.periods[periods] = period;
+  }
 
   // Store the sync committee data
   if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
-- 
2.43.0


From d7e2a37d72fb466770d8e2c2ed57444618424337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:52 +0000
Subject: [PATCH 034/102] fix: missing or damaged keys of a stored period made
 the client unusable, the hash of the previous keys was lost

---
 .../eth/verifier/sync_committee_state.c       | 86 ++++++++++++++-----
 1 file changed, 64 insertions(+), 22 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 2f05954..83246f2 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -512,6 +512,34 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
   }
 }
 
+/**
+ * Remove a period from the chain state, because its keys are missing or not usable.
+ *
+ * @param chain_id Chain identifier
+ * @param state the chain state, which will be updated and stored
+ * @param period the period to remove
+ */
+static void drop_period(chain_id_t chain_id, c4_chain_state_t* state, uint32_t period) {
+  storage_plugin_t storage_conf = {0};
+  uint32_t         count        = period_count(state);
+  uint32_t         remaining    = 0;
+  char             name[100];
+  for (uint32_t i = 0; i < count; i++) {
+    if (state->data.periods[i] != period) state->data.periods[remaining++] = state->data.periods[i];
+  }
+  for (uint32_t i = remaining; i < count; i++) state->data.periods[i] = 0;
+
+  c4_get_storage_config(&storage_conf);
+  sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, period);
+  storage_conf.del(name);
+  if (remaining)
+    c4_set_chain_state(chain_id, state);
+  else {
+    sbprintf(name, "states_%l", (uint64_t) chain_id);
+    storage_conf.del(name);
+  }
+}
+
 /**
  * Retrieve sync committee validators from persistent storage cache.
  * Handles BLS deserialization if needed and strips the 32-byte previous_pubkeys_hash suffix.
@@ -547,22 +575,21 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
   c4_get_storage_config(&storage_conf);
   sbprintf(name, "sync_%l_%d", (uint64_t) ctx->chain_id, period);
 
-  for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
-    uint32_t p = chain_state.data.periods[i];
-    if (p == period) found = true;
-    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
-    highest_period = p > highest_period ? p : highest_period;
-  }
+  for (uint32_t i = 0; i < period_count(&chain_state); i++)
+    found = found || chain_state.data.periods[i] == period;
 
-  if (found && storage_conf.get) storage_conf.get(name, &validators);
+  if (found && storage_conf.get && !storage_conf.get(name, &validators)) validators.data.len = 0;
   log_debug("fetch from cache %s : %d bytes)", name, validators.data.len);
-  if (validators.data.len % 48 == 32)
-    memcpy(previous_root, validators.data.data + validators.data.len - 32, 32);
+
+  // Strip the 32-byte root from validators data if present
+  if (validators.data.len == 512 * 48 + 32 || validators.data.len == 512 * 96 + 32) {
+    validators.data.len -= 32;
+    memcpy(previous_root, validators.data.data + validators.data.len, 32);
+  }
 
 #ifdef BLS_DESERIALIZE
   // Check if validators need deserialization (only pubkeys, not including the 32-byte root)
-  size_t expected_serialized_size = 512 * 48 + 32;
-  if (validators.data.data && (validators.data.len == expected_serialized_size || validators.data.len == 512 * 48)) {
+  if (validators.data.data && validators.data.len == 512 * 48) {
     log_debug("deserializing validators (len=%d)", validators.data.len);
 #ifdef C4_STATIC_MEMORY
     memcpy(keys_48_buffer, validators.data.data, 512 * 48);
@@ -572,27 +599,40 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
     buffer_free(&validators);
 #endif
     validators.data = b;
-    storage_conf.set(name, b);
+#ifdef C4_STATIC_MEMORY
+    if (b.data) storage_conf.set(name, b);
+#else
+    if (b.data) store_sync_period(period, b, previous_root, ctx->chain_id);
+#endif
     //    log_debug("storing deserialized validators: %d bytes", b.len);
   }
-  else if (validators.data.data && validators.data.len == 512 * 48 + 32) {
-    // Old format without deserialization - just strip the root
-    validators.data.len = 512 * 48;
-    log_debug("stripping root from validators (len=%d)", validators.data.len);
-  }
   else
     log_debug("found validators (len=%d)", validators.data.len);
-
+  bool usable = validators.data.data && validators.data.len == 512 * 96;
 #else
-  // Strip the 32-byte root from validators data if present
-  if (validators.data.len >= 32) {
-    validators.data.len -= 32;
-  }
   log_debug("found validators (NO DESERIALIZATION) (len=%d)", validators.data.len);
+  bool usable = validators.data.data && validators.data.len == 512 * 48;
 #endif
 
+  if (!usable) {
+#ifndef C4_STATIC_MEMORY
+    if (validators.data.data) buffer_free(&validators);
+#endif
+    validators.data = NULL_BYTES;
+    if (found) drop_period(ctx->chain_id, &chain_state, period); // otherwise we would never try to get the keys again
+  }
+
+  for (uint32_t i = 0; i < period_count(&chain_state); i++) {
+    uint32_t p     = chain_state.data.periods[i];
+    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
+    highest_period = p > highest_period ? p : highest_period;
+  }
+
   if (validators.data.len == 0) validators.data.data = NULL; // just to make sure we mark it as not found, even if we are using static memory
 
+  if (found && validators.data.data == NULL && period_count(&chain_state) == 0)
+    c4_state_add_error(&ctx->state, "the stored sync committee is not usable, the state has been reset");
+
   c4_sync_validators_t result = {
       .deserialized   = validators.data.data && validators.data.len > 512 * 48,
       .current_period = period,
@@ -915,6 +955,8 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
   c4_sync_validators_t sync_state = get_validators_from_cache(ctx, period);
 
   if (sync_state.validators.data == NULL) {
+    if (ctx->state.error) return C4_ERROR;
+
     // handling a light client update must never start another sync, since it would end up handling the same update again.
     if (ctx->flags & VERIFY_FLAG_SYNCING) THROW_ERROR("the light client update is not based on a known sync committee");
 
-- 
2.43.0


From 43e5356f2154e7c4d5316c96b6cd43ae951736fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:27 +0000
Subject: [PATCH 035/102] fix: a period before the highest known one could not
 be synced, because the keys of the wrong period were fetched

---
 .../eth/verifier/sync_committee_state.c       | 89 +++++++++----------
 1 file changed, 40 insertions(+), 49 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 83246f2..b6fbe5c 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -816,6 +816,13 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, bytes_t client_
 }
 #endif // USE_CHECKPOINTZ
 
+static bool get_next_pubkeys(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  (void) ctx;
+  ssz_ob_t next_sync_committee = ssz_get(update, "nextSyncCommittee");
+  *((bytes_t*) data)           = ssz_get(&next_sync_committee, "pubkeys").bytes;
+  return true;
+}
+
 /**
  * Pragmatic fallback to sync a period using the next period's previous_pubkeys_hash.
  *
@@ -845,8 +852,8 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, bytes_t client_
  *
  * If signature verification fails with period N+1's keys:
  * 1. Check if we have period N+1 cached (highest_period == period + 1)
- * 2. Fetch the light_client_update for period N
- * 3. Extract nextSyncCommittee (which represents period N+1's keys)
+ * 2. Fetch the light_client_update for period N-1
+ * 3. Extract nextSyncCommittee (which represents period N's keys)
  * 4. Hash these keys and compare against the stored previous_pubkeys_hash
  * 5. If match: use the keys from step 3 for verification
  *
@@ -860,7 +867,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, bytes_t client_
  */
 static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t period, c4_sync_validators_t* sync_state) {
   // Check if this edge case applies: we have period+1 but not period
-  if (sync_state->highest_period != period + 1)
+  if (sync_state->highest_period != period + 1 || period == 0)
     return C4_SUCCESS; // Not applicable - this is not an error, just means edge case doesn't apply
 
   // Verify we have an anchor point (either lowest period or the next period)
@@ -879,62 +886,45 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
 #ifndef C4_STATIC_MEMORY
   // Free next_sync_state validators as we only needed the previous_pubkeys_hash
   safe_free(next_sync_state.validators.data);
-  safe_free(sync_state->validators.data);
 #endif
+  if (bytes_all_zero(bytes(previous_hash, 32))) return C4_SUCCESS; // no hash available, so we need the normal sync
 
-  // Step 3: Fetch the light_client_update for period N from Beacon API
+  // Step 3: Fetch the light_client_update for period N-1 from Beacon API, since its nextSyncCommittee is the committee of period N
   bytes_t   light_client_update = {0};
+  bytes_t   pubkeys             = {0};
   bytes32_t computed_root       = {0};
-  if (req_client_update(&ctx->state, period, 1, ctx->chain_id, &light_client_update)) {
-    // Parse the SSZ-encoded update
-    fork_id_t        fork              = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update);
-    const ssz_def_t* client_update_def = eth_get_light_client_update(fork);
-
-    if (!client_update_def || light_client_update.len < UPDATE_PREFIX_SIZE)
-      THROW_ERROR("Invalid light client update format in edge case sync");
-
-    // Navigate to the first update in the list
-    uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
-      THROW_ERROR("Invalid offset in light client update list");
-
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
-    bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
-    ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
+  if (!req_client_update(&ctx->state, period - 1, 1, ctx->chain_id, &light_client_update))
+    return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
-    ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
-    if (ssz_is_error(next_sync_committee))
-      THROW_ERROR("Failed to extract nextSyncCommittee from light client update");
+  // Step 4: Extract the keys of the nextSyncCommittee from the update
+  if (!c4_process_light_client_updates(ctx, light_client_update, get_next_pubkeys, &pubkeys))
+    THROW_ERROR("Failed to extract nextSyncCommittee from light client update");
+  if (!pubkeys.data) return C4_SUCCESS; // no update available, so we need the normal sync
 
-    // Step 5: Compute the hash of these keys (optionally deserialize for efficiency)
+  // Step 5: Compute the hash of these keys (optionally deserialize for efficiency)
 #ifdef BLS_DESERIALIZE
-    bytes_t b = blst_deserialize_p1_affine(ssz_get(&next_sync_committee, "pubkeys").bytes.data, 512, NULL);
+#ifdef C4_STATIC_MEMORY
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, sync_buffer);
 #else
-    bytes_t b = bytes_dup(ssz_get(&next_sync_committee, "pubkeys").bytes);
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, NULL);
 #endif
-    sha256(b, computed_root);
-
-    // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
-    // This proves the keys we fetched are indeed period N's keys
-    bool valid = memcmp(previous_hash, computed_root, 32) == 0;
-    if (valid)
-      sync_state->validators = b; // Success! Use these keys for verification
-    else {
-      safe_free(b.data);
-      THROW_ERROR("Sync committee root mismatch in period transition edge case");
-    }
-
-    // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
-    if (!c4_set_sync_period(period, ssz_get(&next_sync_committee, "pubkeys").bytes, ctx->chain_id, no_prev)) {
-      safe_free(b.data);
-      THROW_ERROR("Failed to store sync committee for period transition");
-    }
-
-    return C4_SUCCESS;
+#else
+  bytes_t b = bytes_dup(pubkeys);
+#endif
+  if (b.data) sha256(b, computed_root);
+
+  // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
+  // This proves the keys we fetched are indeed period N's keys, if not, we need the normal sync
+  // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
+  if (b.data && memcmp(previous_hash, computed_root, 32) == 0 && c4_set_sync_period(period, pubkeys, ctx->chain_id, no_prev)) {
+    sync_state->validators   = b; // Success! Use these keys for verification
+    sync_state->deserialized = b.len > 512 * 48;
   }
+#if !defined(C4_STATIC_MEMORY) || !defined(BLS_DESERIALIZE)
   else
-    return ctx->state.error ? C4_ERROR : C4_PENDING;
+    safe_free(b.data);
+#endif
+  return C4_SUCCESS;
 }
 
 /**
@@ -965,7 +955,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
       // Recursively call to retrieve the period after initialization
-      return c4_get_validators(ctx, period, target_state, NULL);
+      return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
 
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
@@ -975,6 +965,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Check if edge case fallback succeeded
     if (sync_state.validators.data) {
       *target_state = sync_state;
+      if (pubkey_hash) sha256(sync_state.validators, pubkey_hash);
       return C4_SUCCESS;
     }
 
-- 
2.43.0


From 4d70340b3a8e2e2726b4ed6cc4e58cba51a1a411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:30 +0000
Subject: [PATCH 036/102] fix: light client updates attested in the first slot
 of a fork were rejected, since the signature slot was ignored

---
 src/chains/eth/verifier/sync_committee.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index cb17f00..f0957ec 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -94,12 +94,18 @@ static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update, void
   ssz_ob_t sync_committee      = ssz_get(update, "nextSyncCommittee");
   ssz_ob_t attested_state_root = ssz_get(&attested_header, "stateRoot");
   uint64_t attested_slot       = ssz_get_uint64(&attested_header, "slot");
+  uint64_t signature_slot      = ssz_get_uint64(update, "signatureSlot");
+
+  // the slot of the block with the signature determines the fork used for signing, but the committee must still be the one of the attested period
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (signature_slot <= attested_slot || period_for_slot(signature_slot, spec) != period_for_slot(attested_slot, spec))
+    RETURN_VERIFY_ERROR(ctx, "invalid signature slot in light client update!");
 
   // calculate the attested blockhash
   ssz_hash_tree_root(attested_header, attested_blockhash);
 
   // verify the signature of the old sync committee against the attested header
-  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot, previous_pubkeys_hash) != C4_SUCCESS)
+  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, signature_slot, previous_pubkeys_hash) != C4_SUCCESS)
     return false;
 
   // verify nextSyncCommittee merkle proof against attested state root
@@ -116,8 +122,7 @@ static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update, void
 
   // calculate finalized blockhash and store it with the next sync committee
   // +1 because nextSyncCommittee is for the next period
-  const chain_spec_t* spec   = c4_eth_get_chain_spec(ctx->chain_id);
-  uint32_t            period = (attested_slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits)) + 1;
+  uint32_t period = (attested_slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits)) + 1;
   return c4_set_sync_period(period, ssz_get(&sync_committee, "pubkeys").bytes, ctx->chain_id, previous_pubkeys_hash);
 }
 static bool verify_signatures(verify_ctx_t* ctx, ssz_ob_t checkpoint_ob, ssz_ob_t attested_header, ssz_ob_t signatures) {
-- 
2.43.0


From c99542a0d9161d878e96fe14b10c9e9fde0a7e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 037/102] fix: endless recursion if the checkpoint or the first
 sync committee could not be stored

---
 src/chains/eth/verifier/sync_committee_state.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index b6fbe5c..2484e1e 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -487,14 +487,14 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
 
       // No state exists - fetch checkpoint from checkpointz server
       if (c4_req_checkpointz_status(state, ctx->chain_id, &checkpoint_epoch, checkpoint_root)) {
-        // Set the checkpoint as trusted blockhash
+        // Set the checkpoint as trusted blockhash and process the bootstrap with the new trusted checkpoint
         c4_eth_set_trusted_checkpoint(ctx->chain_id, checkpoint_root);
-        // Recursively call init_sync_state to process the bootstrap with the new trusted checkpoint
-        return init_sync_state(ctx);
+        memcpy(chain_state.data.checkpoint, checkpoint_root, 32);
       }
       else
         // Request is either pending or failed
         return state->error ? C4_ERROR : C4_PENDING;
+      // fall through
 
     case C4_STATE_SYNC_CHECKPOINT: {
       // We have a trusted checkpoint - use bootstrap
@@ -954,6 +954,8 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
+      c4_chain_state_t chain_state = c4_get_chain_state(ctx->chain_id);
+      if (period_count(&chain_state) == 0) THROW_ERROR("the sync committee could not be stored");
       // Recursively call to retrieve the period after initialization
       return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
-- 
2.43.0


From 2ce26632bd67f7762eb18e96fc5962438bbd06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:06 +0000
Subject: [PATCH 038/102] fix: out of bounds read for light client data with an
 offset close to 2^32

---
 src/chains/eth/verifier/sync_committee.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index f0957ec..b0ecc26 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -275,9 +275,9 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 }
 
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
-  if (data.len < 4) return 0;
+  if (data.len < 8) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if (offset > data.len - 8) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
-- 
2.43.0


From 5f893025cda8a08675654655afa3864d4e666e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:49 +0000
Subject: [PATCH 039/102] fix: the block tag finalized was never accepted by
 the prover

---
 src/chains/eth/prover/beacon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3a8ddfc..3f09e74 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -37,7 +37,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
   if (strncmp(block.start, "\"latest\"", 8) == 0)
     sbprintf(((char*) key) + 1, "%s", "latest");
-  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 12) == 0) {
+  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 11) == 0) {
     sbprintf((char*) key, "%s", FINALITY_KEY);
     return;
   }
@@ -56,7 +56,7 @@ static beacon_head_t* c4_beacon_cache_get_slot(prover_ctx_t* ctx, json_t block)
   if (strncmp(block.start, "\"latest\"", 8) == 0 && !cached) {
     log_warn("Slatest block not found in cache, but it is requested! This should not happen!");
   }
-  if (cached && strncmp(block.start, "\"finalized\"", 12) == 0) return cached + 1;
+  if (cached && strncmp(block.start, "\"finalized\"", 11) == 0) return cached + 1;
   return cached;
 }
 static bool c4_beacon_cache_get_blockdata(prover_ctx_t* ctx, bytes32_t block_root, beacon_block_t* beacon_block) {
@@ -380,7 +380,7 @@ static inline c4_status_t eth_get_block_roots(prover_ctx_t* ctx, json_t block, b
     return C4_SUCCESS; // latest -  we do nothing since 2 empty root_hashes are returned, which will trigger head-requests
   else if (strncmp(block.start, "\"safe\"", 6) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, true, data_root, NULL));
-  else if (strncmp(block.start, "\"finalized\"", 12) == 0)
+  else if (strncmp(block.start, "\"finalized\"", 11) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, false, data_root, NULL));
   else if (block.type == JSON_TYPE_STRING && block.len == 68) // blockhash
     TRY_ASYNC(eth_get_by_hash(ctx, block, data_root));
-- 
2.43.0


From 9ba3dbcf1fea64547860c4d93679f93dd5e4fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:14 +0000
Subject: [PATCH 040/102] fix: eth_getCode was requested for the unknown block
 tag lastest instead of the block of the proof

---
 src/chains/eth/prover/eth_req.c         | 2 +-
 src/chains/eth/prover/proof_account.c   | 2 +-
 src/chains/eth/prover/proof_call.c      | 2 +-
 src/chains/op/prover/op_proof_account.c | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 8224b07..62e9e56 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -112,7 +112,7 @@ c4_status_t eth_get_code(prover_ctx_t* ctx, json_t address, json_t* code, uint64
   char            tmp[120];
   buffer_t        buf = stack_buffer(tmp);
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"lastest\"]", address), DEFAULT_TTL, code, &req));
+  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"0x%lx\"]", address, block_number), DEFAULT_TTL, code, &req));
   if (req && !req->validated) {
     CHECK_JSON(*code, "bytes", "Invalid results for Code: ");
     req->validated = true;
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index b9a8c07..63cdca5 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -78,7 +78,7 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
 
   // make sure we have the full code
-  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, 0));
+  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index cfae54a..87babd0 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -193,7 +193,7 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
     else if ((ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE) == 0)
       code.type = JSON_TYPE_BOOLEAN;
     else
-      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, 0));
+      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, block_number));
   }
 
   add_account(
diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index 3819805..e43a9fc 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -69,7 +69,7 @@ static ssz_builder_t create_storage_proof(prover_ctx_t* ctx, const ssz_def_t* de
   return storage_proof;
 }
 
-static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof, json_t address, json_t block_number, ssz_builder_t block_proof) {
+static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof, json_t address, uint64_t block_number, ssz_builder_t block_proof) {
 
   json_t        json_code         = {0};
   address_t     address_buf       = {0};
@@ -78,7 +78,7 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   ssz_builder_t eth_account_proof = ssz_builder_for_op_type(OP_SSZ_VERIFY_ACCOUNT_PROOF);
 
   // make sure we have the full code
-  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, 0));
+  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, block_number));
 
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
@@ -123,6 +123,6 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
   block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
-  TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number, block_proof), ssz_builder_free(&block_proof));
+  TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number_uint64, block_proof), ssz_builder_free(&block_proof));
   return C4_SUCCESS;
 }
\ No newline at end of file
-- 
2.43.0


From 7203e4768a1b23a60e1cc06b12cbb36c4b7da9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:36 +0000
Subject: [PATCH 041/102] fix: empty lists and empty bytes were left out of the
 proof, so a result without any logs could not be verified

---
 src/chains/eth/prover/eth_tools.c | 2 +-
 src/chains/op/prover/op_tools.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/eth_tools.c b/src/chains/eth/prover/eth_tools.c
index 5aa8c44..1e7f12f 100644
--- a/src/chains/eth/prover/eth_tools.c
+++ b/src/chains/eth/prover/eth_tools.c
@@ -30,7 +30,7 @@
 #include "version.h"
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def)
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index 6ee4b16..c3d1901 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -9,7 +9,7 @@
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def)
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
-- 
2.43.0


From 9934ed0cf5388a2d0b6fe5851f4883caed1c2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:39 +0000
Subject: [PATCH 042/102] fix: required period for logs was shifted into the
 wrong direction

---
 src/chains/eth/prover/proof_logs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index 09d2bf1..f4d7b6d 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot << (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = highest_block->beacon_block.slot >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
-- 
2.43.0


From d0379b0c4e153083d448fdd32fdcea83591f89da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:58 +0000
Subject: [PATCH 043/102] fix: headers between the signed and the requested
 block were added in the wrong order

---
 src/chains/eth/prover/historic_proof.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..6c0f9f1 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -91,17 +91,22 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
   for (int i = 0; i <= MAX_HISTORIC_PROOF_HEADER_DEPTH; i++) {
     if (i == MAX_HISTORIC_PROOF_HEADER_DEPTH) {
       buffer_free(&proof_headers);
+      buffer_free(&proof);
       THROW_ERROR("Max header limit reached!");
     }
 
     if (memcmp(root, src_block->data_block_root, 32) == 0) break;
-    TRY_ASYNC_CATCH(get_beacon_header(ctx, root, &header), buffer_free(&proof));
+    TRY_ASYNC_CATCH(get_beacon_header(ctx, root, &header), buffer_free(&proof); buffer_free(&proof_headers));
     json_get_bytes(header, "parent_root", &root_buf);
-    buffer_add_le(&proof, json_get_uint64(header, "slot"), 8);
-    buffer_add_le(&proof, json_get_uint64(header, "proposer_index"), 8);
-    buffer_append(&proof, json_get_bytes(header, "state_root", &header_buf));
-    buffer_append(&proof, json_get_bytes(header, "body_root", &header_buf));
+    // we walk from the newest to the oldest header, but the verifier needs them in ascending order, so we always insert at the beginning.
+    buffer_reset(&proof_headers);
+    buffer_add_le(&proof_headers, json_get_uint64(header, "slot"), 8);
+    buffer_add_le(&proof_headers, json_get_uint64(header, "proposer_index"), 8);
+    buffer_append(&proof_headers, json_get_bytes(header, "state_root", &header_buf));
+    buffer_append(&proof_headers, json_get_bytes(header, "body_root", &header_buf));
+    buffer_splice(&proof, 0, 0, proof_headers.data);
   }
+  buffer_free(&proof_headers);
 
   block_proof->sync_aggregate = src_block->sync_aggregate;
   block_proof->historic_proof = proof.data.len ? bytes_dup(proof.data) : bytes(NULL, 0);
-- 
2.43.0


From 39062acd6b5b3b59b57afd575ceaba252d93e76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:02 +0000
Subject: [PATCH 044/102] fix: updates starting with the first period were
 requested if the client has no state yet

---
 src/chains/eth/prover/historic_proof.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 6c0f9f1..10fa245 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -349,6 +349,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
     safe_free(zk_proof.signatures.data);
     return C4_SUCCESS;
   }
+  if (sync_data->checkpoint_period == 0 && sync_data->newest_period == 0) return C4_SUCCESS; // without knowing the state of the client, we don't know where to start
   if (sync_data->checkpoint_period == 0 && sync_data->required_period <= sync_data->newest_period) return C4_SUCCESS;
 
   builder->def            = C4_ETH_REQUEST_SYNCDATA_UNION + 1; // TODO find a way to better handle this in the future, so updates on ssz will not break the build.
-- 
2.43.0


From 90d16ea041b1045ee5b7891c2bace66e810e4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:12 +0000
Subject: [PATCH 045/102] fix: light client updates with wrong lengths or fewer
 updates than requested created an invalid proof

---
 src/chains/eth/prover/historic_proof.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 10fa245..ca59a70 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -297,7 +297,6 @@ static c4_status_t fetch_bootstrap_data(prover_ctx_t* ctx, syncdata_state_t* syn
 
 static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_data, ssz_builder_t* updates) {
   ssz_ob_t result     = {0};
-  uint32_t count      = (uint32_t) (sync_data->required_period - sync_data->newest_period);
   char     query[100] = {0};
   sbprintf(query, "start_period=%l&count=%l", sync_data->newest_period, sync_data->required_period - sync_data->newest_period);
   if (ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)
@@ -309,13 +308,18 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
 
   bytes_t  client_updates = result.bytes;
   uint64_t length         = 0;
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
+  uint32_t count          = 0; // the number of updates contained in the response, which may be less than requested
+
+  for (uint32_t pos = 0; pos < client_updates.len; pos += length + SSZ_LENGTH_SIZE, count++) {
+    length = pos + UPDATE_PREFIX_SIZE < client_updates.len ? uint64_from_le(client_updates.data + pos) : 0;
+    if (length <= SSZ_OFFSET_SIZE || length > client_updates.len - pos - SSZ_LENGTH_SIZE) THROW_ERROR("Invalid update data!");
+  }
+
+  for (uint32_t pos = 0; pos < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
     uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
     ssz_ob_t  update              = {.bytes = client_update_bytes, .def = eth_get_light_client_update(fork)};
-- 
2.43.0


From 25ff63f716c49e92fa33a02395ab389d4ce2b4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:23 +0000
Subject: [PATCH 046/102] fix: blocks of the deneb fork with attester slashings
 had a wrong body root

---
 src/chains/eth/ssz/beacon_denep.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..cf82278 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -116,9 +116,9 @@ static const ssz_def_t ATTESTATION_DATA[] = {
 
 // an index attestation is a list of attesting indices, a data and a signature
 static const ssz_def_t INDEX_ATTESTATION[] = {
-    SSZ_LIST("attestingIndices", ssz_uint8, 2048), // the list of attesting indices
-    SSZ_CONTAINER("data", ATTESTATION_DATA),       // the data of the attestation
-    SSZ_BYTE_VECTOR("signature", 96)               // the BLS signature of the attestation
+    SSZ_LIST("attestingIndices", ssz_uint64_def, 2048), // the list of attesting indices
+    SSZ_CONTAINER("data", ATTESTATION_DATA),           // the data of the attestation
+    SSZ_BYTE_VECTOR("signature", 96)                   // the BLS signature of the attestation
 };
 
 // a signed beacon block header is a beacon block header and a signature
-- 
2.43.0


From dc3de8bb5461c335fda75199ebf4aea0af90ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:12 +0000
Subject: [PATCH 047/102] fix: block hashes starting with a zero were rejected
 as block parameter

---
 src/util/json_validate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index b9ef260..678f1b3 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -172,6 +172,7 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
 static const char* check_block(json_t val, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected block number", error_prefix);
   if (strncmp("\"latest\"", val.start, 8) == 0 || strncmp("\"safe\"", val.start, 6) == 0 || strncmp("\"finalized\"", val.start, 11) == 0) return NULL;
+  if (val.len == 68) return check_hex(val, 32, false, error_prefix); // a blockhash may start with zeros
   return check_hex(val, 0, true, error_prefix);
 }
 
-- 
2.43.0


From b15941c2767da2cba6777ffb550cc271a29cac7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:38 +0000
Subject: [PATCH 048/102] fix: historic proofs for logs of multiple periods
 were created for the highest period only

---
 src/chains/eth/prover/historic_proof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index ca59a70..e240baa 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -173,7 +173,7 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   if (chain == NULL) THROW_ERROR("unsupported chain id!");
   if (!ctx->client_state.len || !(ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)) return C4_SUCCESS; // no client state means we can't check for historic proofs and assume we simply use the synccommittee for this block.
   uint64_t state_period = block_proof->sync.oldest_period;                                     // this is the oldest period we have in the client state
-  uint64_t block_period = block_proof->sync.required_period;                                   // the period of the target block
+  uint64_t block_period = slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits); // the period of the target block, sync.required_period may be higher, if there are more blocks to proof
   if (!state_period) return C4_SUCCESS;                                                        // the client does not have a state yet, so he might as well get the head and verify the block.
   if (block_period >= state_period) return C4_SUCCESS;                                         // the target block is within the current range of the client
 
-- 
2.43.0


From 68687bfbcf4165f5d0455fff302373331c3ccee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:09 +0000
Subject: [PATCH 049/102] fix: rpc params of long filters were truncated by a
 fixed size buffer

---
 src/chains/eth/prover/eth_req.c | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 62e9e56..1e70d00 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -40,10 +40,9 @@
 #define JSON_ACCESS_LIST_FIELDS "{accessList:[{address:address,storageKeys:[hex32]}],error?:string,gasUsed:hexuint}"
 
 c4_status_t get_eth_tx(prover_ctx_t* ctx, json_t txhash, json_t* tx_data) {
-  uint8_t         tmp[200];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getTransactionByHash", bprintf(&buf, "[%J]", txhash), DEFAULT_TTL, tx_data, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getTransactionByHash", bprintf(&buf, "[%J]", txhash), DEFAULT_TTL, tx_data, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*tx_data, JSON_TX_FIELDS, "Invalid results for Tx: ");
     req->validated = true;
@@ -51,10 +50,9 @@ c4_status_t get_eth_tx(prover_ctx_t* ctx, json_t txhash, json_t* tx_data) {
   return C4_SUCCESS;
 }
 c4_status_t get_eth_tx_by_hash_and_index(prover_ctx_t* ctx, json_t block_hash, uint32_t index, json_t* tx_data) {
-  uint8_t         tmp[200];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, block_hash.len == 68 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex", bprintf(&buf, "[%J,%d]", block_hash, index), DEFAULT_TTL, tx_data, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, block_hash.len == 68 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex", bprintf(&buf, "[%J,%d]", block_hash, index), DEFAULT_TTL, tx_data, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*tx_data, JSON_TX_FIELDS, "Invalid results for Tx: ");
     req->validated = true;
@@ -63,10 +61,9 @@ c4_status_t get_eth_tx_by_hash_and_index(prover_ctx_t* ctx, json_t block_hash, u
 }
 
 c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receipts_array) {
-  uint8_t         tmp[200];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getBlockReceipts", bprintf(&buf, "[%J]", block), DEFAULT_TTL, receipts_array, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getBlockReceipts", bprintf(&buf, "[%J]", block), DEFAULT_TTL, receipts_array, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON_CACHED(*receipts_array, "[" JSON_RECEIPTS_FIELDS "]", "Invalid results for Block Receipts: ");
     req->validated = true;
@@ -75,10 +72,9 @@ c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receip
 }
 
 c4_status_t eth_get_logs(prover_ctx_t* ctx, json_t params, json_t* logs) {
-  uint8_t         tmp[1000];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*logs, "[" JSON_LOG_FIELDS "]", "Invalid results for Logs: ");
     req->validated = true;
@@ -109,10 +105,9 @@ c4_status_t eth_get_proof(prover_ctx_t* ctx, json_t address, json_t storage_key,
 }
 
 c4_status_t eth_get_code(prover_ctx_t* ctx, json_t address, json_t* code, uint64_t block_number) {
-  char            tmp[120];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"0x%lx\"]", address, block_number), DEFAULT_TTL, code, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"0x%lx\"]", address, block_number), DEFAULT_TTL, code, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*code, "bytes", "Invalid results for Code: ");
     req->validated = true;
-- 
2.43.0


From fef546a067d36c4f9751b16f8f7e46e5dc29e48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:31 +0000
Subject: [PATCH 050/102] fix: historic proofs read out of bounds with invalid
 summaries or blocks

---
 src/chains/eth/prover/historic_proof.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index e240baa..5b7cadd 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -182,6 +182,10 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   TRY_ADD_ASYNC(status, c4_send_internal_request(ctx, bprintf(&buf2, "period_store/%d/blocks.ssz", block_period), NULL, 0, &blocks)); // get the blockd
   TRY_ASYNC(status);                                                                                                                  // finish requests before continuing
 
+  // the responses come from external sources, so we need to make sure we can use them
+  CHECK_JSON(history_proof, "{data:{historical_summaries:[{block_summary_root:bytes32,state_summary_root:bytes32}],proof:[bytes32]}}", "Invalid historical summaries: ");
+  if (!ssz_is_valid((ssz_ob_t) {.bytes = blocks, .def = &BLOCKS}, true, &ctx->state)) THROW_ERROR("Invalid blocks in the period store!");
+
   uint32_t  offset_period  = (uint32_t) (chain->fork_epochs[C4_FORK_BELLATRIX] >> chain->epochs_per_period_bits);
   fork_id_t fork           = c4_chain_fork_id(ctx->chain_id, epoch_for_slot(block.slot, chain)); // current fork for the state
   json_t    data           = json_get(history_proof, "data");                                    // the the main json-object
@@ -197,6 +201,8 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   bytes32_t body_root      = {0};
   bytes32_t blocks_root    = {0};
 
+  if (block_period < offset_period || summary_idx >= json_len(json_get(data, "historical_summaries"))) THROW_ERROR("there is no historical summary for the requested block!");
+
   // create summary-list
   json_for_each_value(json_get(data, "historical_summaries"), entry) {
     buffer_append(&list_data, json_get_bytes(entry, "block_summary_root", &buf));
-- 
2.43.0


From cfbabb30c1946025baffc0a8d1107e360ec4ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:52 +0000
Subject: [PATCH 051/102] fix: invalid zk proofs in the period store were not
 detected by the prover

---
 src/chains/eth/prover/historic_proof_zk.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/historic_proof_zk.c b/src/chains/eth/prover/historic_proof_zk.c
index e7fca9f..b3d88bf 100644
--- a/src/chains/eth/prover/historic_proof_zk.c
+++ b/src/chains/eth/prover/historic_proof_zk.c
@@ -59,6 +59,7 @@ c4_status_t c4_fetch_zk_proof_data(prover_ctx_t* ctx, zk_proof_data_t* zk_proof,
       buffer_append(&signatures, sig_data);
     }
   }
+  if (status == C4_SUCCESS && !ssz_is_valid(zk_proof->sync_proof, true, &ctx->state)) THROW_ERROR_WITH("Invalid zk_proof for period %l", period);
   if (status == C4_SUCCESS)
     zk_proof->signatures = signatures.data.len ? bytes_dup(signatures.data) : NULL_BYTES;
 
-- 
2.43.0


From 3ac950547d26471629ca3a8e295cd52232079202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:55 +0000
Subject: [PATCH 052/102] fix: pending light client update requests were added
 twice using a freed url

---
 src/chains/eth/prover/proof_sync.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/prover/proof_sync.c b/src/chains/eth/prover/proof_sync.c
index 053ea4e..e8e8d6b 100644
--- a/src/chains/eth/prover/proof_sync.c
+++ b/src/chains/eth/prover/proof_sync.c
@@ -52,6 +52,8 @@ static c4_status_t req_client_update(prover_ctx_t* ctx, uint32_t period, uint32_
     ctx->state.error = strdup(req->error);
     return C4_ERROR;
   }
+  else if (req) // still pending
+    return C4_PENDING;
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
   new_req->url            = (char*) tmp.data.data;
-- 
2.43.0


From 4fb60e601fbb8eab865dc2b0b706586e84d34242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 053/102] fix: invalid light client updates were read out of
 bounds when creating a sync proof

---
 src/chains/eth/prover/proof_sync.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/prover/proof_sync.c b/src/chains/eth/prover/proof_sync.c
index e8e8d6b..5a672f2 100644
--- a/src/chains/eth/prover/proof_sync.c
+++ b/src/chains/eth/prover/proof_sync.c
@@ -78,19 +78,21 @@ typedef struct {
 static c4_status_t extract_sync_data(prover_ctx_t* ctx, bytes_t data, period_data_t* period) {
   bytes32_t domain    = {0};
   bytes32_t aggregate = {0};
-  if (data.len < 12) THROW_ERROR("invalid client_update");
-  ssz_ob_t old_update = {.bytes = bytes(data.data + 12, uint64_from_le(data.data) - 4), .def = NULL};
-  if (old_update.bytes.len + 24 > data.len) THROW_ERROR("invalid client_update");
+  if (data.len < 24) THROW_ERROR("invalid client_update");
+  uint64_t old_len = uint64_from_le(data.data);
+  if (old_len < 4 || old_len > data.len - 20) THROW_ERROR("invalid client_update");
+  uint64_t new_len = uint64_from_le(data.data + 8 + old_len);
+  if (new_len < 4 || new_len > data.len - 16 - old_len) THROW_ERROR("invalid client_update");
+  ssz_ob_t         old_update = {.bytes = bytes(data.data + 12, old_len - 4), .def = NULL};
   fork_id_t        fork       = c4_eth_get_fork_for_lcu(ctx->chain_id, old_update.bytes);
   const ssz_def_t* update_def = eth_get_light_client_update(fork);
   old_update.def              = update_def;
-  if (!old_update.def) THROW_ERROR("invalid client_update");
-  ssz_ob_t new_update = {.bytes = bytes(data.data + 24 + old_update.bytes.len, uint64_from_le(data.data + 12 + old_update.bytes.len) - 4), .def = NULL};
-  if (new_update.bytes.len + 24 + old_update.bytes.len > data.len) THROW_ERROR("invalid client_update");
+  if (!old_update.def || !ssz_is_valid(old_update, true, &ctx->state)) THROW_ERROR("invalid client_update");
+  ssz_ob_t new_update = {.bytes = bytes(data.data + 20 + old_len, new_len - 4), .def = NULL};
   fork           = c4_eth_get_fork_for_lcu(ctx->chain_id, new_update.bytes);
   update_def     = eth_get_light_client_update(fork);
   new_update.def = update_def;
-  if (!new_update.def) THROW_ERROR("invalid client_update");
+  if (!new_update.def || !ssz_is_valid(new_update, true, &ctx->state)) THROW_ERROR("invalid client_update");
 
   ssz_ob_t old_sync_keys  = ssz_get(&old_update, "nextSyncCommittee");
   ssz_ob_t new_sync_keys  = ssz_get(&new_update, "nextSyncCommittee");
@@ -161,7 +163,7 @@ c4_status_t c4_proof_sync(prover_ctx_t* ctx) {
   json_t        period_data   = json_at(ctx->params, 0);
   uint32_t      period        = json_as_uint32(period_data);
 
-  if (period == 0) THROW_ERROR_WITH("Invalid period: %j", period_data);
+  if (period < 2) THROW_ERROR_WITH("Invalid period: %j", period_data);
   TRY_ASYNC(req_client_update(ctx, period - 2, 2, ctx->chain_id, &data));
   TRY_ASYNC(extract_sync_data(ctx, data, &period_values));
   return create_proof(ctx, &period_values);
-- 
2.43.0


From d86b4df9c8220840d2ce99d518bb45c5bb08e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 054/102] fix: do not write the blocks received as json into
 the working directory

---
 src/chains/eth/prover/beacon.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3f09e74..52e1576 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -519,12 +519,6 @@ static bool convert_to_ssz(prover_ctx_t* ctx, data_request_t* data_request, ssz_
     return false;
   }
 
-  buffer_t buffer = {0};
-  bprintf(&buffer, "%z", ssz_result);
-  bytes_write(result->bytes, fopen("block_src.json", "wb"), true);
-  bytes_write(buffer.data, fopen("block_ssz.json", "wb"), true);
-  buffer_free(&buffer);
-
   safe_free(data_request->response.data);
   data_request->response = ssz_result.bytes;
   result->bytes          = ssz_result.bytes;
-- 
2.43.0


From 40cde60648fd99216f472c0a6e68e8aa6618ffe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:30 +0000
Subject: [PATCH 055/102] fix: proofs for calls with state overrides
 interpreted the access list as prestate trace

---
 src/chains/eth/prover/proof_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 87babd0..dcd5835 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -212,7 +212,7 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   uint8_t     address[20]  = {0};
   int         accounts_len = 0;
 
-  if (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) {
+  if ((ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) || overrides) { // with overrides the access list is always used
     json_t access_list = json_get(trace, "accessList");
     accounts_len       = json_len(access_list);
     json_for_each_value(access_list, values) {
-- 
2.43.0


From 3ed043eced3edbeb8fe9944dcb7176f16edd87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:57 +0000
Subject: [PATCH 056/102] fix: endless recursion if the beacon node returns a
 circle of blocks without signatures

---
 src/chains/eth/prover/beacon.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 52e1576..cf6f167 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -239,7 +239,9 @@ static bool has_signature(ssz_ob_t* block) {
   return !bytes_all_zero(bytes(sync.bytes.data, 64));
 }
 
-c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+#define MAX_UNSIGNED_BLOCKS 64 // limit of successive blocks without signatures, so a circular response can not cause an endless recursion
+
+static c4_status_t get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result, int depth) {
 
   beacon_head_t sign   = {0};
   beacon_head_t data   = {0};
@@ -267,7 +269,8 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
       TRY_ASYNC(get_beacon_header_by_parent_hash(ctx, sign.root, &header, sign.root));
       if (header.type == JSON_TYPE_NOT_FOUND) THROW_ERROR("no block found with signature");
     }
-    return c4_eth_get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result);
+    if (depth >= MAX_UNSIGNED_BLOCKS) THROW_ERROR("no block found with signature");
+    return get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result, depth + 1);
   }
 
   // handle data_block
@@ -291,6 +294,10 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
   return status;
 }
 
+c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+  return get_signblock_and_parent(ctx, sign_hash, data_hash, sig_block, data_block, data_root_result, 0);
+}
+
 static c4_status_t eth_get_block(prover_ctx_t* ctx, json_t block, bool full_tx, json_t* result) {
   uint8_t  tmp[200] = {0};
   buffer_t buffer   = stack_buffer(tmp);
-- 
2.43.0


From 7c9dec896491bc71c9b36f67c249f7d89fc633dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:37 +0000
Subject: [PATCH 057/102] fix: null pointer access for blocks with an invalid
 parentBeaconBlockRoot

---
 src/chains/eth/prover/beacon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index cf6f167..35334e4 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -306,8 +306,8 @@ static c4_status_t eth_get_block(prover_ctx_t* ctx, json_t block, bool full_tx,
 static c4_status_t get_beacon_header_from_eth_block(prover_ctx_t* ctx, json_t eth_block, json_t* header, bytes32_t root, bytes32_t parent_root) {
   buffer_t buffer = {.allocated = -32, .data = {.data = parent_root, .len = 0}};
   json_t   p_hash = json_get(eth_block, "parentBeaconBlockRoot");
-  if (p_hash.len != 68) THROW_ERROR("The Block is not a Beacon Block!");
-  return get_beacon_header_by_parent_hash(ctx, json_as_bytes(p_hash, &buffer).data, header, root);
+  if (p_hash.len != 68 || json_as_bytes(p_hash, &buffer).len != 32) THROW_ERROR("The Block is not a Beacon Block!");
+  return get_beacon_header_by_parent_hash(ctx, parent_root, header, root);
 }
 
 static inline c4_status_t eth_get_by_number(prover_ctx_t* ctx, uint64_t block_number, bytes32_t sig_root, bytes32_t data_root) {
-- 
2.43.0


From d4fc371f523f42e25344d1b1fdfe5abed8f065a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:02 +0000
Subject: [PATCH 058/102] fix: a transaction index beyond the block created an
 invalid multi proof

---
 src/chains/eth/prover/proof_logs.c        | 5 +++++
 src/chains/eth/prover/proof_receipt.c     | 5 +++++
 src/chains/eth/prover/proof_transaction.c | 5 +++++
 src/util/ssz_merkle.c                     | 2 +-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index f4d7b6d..f314b63 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -181,6 +181,11 @@ static c4_status_t proof_block(prover_ctx_t* ctx, proof_logs_block_t* block) {
 
   block->block_hash = ssz_get(&block->beacon_block.execution, "blockHash").bytes;
 
+  uint32_t num_txs = ssz_len(ssz_get(&block->beacon_block.execution, "transactions"));
+  for (proof_logs_tx_t* tx = block->txs; tx; tx = tx->next) {
+    if (tx->tx_index >= num_txs) THROW_ERROR("The transaction index of a log is not part of the block");
+  }
+
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &block->block_proof, &block->beacon_block));
 
 #ifdef PROVER_CACHE
diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 6e617b7..1f8a8ed 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -160,6 +160,11 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   TRACE_START(ctx, "check_blockroot_proof");
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &block_proof, &block));
 
+  if (tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
+    c4_free_block_proof(&block_proof);
+    THROW_ERROR("The transaction index is not part of the block");
+  }
+
   TRACE_START(ctx, "receipt_proof");
   TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, ssz_get(&(block.execution), "blockHash").bytes.data, block_receipts, tx_index, &receipt, &receipt_proof),
                   c4_free_block_proof(&block_proof));
diff --git a/src/chains/eth/prover/proof_transaction.c b/src/chains/eth/prover/proof_transaction.c
index e8aaef4..23a1d0b 100644
--- a/src/chains/eth/prover/proof_transaction.c
+++ b/src/chains/eth/prover/proof_transaction.c
@@ -113,6 +113,11 @@ c4_status_t c4_proof_transaction(prover_ctx_t* ctx) {
   }
   REQUEST_WORKER_THREAD_CATCH(ctx, safe_free(block_proof.historic_proof.data));
 
+  if (tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
+    c4_free_block_proof(&block_proof);
+    THROW_ERROR("The transaction index is not part of the block");
+  }
+
   TRACE_START(ctx, "proof_data");
 
   bytes_t state_proof = ssz_create_multi_proof(block.body, body_root, 4,
diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index a8e3fdd..d934898 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -114,7 +114,7 @@ gindex_t ssz_gindex(const ssz_def_t* def, int num_elements, ...) {
       def    = def->def.vector.type;
     }
 
-    if (leafes == 0) {
+    if (leafes == 0 || idx >= leafes) {
       va_end(args);
       return 0;
     }
-- 
2.43.0


From e8cc1482cad440e3d180fd5b7f489ecf66e40ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:32 +0000
Subject: [PATCH 059/102] fix: cached values were released while still in use
 after an invalidation and returned after they expired

---
 src/prover/prover.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index 934e1f4..51d8e93 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -137,9 +137,9 @@ const void* c4_prover_cache_get(prover_ctx_t* ctx, bytes32_t key) {
     cache_entry_t* entry = &global_cache_array.entries[i]; // Get pointer to entry in array
     if (CACHE_KEY_MATCH(entry, key_aligned)) {
 
-      // Skip invalidated entries (timestamp == 0 means invalidated)
-      if (entry->timestamp == 0) {
-        log_debug("Found matching key %b in global cache, but it was invalidated. Treating as miss.", bytes(key, 32));
+      // Skip invalidated entries (timestamp == 0 means invalidated) and entries, which are expired, but not cleaned up yet.
+      if (entry->timestamp < current_ms()) {
+        log_debug("Found matching key %b in global cache, but it was invalidated or is expired. Treating as miss.", bytes(key, 32));
         continue; // Skip this entry, check next
       }
 
@@ -285,7 +285,7 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   memcpy(key_aligned.bytes32, key, 32);
   for (size_t i = 0; i < global_cache_array.count; ++i) {
     cache_entry_t* entry = &global_cache_array.entries[i];
-    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp > 0) return entry; // Return pointer to the entry in the array
+    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp > 0 && entry->timestamp >= current_ms()) return entry; // Return pointer to the entry in the array
   }
   return NULL; // Not found
 }
@@ -401,7 +401,12 @@ void c4_prover_free(prover_ctx_t* ctx) {
       if (current_local_entry->from_global_cache) {
         // This was copied from global, decrement the counter on the source.
         // Re-find the global entry by key before decrementing for safety against realloc.
-        cache_entry_t* global_src = find_global_cache_entry(current_local_entry->key.bytes32);
+        // We also compare the value, because the entry could have been invalidated and replaced by a new one with the same key.
+        cache_entry_t* global_src = NULL;
+        for (size_t i = 0; i < global_cache_array.count && !global_src; ++i) {
+          cache_entry_t* entry = &global_cache_array.entries[i];
+          if (CACHE_KEY_MATCH(entry, current_local_entry->key) && entry->value == current_local_entry->value) global_src = entry;
+        }
         if (global_src && global_src->use_counter > 0) // Prevent underflow
           global_src->use_counter--;
         else
-- 
2.43.0


From 519090ce38ef5782e9441abed3568ee248fabd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 060/102] fix: removing a transaction from the cache could hide
 other transactions forever

---
 src/chains/eth/prover/tx_cache.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 31faa67..5e39327 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -120,13 +120,13 @@ static void table_delete_at(size_t pos) {
   while (g_table[j].used) {
     uint64_t h    = hash_bytes32(g_table[j].key);
     size_t   home = table_index(h);
-    // If entry is in its home bucket, stop shifting
-    if (home == j) {
-      break;
+    // only move the entry into the gap, if the gap is between its home bucket and its current position,
+    // otherwise it would not be found anymore.
+    if (((j - home) & (TABLE_CAPACITY - 1u)) >= ((j - i) & (TABLE_CAPACITY - 1u))) {
+      g_table[i] = g_table[j];
+      i          = j;
     }
-    g_table[i] = g_table[j];
-    i          = j;
-    j          = (j + 1u) & (TABLE_CAPACITY - 1u);
+    j = (j + 1u) & (TABLE_CAPACITY - 1u);
   }
   g_table[i].used = false;
 }
@@ -279,6 +279,7 @@ void c4_eth_tx_cache_reserve(uint32_t number_of_entries_to_add) {
 
 void c4_eth_tx_cache_set_max_size(uint32_t max) {
   if (max == 0) max = 1; // avoid zero which breaks invariants
+  if (max >= TABLE_CAPACITY) max = TABLE_CAPACITY - 1; // at least one bucket must stay free in order to end the search
   g_max_tx_cache_size = (size_t) max;
   // Ensure we do not exceed the new limit
   clean_up_cache(0);
-- 
2.43.0


From 007e69dbdd31609eacfa8ca7d40c6c451902a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:49 +0000
Subject: [PATCH 061/102] fix: cached blocks were found by a different block
 number or written beyond the cache key

---
 src/chains/eth/prover/beacon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 35334e4..393341a 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -42,8 +42,13 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
     return;
   }
   else if (block.start[1] == '0' && block.start[2] == 'x') {
-    json_as_bytes(block, &buffer);
-    if (block.len < 68) memmove(key + 1, key, buffer.data.len);
+    bytes_t value = json_as_bytes(block, &buffer);
+    if (value.len < 32) { // block number, stored as uint64 big endian, so numbers with a different length never share the same key
+      bytes32_t number = {0};
+      value            = bytes_remove_leading_zeros(value);
+      if (value.len) memcpy(number + (value.len < 8 ? 8 - value.len : 0), value.data, value.len);
+      memcpy(key + 1, number, 31);
+    }
   }
   else
     memcpy(key + 1, block.start, block.len > 31 ? 31 : block.len);
@@ -143,8 +148,7 @@ void c4_beacon_cache_update_blockdata(prover_ctx_t* ctx, beacon_block_t* beacon_
   uint8_t  block_number_data[8] = {0};
   for (int i = 0; i < 8; i++)
     block_number_data[7 - i] = block_number_src[i];
-  bytes_t block_number = bytes_remove_leading_zeros(bytes(block_number_data, 8));
-  memcpy(key + 1, block_number.data, block_number.len);
+  memcpy(key + 1, block_number_data, 8);
   c4_prover_cache_set(ctx, key, bytes_dup(slot_data).data, slot_data.len, ttl, free); // keep it for 1 day
 
   // cache the transactions in the tx cache.
-- 
2.43.0


From 1f4fb00643585e307b1d8182547a2c00e806ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:52 +0000
Subject: [PATCH 062/102] fix: logs served from the cache were incomplete,
 duplicated, in the wrong order or from the wrong block

---
 src/chains/eth/prover/logs_cache.c | 38 +++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 00bd113..7d450cc 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -162,9 +162,13 @@ static void bloom_add_element_buf(uint8_t bloom[256], bytes_t element) {
  * @return Pointer to the block entry.
  */
 static block_entry_t* push_block(uint64_t block_number) {
-  // block is already in the cache?
-  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number)
-    return g_cache.blocks + ((block_number - g_cache.start_number) % g_cache.blocks_count);
+  // block is already in the cache? Then we replace its events.
+  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number) {
+    block_entry_t* existing = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (block_number - g_cache.start_number)) % g_cache.blocks_count);
+    g_metrics.total_events -= existing->events_count;
+    existing->events_count = 0;
+    return existing;
+  }
 
   // is previous block in the cache? if not, we need to reset in order to have a contiguous cache
   if (g_cache.start_number && g_cache.start_number + g_cache.blocks_count != block_number) {
@@ -178,6 +182,7 @@ static block_entry_t* push_block(uint64_t block_number) {
     block_entry_t* oldest = &g_cache.blocks[g_cache.start_idx];            // current oldest block spot will be used for the new block.
     safe_free(oldest->events);                                             // clean up old events
     memset(oldest, 0, sizeof(block_entry_t));                              // clear the block entry
+    oldest->block_number = block_number;                                   // reuse it for the new block
     g_cache.start_idx    = (g_cache.start_idx + 1) % g_cache.blocks_count; // rotate to next block
     g_cache.start_number = g_cache.blocks[g_cache.start_idx].block_number; // update the start number to the new oldest block
     return oldest;
@@ -314,18 +319,19 @@ static log_cache_state_t* get_log_state(prover_ctx_t* ctx) {
 static inline tx_result_t* ensure_tx_result(block_result_t* b, uint32_t tx_idx) {
   for (tx_result_t* t = b->txs; t; t = t->next)
     if (t->tx_idx == tx_idx) return t;
-  tx_result_t* t = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
-  t->tx_idx      = tx_idx;
-  t->next        = b->txs;
-  b->txs         = t;
+  tx_result_t*  t    = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
+  tx_result_t** tail = &b->txs;
+  while (*tail) tail = &(*tail)->next; // append, so we keep the order of the block
+  t->tx_idx = tx_idx;
+  *tail     = t;
   return t;
 }
 
 static inline block_result_t* add_block_result(block_result_t** head, uint64_t block_number) {
   block_result_t* b = (block_result_t*) safe_calloc(1, sizeof(block_result_t));
   b->block_number   = block_number;
-  b->next           = *head;
-  *head             = b;
+  while (*head) head = &(*head)->next; // append, so we keep the order of the blocks
+  *head = b;
   return b;
 }
 
@@ -532,7 +538,7 @@ static void build_match_index(log_cache_state_t* st) {
   uint64_t* variants      = (uint64_t*) st->filter_blooms.data;
   for (uint64_t bn = st->from_block; bn <= st->to_block; bn++) {
     block_entry_t* e = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (bn - g_cache.start_number)) % g_cache.blocks_count);
-    if (!bloom_matches(variant_count, variants, e->logs_bloom64)) continue;
+    if (variant_count && !bloom_matches(variant_count, variants, e->logs_bloom64)) continue; // without variants the bloom filter is disabled
     // Confirm by scanning cached events
     block_result_t* block_res = NULL;
     for (uint32_t i = 0; i < e->events_count; i++) {
@@ -544,10 +550,11 @@ static void build_match_index(log_cache_state_t* st) {
       if (!block_res) block_res = add_block_result(&st->blocks, e->block_number);
       tx_result_t* txr = ensure_tx_result(block_res, ev->tx_index);
       // append event
-      event_result_t* er = (event_result_t*) safe_calloc(1, sizeof(event_result_t));
-      er->log_idx        = ev->log_index;
-      er->next           = txr->events;
-      txr->events        = er;
+      event_result_t*  er   = (event_result_t*) safe_calloc(1, sizeof(event_result_t));
+      event_result_t** tail = &txr->events;
+      while (*tail) tail = &(*tail)->next;
+      er->log_idx = ev->log_index;
+      *tail       = er;
     }
   }
 }
@@ -641,6 +648,9 @@ c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out
   if (served_from_cache) *served_from_cache = false;
   if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
 
+  // the blocks are cached by number only
+  if (json_get(filter, "blockHash").type == JSON_TYPE_STRING) return C4_SUCCESS;
+
   // Resolve and persist the numeric range across async invocations
   log_cache_state_t* st = get_log_state(ctx);
 
-- 
2.43.0


From 5272eeaec3dea9c08187664b7fd399c20373d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:01 +0000
Subject: [PATCH 063/102] fix: a nested call must not inherit the logs of its
 caller

The child context is a copy of the parent, so it also held the list of the logs
emitted so far: applying the child moved the list into itself (endless loop) and
a failing child freed the logs of the caller. The logs are also kept in the
order they were emitted, and results of nested calls are released.
---
 src/chains/eth/verifier/call_ctx.h    | 17 +++++++----------
 src/chains/eth/verifier/call_evmone.c |  2 ++
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 5a61e69..7de8cdd 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -262,9 +262,10 @@ static emitted_log_t* add_emitted_log(evmone_context_t* ctx, const evmc_address*
     }
   }
 
-  // Add to linked list
-  log->next = ctx->logs;
-  ctx->logs = log;
+  // Add to the end of the linked list, so the logs stay in the order they were emitted
+  emitted_log_t** last = &ctx->logs;
+  while (*last) last = &(*last)->next;
+  *last = log;
 
   return log;
 }
@@ -286,13 +287,9 @@ static void context_apply(evmone_context_t* ctx) {
 
   // Transfer logs to parent if parent is capturing events
   if (ctx->parent->capture_events && ctx->logs) {
-    emitted_log_t* log = ctx->logs;
-    while (log) {
-      emitted_log_t* next = log->next;
-      log->next           = ctx->parent->logs;
-      ctx->parent->logs   = log;
-      log                 = next;
-    }
+    emitted_log_t** last = &ctx->parent->logs;
+    while (*last) last = &(*last)->next;
+    *last     = ctx->logs;
     ctx->logs = NULL; // Prevent double-free
   }
 }
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9587eb8..cd24d62 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -283,6 +283,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   evmone_context_t child = *ctx;
   child.parent           = ctx;
   child.changed_accounts = NULL;
+  child.logs             = NULL;
 
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
@@ -304,6 +305,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
                exec_result.output_size > 64 ? "..." : "");
     }
   }
+  ctx->results = child.results; // the results of the nested calls are released together with ours
   add_evm_result(ctx, &exec_result);
 
   if (exec_result.status_code == 0) {
-- 
2.43.0


From 0d60f1be02b2f52cc6bbf6e267e874cc154cee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:37 +0000
Subject: [PATCH 064/102] fix: only cache code which matches its code hash

The code included in a proof was stored under the hash claimed by the (not yet
verified) account before the hash was checked, so a rejected proof could plant
code which was used for every later call.
---
 src/chains/eth/verifier/eth_account.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 0b0e4b3..8d9019f 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -188,8 +188,14 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) != 0) { // never cache a code which does not match the hash
+        eth_free_codes(ac);
+        ac     = NULL;
+        status = c4_state_add_error(&ctx->state, "code hash mismatch");
+      }
+      else // store in cache
+        cache.set((char*) buf.data.data, ac->code);
     }
     else {
       buffer_reset(&buf);
-- 
2.43.0


From 35fa62ce1bf0bb66bae0e27afc9f819a213cf922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:39 +0000
Subject: [PATCH 065/102] fix: a call must fail if code or balance of an
 account is not proven

An account flagged as having no code was executed as an empty account even if its
proven code hash said otherwise, and an account touched by a storage change or an
override lost its code (if not included in the proof) and used a zero balance if
there was no proof for it.
---
 src/chains/eth/verifier/call_ctx.h    | 17 +++++++++--------
 src/chains/eth/verifier/call_evmone.c |  8 ++++++--
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 7de8cdd..6e66377 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -55,6 +55,8 @@ typedef struct changed_account {
   bool                    full_state_override;
   bool                    deleted;
   bool                    free_code;
+  bool                    has_balance; // balance is set, otherwise the proven balance is still valid
+  bool                    has_code;    // code is set, otherwise the proven code is still valid
 } changed_account_t;
 
 // Context for EVM execution
@@ -146,7 +148,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   }
   changed_account_t* parent_acc  = ctx->parent ? get_changed_account(ctx->parent, address) : NULL;
   *created                       = parent_acc == NULL;
-  ssz_ob_t           old_account = get_src_account(ctx, address, true);
   changed_account_t* acc         = safe_calloc(1, sizeof(changed_account_t));
   memcpy(acc->address, address, 20);
   acc->next             = ctx->changed_accounts;
@@ -154,7 +155,9 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 
   if (parent_acc) {
     memcpy(acc->balance, parent_acc->balance, 32);
+    acc->has_balance                = parent_acc->has_balance;
     acc->code                       = parent_acc->code;
+    acc->has_code                   = parent_acc->has_code;
     acc->full_state_override         = parent_acc->full_state_override;
     changed_storage_t** storage_ptr = &acc->storage;
     for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
@@ -165,11 +168,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
       storage_ptr          = &(*storage_ptr)->next;
     }
   }
-  else if (old_account.def) {
-    ssz_ob_t code = ssz_get(&old_account, "code");
-    if (code.def && code.def->type == SSZ_TYPE_LIST && code.bytes.len > 0) acc->code = code.bytes;
-    eth_get_account_value(old_account, ETH_ACCOUNT_BALANCE, acc->balance);
-  }
   return acc;
 }
 
@@ -192,11 +190,12 @@ static void set_changed_storage(evmone_context_t* ctx, const address_t addr, con
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-  if (changed_account) return changed_account->code;
+  if (changed_account && changed_account->has_code) return changed_account->code;
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
   eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
+  if (bytes_all_zero(bytes(code_hash, 32)) || memcmp(code_hash, EMPTY_HASH, 32) == 0) return NULL_BYTES; // no account or no code
   for (call_code_t* call_code = ctx->call_codes; call_code; call_code = call_code->next) {
     if (memcmp(call_code->hash, code_hash, 32) == 0)
       return call_code->code;
@@ -204,8 +203,8 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
 
   ssz_ob_t code = ssz_get(&account, "code");
   if (code.def && code.def->type == SSZ_TYPE_LIST) return code.bytes;
+  if (!ctx->ctx->state.error) ctx->ctx->state.error = bprintf(NULL, "Missing code for 0x%x", bytes(address, 20));
   return NULL_BYTES;
-  //  return account.def ? ssz_get(&account, "code").bytes : NULL_BYTES;
 }
 
 static void changed_account_free(changed_account_t* acc) {
@@ -277,6 +276,8 @@ static void context_apply(evmone_context_t* ctx) {
   for (changed_account_t* acc = ctx->changed_accounts; acc; acc = acc->next) {
     changed_account_t* parent_acc = create_changed_account(ctx->parent, acc->address, &created);
     memcpy(parent_acc->balance, acc->balance, 32);
+    parent_acc->has_balance = acc->has_balance;
+    parent_acc->has_code    = acc->has_code;
     parent_acc->code      = acc->code;
     parent_acc->free_code = acc->free_code;
     parent_acc->full_state_override = acc->full_state_override;
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index cd24d62..36ea1bb 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -163,7 +163,7 @@ static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr) {
 
   evmc_bytes32       result = {0};
   changed_account_t* acc    = get_changed_account(ctx, addr->bytes);
-  if (acc)
+  if (acc && acc->has_balance)
     memcpy(result.bytes, acc->balance, 32);
   else {
     ssz_ob_t account = get_src_account(ctx, addr->bytes, false);
@@ -382,8 +382,12 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
   for (const eth_account_override_t* a = overrides->accounts; a; a = a->next) {
     bool               created = false;
     changed_account_t* acc     = create_changed_account(context, a->address, &created);
-    if (a->has_balance) memcpy(acc->balance, a->balance, 32);
+    if (a->has_balance) {
+      memcpy(acc->balance, a->balance, 32);
+      acc->has_balance = true;
+    }
     if (a->has_code) {
+      acc->has_code  = true;
       acc->code      = a->code;
       acc->free_code = false;
     }
-- 
2.43.0


From 52072f8b7fdfe606b3971eabb4796c20ec4b711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:42 +0000
Subject: [PATCH 066/102] fix: storage written by a failing nested call must be
 reverted

set_changed_storage changed the entry of the calling context if the key was
already changed there, so it kept the value even if the nested call failed.
---
 src/chains/eth/verifier/call_ctx.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 6e66377..cd8514a 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -172,21 +172,18 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 }
 
 static void set_changed_storage(evmone_context_t* ctx, const address_t addr, const bytes32_t key, const bytes32_t value, bool* account_created, bool* storage_created) {
-  changed_storage_t* storage = get_changed_storage(ctx, addr, key);
-  if (storage) {
-    memcpy(storage->value, value, 32);
-    *account_created = false;
-    *storage_created = false;
-  }
-  else {
-    changed_account_t* account = create_changed_account(ctx, addr, account_created);
-    *storage_created           = true;
-    changed_storage_t* storage = safe_calloc(1, sizeof(changed_storage_t));
+  // always write into the account of this context, since the changes must be dropped if the call fails.
+  changed_account_t* account = create_changed_account(ctx, addr, account_created);
+  changed_storage_t* storage = account->storage;
+  while (storage && memcmp(storage->key, key, 32)) storage = storage->next;
+  *storage_created = storage == NULL;
+  if (!storage) {
+    storage = safe_calloc(1, sizeof(changed_storage_t));
     memcpy(storage->key, key, 32);
-    memcpy(storage->value, value, 32);
     storage->next    = account->storage;
     account->storage = storage;
   }
+  memcpy(storage->value, value, 32);
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-- 
2.43.0


From 34632da9eb4ff8e5bbc81707571b4b38e95fb8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:45 +0000
Subject: [PATCH 067/102] fix: copying code beyond its end must not read out of
 bounds

---
 src/chains/eth/verifier/call_evmone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 36ea1bb..fe9d5e6 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -203,9 +203,9 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   EVM_LOG("copy_code offset: %zu, buffer size: %zu", code_offset, buffer_size);
 
   bytes_t code      = get_code(ctx, addr->bytes);
-  size_t  copy_size = code.len - code_offset;
+  size_t  copy_size = code_offset < code.len ? code.len - code_offset : 0;
   if (buffer_size < copy_size) copy_size = buffer_size;
-  if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);
+  if (code.data && copy_size) memcpy(buffer_data, code.data + code_offset, copy_size);
 
   EVM_LOG("copy_code result: copied %zu bytes", copy_size);
   return copy_size;
-- 
2.43.0


From d3499c470a2a046c5b7e85afab49f4ce658edc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:48 +0000
Subject: [PATCH 068/102] fix: decide by the proven values whether an account
 exists in a call

account_exists reported every changed account as not existing and every proven
account, even if the proof shows there is none, as existing, and EXTCODEHASH
of an account which does not exist was not 0.
---
 src/chains/eth/verifier/call_evmone.c | 32 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index fe9d5e6..f950f98 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -83,18 +83,6 @@ static void debug_print_bytes32(const char* prefix, const evmc_bytes32* data) {
   fbprintf(stderr, "[EVM] %s: 0x%x\n", prefix, bytes(data->bytes, 32));
 }
 
-// Check if an account exists
-static bool host_account_exists(void* context, const evmc_address* addr) {
-  evmone_context_t* ctx = (evmone_context_t*) context;
-  debug_print_address("account_exists for", addr);
-  changed_account_t* ac = get_changed_account(ctx, addr->bytes);
-  if (ac) return ac->deleted;
-  bool exists = get_src_account(ctx, addr->bytes, false).def != NULL;
-  // TODO existance check over the values of the account!
-  EVM_LOG("account_exists result: %s", exists ? "true" : "false");
-  return exists;
-}
-
 // Get storage value for an account
 static evmc_bytes32 host_get_storage(void* context, const evmc_address* addr, const evmc_bytes32* key) {
   evmone_context_t* ctx = (evmone_context_t*) context;
@@ -174,6 +162,24 @@ static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr) {
   return result;
 }
 
+// Check if an account exists (an empty account as defined in EIP-161 does not exist)
+static bool host_account_exists(void* context, const evmc_address* addr) {
+  evmone_context_t* ctx = (evmone_context_t*) context;
+  debug_print_address("account_exists for", addr);
+  bytes32_t          nonce     = {0};
+  bytes32_t          code_hash = {0};
+  changed_account_t* acc       = get_changed_account(ctx, addr->bytes);
+  ssz_ob_t           account   = get_src_account(ctx, addr->bytes, false);
+  if (account.def) {
+    eth_get_account_value(account, ETH_ACCOUNT_NONCE, nonce);
+    eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
+  }
+  bool has_code = acc && acc->has_code ? acc->code.len > 0 : !bytes_all_zero(bytes(code_hash, 32)) && memcmp(code_hash, EMPTY_HASH, 32) != 0;
+  bool exists   = has_code || !bytes_all_zero(bytes(nonce, 32)) || !bytes_all_zero(bytes(host_get_balance(context, addr).bytes, 32));
+  EVM_LOG("account_exists result: %s", exists ? "true" : "false");
+  return exists;
+}
+
 // Get code size for an account
 static size_t host_get_code_size(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
@@ -190,7 +196,7 @@ static evmc_bytes32 host_get_code_hash(void* context, const evmc_address* addr)
   debug_print_address("get_code_hash for", addr);
 
   evmc_bytes32 result = {0};
-  keccak(get_code(ctx, addr->bytes), result.bytes);
+  if (host_account_exists(context, addr)) keccak(get_code(ctx, addr->bytes), result.bytes); // the hash of an non existing account is 0
 
   debug_print_bytes32("get_code_hash result", &result);
   return result;
-- 
2.43.0


From b7bd38758def519d8bebafce90f78e0f262c5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:51 +0000
Subject: [PATCH 069/102] fix: respect the block and empty values in calls with
 state overrides

The block of a call with state overrides was taken from the last argument (the
overrides), so the proof for any block was accepted and the one for the requested
block was rejected. An empty state did not hide the storage and removing the
code with 0x was an error.
---
 src/chains/eth/verifier/call_evmone.c     | 2 +-
 src/chains/eth/verifier/eth_account.c     | 3 ++-
 src/chains/eth/verifier/state_overrides.c | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index f950f98..05b20e7 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -397,7 +397,7 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
       acc->code      = a->code;
       acc->free_code = false;
     }
-    if (a->storage) {
+    if (a->full_state || a->storage) {
       acc->full_state_override = a->full_state;
       for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
         bool tmp = false;
diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 8d9019f..a9e37cc 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -276,7 +276,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
 
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  bool      is_call            = ctx->method && (strcmp(ctx->method, "eth_call") == 0 || strcmp(ctx->method, "colibri_simulateTransaction") == 0);
+  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, is_call ? 1 : json_len(ctx->args) - 1) : (json_t) {0}; // calls may have state overrides as last argument
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
diff --git a/src/chains/eth/verifier/state_overrides.c b/src/chains/eth/verifier/state_overrides.c
index 43a752e..f6ba0ce 100644
--- a/src/chains/eth/verifier/state_overrides.c
+++ b/src/chains/eth/verifier/state_overrides.c
@@ -192,7 +192,7 @@ c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides,
       }
       buffer_t tmp = {0};
       bytes_t  c   = json_as_bytes(code, &tmp);
-      if (!c.data) {
+      if (!c.data && code.len > 4) { // "0x" is valid and means no code
         buffer_free(&tmp);
         safe_free(acc);
         return c4_state_set_error_msg(st, bprintf(NULL, "stateOverrides: invalid 'code' value"));
-- 
2.43.0


From 47ac60370d6ebafd28ec5a610e7a9e60836f8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:10 +0000
Subject: [PATCH 070/102] fix: a call returning no data is a valid result

---
 src/chains/eth/verifier/verify_call.c   | 4 ++--
 src/chains/op/verifier/op_verify_call.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 043c047..0d8a406 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -94,13 +94,13 @@ bool verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index ab34d99..ecca3df 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -65,13 +65,13 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From 6574871ef6da532911e0dcf93d29d1fec8363b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 071/102] fix: the data attached to a call proof must have the
 type of the result

Only the bytes were compared, so the result could be presented as a number
with the reversed byte order.
---
 src/chains/eth/verifier/verify_call.c       | 2 +-
 src/chains/eth/verifier/verify_simulate.c   | 2 +-
 src/chains/op/verifier/op_verify_call.c     | 2 +-
 src/chains/op/verifier/op_verify_simulate.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 0d8a406..07f3cce 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -100,7 +100,7 @@ bool verify_call_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = call_status == C4_SUCCESS && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index 2d97903..eec8529 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -157,7 +157,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = simulation_result.bytes.data && bytes_eq(simulation_result.bytes, ctx->data.bytes);
+    match = simulation_result.bytes.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_SIMULATION)) && bytes_eq(simulation_result.bytes, ctx->data.bytes);
     if (simulation_result.bytes.data) safe_free(simulation_result.bytes.data);
   }
   bool accounts_verified = match && c4_eth_verify_accounts(ctx, accounts, state_root, overrides_ptr);
diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index ecca3df..5ed5fba 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -71,7 +71,7 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = call_status == C4_SUCCESS && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index e8d00a7..6eec0a0 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -100,7 +100,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = simulation_result.bytes.data && bytes_eq(simulation_result.bytes, ctx->data.bytes);
+    match = simulation_result.bytes.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_SIMULATION)) && bytes_eq(simulation_result.bytes, ctx->data.bytes);
     if (simulation_result.bytes.data) safe_free(simulation_result.bytes.data);
   }
 
-- 
2.43.0


From 126fd713fd44cb43f1fd79871add927fd9715530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:02 +0000
Subject: [PATCH 072/102] fix: calls must move the value and precompiles must
 not use more gas than given

The value of a call (and the balance of a selfdestruct) was never moved, so any
result depending on a balance was wrong, selfdestruct dropped the changed storage,
and a precompile could use more gas than the call had, leaving negative gas.
---
 src/chains/eth/verifier/call_evmone.c | 57 ++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 05b20e7..a5f2a3b 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -180,6 +180,34 @@ static bool host_account_exists(void* context, const evmc_address* addr) {
   return exists;
 }
 
+static void set_balance(evmone_context_t* ctx, const evmc_address* addr, evmc_bytes32 balance) {
+  bool               created;
+  changed_account_t* acc = create_changed_account(ctx, addr->bytes, &created);
+  memcpy(acc->balance, balance.bytes, 32);
+  acc->has_balance = true;
+}
+
+// moves the value, returns false if the balance is not high enough
+static bool transfer_value(evmone_context_t* ctx, const evmc_address* from, const evmc_address* to, const evmc_bytes32* value) {
+  if (bytes_all_zero(bytes(value->bytes, 32))) return true;
+  evmc_bytes32 balance = host_get_balance(ctx, from);
+  if (memcmp(balance.bytes, value->bytes, 32) < 0) return false;
+  for (int i = 31, borrow = 0; i >= 0; i--) {
+    int v            = (int) balance.bytes[i] - value->bytes[i] - borrow;
+    borrow           = v < 0;
+    balance.bytes[i] = (uint8_t) v;
+  }
+  set_balance(ctx, from, balance);
+  balance = host_get_balance(ctx, to);
+  for (int i = 31, carry = 0; i >= 0; i--) {
+    carry += (int) balance.bytes[i] + value->bytes[i];
+    balance.bytes[i] = (uint8_t) carry;
+    carry >>= 8;
+  }
+  set_balance(ctx, to, balance);
+  return true;
+}
+
 // Get code size for an account
 static size_t host_get_code_size(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
@@ -223,16 +251,9 @@ static void host_selfdestruct(void* context, const evmc_address* addr, const evm
   debug_print_address("selfdestruct account", addr);
   debug_print_address("selfdestruct beneficiary", beneficiary);
 
-  bool               created;
-  changed_account_t* acc = create_changed_account(ctx, addr->bytes, &created);
-  while (acc->storage) {
-    changed_storage_t* storage = acc->storage;
-    acc->storage               = storage->next;
-    safe_free(storage);
-  }
-  acc->deleted = true;
-
-  EVM_LOG("selfdestruct: account marked as deleted");
+  // since EIP-6780 an existing account only sends its balance
+  evmc_bytes32 balance = host_get_balance(context, addr);
+  transfer_value(ctx, addr, beneficiary, &balance);
 }
 
 // Handle call to another contract
@@ -253,6 +274,12 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
     result->gas_left        = msg->gas - gas_used;
     result->gas_refund      = 0;
     result->status_code     = pre_result;
+    if (pre_result == PRE_SUCCESS && (msg->gas < 0 || gas_used > (uint64_t) msg->gas)) {
+      result->status_code = 3; // out of gas
+      result->gas_left    = 0;
+    }
+    else if (pre_result == PRE_SUCCESS && msg->kind == CALL_KIND_CALL)
+      transfer_value(ctx, &msg->sender, &msg->destination, &msg->value);
     if (pre_result != PRE_SUCCESS) {
       EVM_LOG("Precompile failed with status code: %d", pre_result);
       result->gas_left = 0;
@@ -291,6 +318,13 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   child.changed_accounts = NULL;
   child.logs             = NULL;
 
+  if (msg->kind == CALL_KIND_CALL && !transfer_value(&child, &msg->sender, &msg->destination, &msg->value)) {
+    context_free(&child);
+    result->status_code = 17; // insufficient balance
+    result->gas_left    = msg->gas;
+    return;
+  }
+
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
       ctx->executor,
@@ -561,6 +595,9 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
 
   apply_state_overrides(&context, overrides);
 
+  if (!transfer_value(&context, &message.sender, &message.destination, &message.value) && !ctx->state.error)
+    ctx->state.error = strdup("Insufficient balance");
+
   bytes_t code = get_code(&context, to);
   EVM_LOG("Contract code size: %u bytes", (uint32_t) code.len);
 
-- 
2.43.0


From 0697858127982fdd60318c714a4a348a21d2ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:31 +0000
Subject: [PATCH 073/102] fix: failing precompiles have no output and
 unsupported ones must fail the call

A precompile running out of gas returned its output, one which is not supported was
executed as a failing call (giving a wrong result) and calls to ordinary accounts
with an address up to 0xff failed.
---
 src/chains/eth/verifier/call_evmone.c | 33 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index a5f2a3b..cdd97e4 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -256,6 +256,11 @@ static void host_selfdestruct(void* context, const evmc_address* addr, const evm
   transfer_value(ctx, addr, beneficiary, &balance);
 }
 
+// the addresses 0x01 - 0x11 are precompiles, all others are normal accounts
+static bool is_precompile(const uint8_t* address) {
+  return bytes_all_zero(bytes(address, 19)) && address[19] && address[19] <= 0x11;
+}
+
 // Handle call to another contract
 static void host_call(void* context, const struct evmone_message* msg, const uint8_t* code, size_t code_size, struct evmone_result* result) {
   evmone_context_t* ctx = (evmone_context_t*) context;
@@ -265,24 +270,26 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   debug_print_address("code from", &msg->code_address);
   EVM_LOG("call gas: %zu, depth: %d, is_static: %s", (size_t) msg->gas, msg->depth, msg->is_static ? "true" : "false");
 
-  if (bytes_all_zero(bytes(msg->code_address.bytes, 19)) && msg->code_address.bytes[19]) {
+  if (is_precompile(msg->code_address.bytes)) {
     buffer_t     output     = {0};
     uint64_t     gas_used   = 0;
     pre_result_t pre_result = eth_execute_precompile(msg->code_address.bytes, bytes(msg->input_data, msg->input_size), &output, &gas_used);
-    result->output_data     = output.data.data;
-    result->output_size     = output.data.len;
-    result->gas_left        = msg->gas - gas_used;
     result->gas_refund      = 0;
-    result->status_code     = pre_result;
-    if (pre_result == PRE_SUCCESS && (msg->gas < 0 || gas_used > (uint64_t) msg->gas)) {
-      result->status_code = 3; // out of gas
-      result->gas_left    = 0;
+    if (pre_result == PRE_NOT_SUPPORTED && !ctx->ctx->state.error) ctx->ctx->state.error = bprintf(NULL, "Precompile 0x%x is not supported", bytes(msg->code_address.bytes, 20));
+    if (pre_result == PRE_SUCCESS && (msg->gas < 0 || gas_used > (uint64_t) msg->gas)) pre_result = 3; // out of gas
+    result->status_code = pre_result;
+    if (pre_result == PRE_SUCCESS) {
+      result->output_data = output.data.data;
+      result->output_size = output.data.len;
+      result->gas_left    = msg->gas - gas_used;
+      if (msg->kind == CALL_KIND_CALL) transfer_value(ctx, &msg->sender, &msg->destination, &msg->value);
     }
-    else if (pre_result == PRE_SUCCESS && msg->kind == CALL_KIND_CALL)
-      transfer_value(ctx, &msg->sender, &msg->destination, &msg->value);
-    if (pre_result != PRE_SUCCESS) {
+    else { // a failing precompile has no output
       EVM_LOG("Precompile failed with status code: %d", pre_result);
-      result->gas_left = 0;
+      buffer_free(&output);
+      result->output_data = NULL;
+      result->output_size = 0;
+      result->gas_left    = 0;
     }
     add_evm_result(ctx, result);
     return;
@@ -546,7 +553,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
   set_message(&message, tx, &buffer);
 
   // is this a call to a precompile directly?
-  if (bytes_all_zero(bytes(to, 19)) && to[19]) {
+  if (is_precompile(to)) {
     buffer_t     output     = {0};
     uint64_t     gas_used   = 0;
     pre_result_t pre_result = eth_execute_precompile(to, bytes(message.input_data, message.input_size), &output, &gas_used);
-- 
2.43.0


From 8be813a23ae894a04b34da441ce3b4bd9f2d91f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:34 +0000
Subject: [PATCH 074/102] fix: include sender and recipient in the proof of a
 call using access lists

eth_createAccessList only lists them if their storage is used, but the verifier
needs at least the code of the recipient.
---
 src/chains/eth/prover/proof_call.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index dcd5835..30ad4db 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -205,6 +205,21 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
   return C4_SUCCESS;
 }
 
+static bool same_address(json_t a, json_t b) {
+  address_t addr_a = {0};
+  address_t addr_b = {0};
+  buffer_t  buf_a  = stack_buffer(addr_a);
+  buffer_t  buf_b  = stack_buffer(addr_b);
+  return json_as_bytes(a, &buf_a).len == 20 && json_as_bytes(b, &buf_b).len == 20 && memcmp(addr_a, addr_b, 20) == 0;
+}
+
+static bool in_access_list(json_t access_list, json_t address) {
+  json_for_each_value(access_list, values) {
+    if (same_address(json_get(values, "address"), address)) return true;
+  }
+  return false;
+}
+
 c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64_t block_number, ssz_builder_t* builder, address_t miner, const eth_state_overrides_t* overrides) {
   c4_status_t status       = C4_SUCCESS;
   json_t      eth_proof    = {0};
@@ -215,6 +230,20 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   if ((ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) || overrides) { // with overrides the access list is always used
     json_t access_list = json_get(trace, "accessList");
     accounts_len       = json_len(access_list);
+    // sender and recipient are only listed if their storage is accessed, but they are part of the execution.
+    json_t parties[2] = {json_get(tx, "to"), json_get(tx, "from")};
+    for (int i = 0; i < 2; i++) {
+      if (parties[i].type != JSON_TYPE_STRING || in_access_list(access_list, parties[i]) || (i && same_address(parties[0], parties[1])))
+        parties[i].type = JSON_TYPE_NOT_FOUND;
+      else
+        accounts_len++;
+    }
+    for (int i = 0; i < 2; i++) {
+      if (parties[i].type == JSON_TYPE_NOT_FOUND) continue;
+      buffer_t buf = stack_buffer(address);
+      json_as_bytes(parties[i], &buf);
+      TRY_ADD_ASYNC(status, handle_access_list(ctx, (json_t) {.type = JSON_TYPE_NOT_FOUND}, bytes(parties[i].start + 1, parties[i].len - 2), (json_t) {0}, accounts_len, block_number, address, builder, overrides));
+    }
     json_for_each_value(access_list, values) {
       buffer_t buf  = stack_buffer(address);
       json_t   addr = json_get(values, "address");
-- 
2.43.0


From 6b113de786537c97f854be5c05b174e4b331645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:53 +0000
Subject: [PATCH 075/102] fix: precompile addresses beyond the table must not
 be executed

---
 src/chains/eth/precompiles/precompiles_basic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/precompiles/precompiles_basic.c b/src/chains/eth/precompiles/precompiles_basic.c
index a67e331..eee7132 100644
--- a/src/chains/eth/precompiles/precompiles_basic.c
+++ b/src/chains/eth/precompiles/precompiles_basic.c
@@ -37,7 +37,7 @@
 
 typedef pre_result_t (*precompile_func_t)(bytes_t input, buffer_t* output, uint64_t* gas_used);
 
-#define PRECOMPILE_FN_COUNT 20 // Updated count based on new array size (0x13 + 1)
+#define PRECOMPILE_FN_COUNT 17 // 0x01 - 0x11
 #define data_word_size(x)   ((x + 31) / 32)
 
 #ifdef PRECOMPILED_BN128
@@ -238,7 +238,7 @@ const precompile_func_t precompile_fn[] = {
 };
 
 pre_result_t eth_execute_precompile(const uint8_t* address, const bytes_t input, buffer_t* output, uint64_t* gas_used) {
-  if (!bytes_all_zero(bytes(address, 19)) || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
+  if (!bytes_all_zero(bytes(address, 19)) || !address[19] || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
   precompile_func_t fn = precompile_fn[address[19] - 1];
   if (fn == NULL) return PRE_NOT_SUPPORTED;
   return fn(input, output, gas_used);
-- 
2.43.0


From b2e130e344d8ae78811f5becc379434f44ccd804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:04 +0000
Subject: [PATCH 076/102] fix: free the parameters of a verifier context as
 allocated, also with leading whitespace or invalid json

---
 bindings/colibri.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index ea73f7a..dc8c97d 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -37,6 +37,8 @@
 typedef struct {
   verify_ctx_t ctx;
   bytes_t      proof;
+  char*        method;
+  char*        args;
   bool         initialised;
 } c4_verify_ctx_t;
 
@@ -166,7 +168,9 @@ bytes_t c4_prover_get_proof(prover_t* prover) {
 void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint) {
   c4_verify_ctx_t* ctx = calloc(1, sizeof(c4_verify_ctx_t));
   ctx->proof           = bytes_dup(proof);
-  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? json_parse(strdup(args)) : ((json_t) {0}), (chain_id_t) chain_id);
+  ctx->method          = method ? strdup(method) : NULL;
+  ctx->args            = args ? strdup(args) : NULL;
+  c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
     hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
@@ -210,8 +214,8 @@ char* c4_verify_execute_json_status(void* ptr) {
 void c4_verify_free_ctx(void* ptr) {
   c4_verify_ctx_t* ctx = (c4_verify_ctx_t*) ptr;
   if (ctx->proof.data) free(ctx->proof.data);
-  if (ctx->ctx.method) free((char*) ctx->ctx.method);
-  if (ctx->ctx.args.start) free((char*) ctx->ctx.args.start);
+  if (ctx->method) free(ctx->method);
+  if (ctx->args) free(ctx->args);
   c4_verify_free_data(&(ctx->ctx));
   free(ctx);
 }
-- 
2.43.0


From 00e54ef51f998c43995b81eea810fca0ef9648f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:47 +0000
Subject: [PATCH 077/102] fix: report errors of decoded transactions in the
 state of the context

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From 4999b50db2d108a671988d7548fe3641ca1aaf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:10 +0000
Subject: [PATCH 078/102] fix: release the sync data, block proofs and
 overrides of the prover when a request is pending or fails

---
 src/chains/eth/prover/historic_proof.c    |  9 ++++++---
 src/chains/eth/prover/proof_account.c     |  6 +++---
 src/chains/eth/prover/proof_block.c       |  8 ++++----
 src/chains/eth/prover/proof_call.c        | 13 ++++++++-----
 src/chains/eth/prover/proof_logs.c        |  2 +-
 src/chains/eth/prover/proof_receipt.c     |  2 +-
 src/chains/eth/prover/proof_transaction.c |  4 ++--
 7 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 5b7cadd..3e62f30 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -366,7 +366,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
   ssz_ob_t      bootstrap = {.def = &ssz_none};
   ssz_builder_t updates   = ssz_builder_for_def(ssz_get_def(builder->def, "update"));
   if (sync_data->checkpoint_period) TRY_ASYNC(fetch_bootstrap_data(ctx, sync_data, &bootstrap));
-  if (sync_data->required_period > sync_data->newest_period) TRY_ASYNC(fetch_updates_data(ctx, sync_data, &updates));
+  if (sync_data->required_period > sync_data->newest_period) TRY_ASYNC_CATCH(fetch_updates_data(ctx, sync_data, &updates), ssz_builder_free(&updates));
 
   ssz_add_ob(builder, "bootstrap", bootstrap);
   ssz_add_builders(builder, "update", updates);
@@ -414,8 +414,11 @@ static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sy
     }
   }
   // if there is a gap, fetch the light client updates
-  if ((ctx->flags & C4_PROVER_FLAG_ZK_PROOF) && sync_data->newest_period < sync_data->required_period)
-    return c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
+  if ((ctx->flags & C4_PROVER_FLAG_ZK_PROOF) && sync_data->newest_period < sync_data->required_period) {
+    c4_status_t status = c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
+    if (status == C4_SUCCESS) safe_free(zk_proof.signatures.data);
+    return status;
+  }
   else if ((ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC) && sync_data->newest_period < sync_data->required_period)
     return fetch_updates_data(ctx, sync_data, NULL);
   return C4_SUCCESS;
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index 63cdca5..ee1b13a 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -74,12 +74,12 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   ssz_builder_t eth_account_proof = ssz_builder_for_type(ETH_SSZ_VERIFY_ACCOUNT_PROOF);
   ssz_builder_t sync_proof        = NULL_SSZ_BUILDER;
 
-  // get the sync_proof if needed
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
-
   // make sure we have the full code
   if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
+  // get the sync_proof if needed
+  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
   ssz_add_bytes(&eth_account_proof, "address", json_as_bytes(address, &tmp));
diff --git a/src/chains/eth/prover/proof_block.c b/src/chains/eth/prover/proof_block.c
index cdc8122..72599ad 100644
--- a/src/chains/eth/prover/proof_block.c
+++ b/src/chains/eth/prover/proof_block.c
@@ -44,8 +44,8 @@ c4_status_t c4_proof_block(prover_ctx_t* ctx) {
 
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_at(ctx->params, 0), &block));
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &historic_proof, &block), c4_free_block_proof(&historic_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_proof(block.body, body_root, ssz_gindex(block.body.def, 1, "executionPayload"));
@@ -78,8 +78,8 @@ c4_status_t c4_proof_block_number(prover_ctx_t* ctx) {
 
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_parse("\"latest\""), &block));
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &historic_proof, &block), c4_free_block_proof(&historic_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_multi_proof(block.body, body_root, 2,
diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 30ad4db..05c53af 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -58,7 +58,7 @@ static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t accoun
   ssz_builder_t sync_proof     = NULL_SSZ_BUILDER;
 
   // get the sync_proof if needed
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof->sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof->sync, &sync_proof), ssz_builder_free(&account_proofs));
 
   ssz_add_builders(&eth_call_proof, "accounts", account_proofs);
   ssz_add_builders(&eth_call_proof, "state_proof", eth_ssz_create_state_proof(ctx, block_number, block_data, historic_proof));
@@ -289,7 +289,7 @@ c4_status_t c4_proof_call(prover_ctx_t* ctx) {
   // Validate arguments before processing
   TRACE_START(ctx, "get_block_for_eth");
   CHECK_JSON(ctx->params, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
-  if (has_overrides) TRY_ASYNC(eth_parse_state_overrides_state(&ctx->state, state_overrides, &overrides_parsed));
+  if (has_overrides) TRY_ASYNC_CATCH(eth_parse_state_overrides_state(&ctx->state, state_overrides, &overrides_parsed), eth_state_overrides_free(&overrides_parsed));
 
   TRY_ASYNC_CATCH(c4_beacon_get_block_for_eth(ctx, block_number, &block), eth_state_overrides_free(&overrides_parsed)); // get the beacon-block matching the block-tag (usually cached)
   uint64_t target_block = ssz_get_uint64(&block.execution, "blockNumber");                                              // this is our blocknumber now
@@ -299,10 +299,13 @@ c4_status_t c4_proof_call(prover_ctx_t* ctx) {
   TRACE_START(ctx, "fetch access list and eth_getProof");
   // If state overrides are provided, we must use eth_createAccessList so the upstream can account for overrides.
   if (has_overrides)
-    TRY_ADD_ASYNC(status, eth_create_access_list(ctx, tx, &trace, target_block, state_overrides));
+    status = eth_create_access_list(ctx, tx, &trace, target_block, state_overrides);
   else
-    TRY_ADD_ASYNC(status, ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block));
-  TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &historic_proof, &block));
+    status = ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block);
+  if (status != C4_ERROR) { // run both requests in parallel
+    c4_status_t proof_status = c4_check_blockroot_proof(ctx, &historic_proof, &block);
+    if (proof_status != C4_SUCCESS) status = proof_status;
+  }
   TRY_ASYNC_CATCH(status, c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed));
   TRY_ASYNC_CATCH(
       c4_get_eth_proofs(ctx, tx, trace, target_block, &accounts, miner.data, has_overrides ? &overrides_parsed : NULL),
diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index f314b63..f0bad32 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -303,7 +303,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
     TRY_ASYNC_CATCH(proof_block(ctx, block), free_blocks(blocks));
 
   if (ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC && highest_block)
-    TRY_ASYNC(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof));
+    TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof), free_blocks(blocks));
 
   // serialize the proof
   serialize_log_proof(ctx, blocks, logs, sync_proof);
diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 1f8a8ed..4c34875 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -158,7 +158,7 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   TRY_ASYNC(status);
 
   TRACE_START(ctx, "check_blockroot_proof");
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &block_proof, &block));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &block_proof, &block), c4_free_block_proof(&block_proof));
 
   if (tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
     c4_free_block_proof(&block_proof);
diff --git a/src/chains/eth/prover/proof_transaction.c b/src/chains/eth/prover/proof_transaction.c
index 23a1d0b..a5cf595 100644
--- a/src/chains/eth/prover/proof_transaction.c
+++ b/src/chains/eth/prover/proof_transaction.c
@@ -108,10 +108,10 @@ c4_status_t c4_proof_transaction(prover_ctx_t* ctx) {
   if (block.slot) TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &block_proof, &block));
 
   if (status != C4_SUCCESS) {
-    safe_free(block_proof.historic_proof.data);
+    c4_free_block_proof(&block_proof);
     return status;
   }
-  REQUEST_WORKER_THREAD_CATCH(ctx, safe_free(block_proof.historic_proof.data));
+  REQUEST_WORKER_THREAD_CATCH(ctx, c4_free_block_proof(&block_proof));
 
   if (tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
     c4_free_block_proof(&block_proof);
-- 
2.43.0


From 3bb7cd4b94d1c28ed36902ba52b26b2e30d1c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:13 +0000
Subject: [PATCH 079/102] fix: release results, codes, overrides and error
 messages in the verifier

---
 src/chains/eth/verifier/call_evmone.c          | 7 +++++--
 src/chains/eth/verifier/eth_account.c          | 1 +
 src/chains/eth/verifier/sync_committee_state.c | 1 +
 src/chains/eth/verifier/verify_call.c          | 5 ++++-
 src/chains/eth/verifier/verify_simulate.c      | 6 +++++-
 src/util/ssz_builder.c                         | 7 +++++--
 6 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index cdd97e4..38d7e97 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -668,7 +668,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
       case -3: error_msg = "Out of memory"; break;
     }
     EVM_LOG("Error details: %s", error_msg);
-    ctx->state.error = strdup(error_msg);
+    if (!ctx->state.error) ctx->state.error = strdup(error_msg); // keep the cause
   }
 
   // Clean up resources
@@ -678,7 +678,10 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
   while (context.results) {
     evm_res_ptr_t* res  = (evm_res_ptr_t*) context.results;
     evm_res_ptr_t* next = res->next;
-    evmone_release_result(&res->result);
+    if (res->result.release_callback)
+      evmone_release_result(&res->result);
+    else
+      safe_free((uint8_t*) res->result.output_data); // output of a precompile
     safe_free(res);
     context.results = next;
   }
diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index a9e37cc..a474b3c 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -208,6 +208,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
         if (result.type == JSON_TYPE_STRING) {
           buffer_t code_data = {0};
           ac->code           = json_as_bytes(result, &code_data);
+          if (!ac->code.data) buffer_free(&code_data); // invalid hex
           ac->free           = true;
 
           keccak(ac->code, hash);
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 2484e1e..a44336c 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -226,6 +226,7 @@ bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t*
       const char* err = json_validate(res, "{data:{finalized:{epoch:suint,root:bytes32}}}", "finality checkpoints");
       if (err) {
         c4_state_add_error(state, err);
+        safe_free((char*) err);
         return false;
       }
 
diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 07f3cce..1cc9980 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -81,7 +81,10 @@ bool verify_call_proof(verify_ctx_t* ctx) {
   eth_state_overrides_t        overrides      = {0};
   const eth_state_overrides_t* overrides_ptr  = NULL;
   if (overrides_json.type == JSON_TYPE_OBJECT) {
-    if (eth_parse_state_overrides(ctx, overrides_json, &overrides) != C4_SUCCESS) return false;
+    if (eth_parse_state_overrides(ctx, overrides_json, &overrides) != C4_SUCCESS) {
+      eth_state_overrides_free(&overrides);
+      return false;
+    }
     overrides_ptr = &overrides;
   }
 
diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index eec8529..10b5aad 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -123,7 +123,10 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
   eth_state_overrides_t        overrides      = {0};
   const eth_state_overrides_t* overrides_ptr  = NULL;
   if (overrides_json.type == JSON_TYPE_OBJECT) {
-    if (eth_parse_state_overrides(ctx, overrides_json, &overrides) != C4_SUCCESS) return false;
+    if (eth_parse_state_overrides(ctx, overrides_json, &overrides) != C4_SUCCESS) {
+      eth_state_overrides_free(&overrides);
+      return false;
+    }
     overrides_ptr = &overrides;
   }
 
@@ -139,6 +142,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
 #endif
 
   if (call_status != C4_SUCCESS) {
+    safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
     eth_state_overrides_free(&overrides);
diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index cea0918..b363840 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -328,8 +328,11 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_LIST: {
       // List: convert JSON array to variable-length SSZ list
-      if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1)
-        return (ssz_ob_t) {.def = def, .bytes = json_as_bytes(json, &buf.fixed)};
+      if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1) {
+        bytes_t bytes = json_as_bytes(json, &buf.fixed);
+        if (!bytes.data) buffer_free(&buf.fixed); // invalid hex
+        return (ssz_ob_t) {.def = def, .bytes = bytes};
+      }
       uint32_t len = json_len(json);
       if (ssz_is_dynamic(def->def.vector.type))
         for (uint32_t i = 0; i < len; i++) {
-- 
2.43.0


From 45459c0a1d024017461301aad71d62c90563942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:00 +0000
Subject: [PATCH 080/102] fix: a malformed list of logs in a receipt kept the
 verifier busy for 4 billion iterations

---
 src/chains/eth/verifier/eth_tx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index f20cc6f..ca76cb8 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -339,9 +339,9 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "a log of the chain can not be removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = rlp_decode(&logs, -1, &logs);
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
     rlp_decode(&logs, i, &log_rlp);
     if (matches(log, log_rlp)) return true;
-- 
2.43.0


From d9925c753b58ebc6db2e82db85a060f365c62a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:53 +0000
Subject: [PATCH 081/102] fix: op: compare the hash of the proven transaction
 with the requested one

The condition was inverted: eth_getTransactionByHash accepted any transaction
of any signed block, and the lookups by index always failed.
---
 src/chains/op/verifier/op_verify_tx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 6480e67..7777621 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -54,6 +54,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   uint32_t  tx_index          = ssz_get_uint32(&ctx->proof, "transactionIndex");
   ssz_ob_t* execution_payload = NULL;
   bytes32_t tx_hash_expected  = {0};
+  bool      check_tx_hash     = false;
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
@@ -77,6 +78,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     buffer_t buf      = stack_buffer(tx_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
+    check_tx_hash = true;
   }
   if (execution_payload == NULL) return false; // error already set
 
@@ -86,7 +88,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   ssz_ob_t block_number     = ssz_get(execution_payload, "blockNumber");
   ssz_ob_t base_fee_per_gas = ssz_get(execution_payload, "baseFeePerGas");
 
-  ctx->success = create_eth_tx_data(ctx, bytes_all_zero(bytes(tx_hash_expected, 32)) ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
+  ctx->success = create_eth_tx_data(ctx, check_tx_hash ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
   safe_free(execution_payload);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From 167164dcb3014e83bdae16ae021411d114519747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:53 +0000
Subject: [PATCH 082/102] fix: op: a proof only answers the method it was
 created for

The verifier chose the check by the type of the proof alone, so a valid account
proof made any attached data the accepted answer of any other method.
---
 src/chains/op/verifier/op_verify.c | 39 +++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify.c b/src/chains/op/verifier/op_verify.c
index 0bf4f80..9182a58 100644
--- a/src/chains/op/verifier/op_verify.c
+++ b/src/chains/op/verifier/op_verify.c
@@ -109,9 +109,46 @@ const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type) {
 }
 extern bool verify_eth_local(verify_ctx_t* ctx);
 
+// the proof type each method needs. A proof only answers the method it was created for.
+static const struct {
+  const char*   method;
+  op_ssz_type_t proof;
+} proof_types[] = {
+    {"eth_call", OP_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", OP_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", OP_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+static bool proof_answers_method(verify_ctx_t* ctx) {
+  if (!ctx->method) return ctx->proof.def->type == SSZ_TYPE_NONE;
+  for (int i = 0; i < sizeof(proof_types) / sizeof(proof_types[0]); i++) {
+    if (strcmp(ctx->method, proof_types[i].method) == 0) return ssz_is_type(&ctx->proof, op_ssz_verification_type(proof_types[i].proof));
+  }
+  return ctx->proof.def->type == SSZ_TYPE_NONE; // all other methods do not use a proof
+}
+
 bool c4_op_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_OP) return false;
 
+  if (!proof_answers_method(ctx)) {
+    ctx->state.error = strdup("the proof does not match the requested method");
+    ctx->success     = false;
+    return true;
+  }
+
   // Handle local methods first (they don't need proofs)
   if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_BLOCK_PROOF)))
     op_verify_block(ctx);
@@ -129,7 +166,7 @@ bool c4_op_verify(verify_ctx_t* ctx) {
   }
   else if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_ACCOUNT_PROOF)))
     op_verify_account_proof(ctx);
-  else if (c4_op_get_method_type(ctx->chain_id, ctx->method) == METHOD_LOCAL)
+  else if (ctx->method && c4_op_get_method_type(ctx->chain_id, ctx->method) == METHOD_LOCAL)
     verify_eth_local(ctx);
   else if (ctx->method == NULL && ctx->proof.def->type == SSZ_TYPE_NONE && ctx->sync_data.def->type != SSZ_TYPE_NONE && ctx->data.def->type == SSZ_TYPE_NONE)
     ctx->success = true; // if you only verify the sync data, this is ok
-- 
2.43.0


From 1caaecdea2a68558a50b8373bf872c208e6794a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:53 +0000
Subject: [PATCH 083/102] fix: op: check that a call was executed on the
 requested block

The block of the proof was not compared with the block parameter.
---
 src/chains/op/verifier/op_verify_call.c     | 3 ++-
 src/chains/op/verifier/op_verify_simulate.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index 5ed5fba..1c741c5 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -50,6 +50,7 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
   call_code_t* call_codes  = NULL;
   bool         match       = false;
   CHECK_JSON_VERIFY(ctx->args, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
+  json_t block_number   = json_at(ctx->args, 1);
   json_t overrides_json = json_at(ctx->args, 2);
   eth_state_overrides_t overrides = {0};
   const eth_state_overrides_t* overrides_ptr = NULL;
@@ -87,7 +88,7 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
   }
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
   match = memcmp(state_root, ssz_get(execution_payload, "stateRoot").bytes.data, 32) == 0;
   safe_free(execution_payload);
diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index 6eec0a0..a4271c1 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -55,6 +55,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   bool           match       = false;
 
   CHECK_JSON_VERIFY(ctx->args, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
+  json_t block_number   = json_at(ctx->args, 1);
   json_t overrides_json = json_at(ctx->args, 2);
   eth_state_overrides_t overrides = {0};
   const eth_state_overrides_t* overrides_ptr = NULL;
@@ -79,7 +80,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   }
 
   // Extract and verify execution payload (OP Stack specific)
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
-- 
2.43.0


From ad6076ac9210b9c46f90554f2cdc40da3f786b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:53 +0000
Subject: [PATCH 084/102] fix: write the minted value of a deposit as full
 uint256

A value shorter than 32 bytes was aligned to the wrong end.
---
 src/chains/eth/verifier/eth_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index ca76cb8..c7e3d3a 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -890,7 +890,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     for (int i = 0; i < actual_len; i++) {
       mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
     }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_bytes(buffer, "mint", bytes(mint_le, 32));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
-- 
2.43.0


From 4b79f92873b1e1a3297c7cca23ca0f39b60de72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 085/102] fix: op: do not allocate whatever size a compressed
 payload claims

A proof with a frame header of some terabytes ended the process of the verifier
before the signature was checked.
---
 src/chains/op/verifier/op_verify_block.c | 2 +-
 src/chains/op/verifier/op_zstd.c         | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index 2611bd0..4d4e85f 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -72,7 +72,7 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   bytes_t decompressed_data = bytes(safe_malloc(expected_size), expected_size);
   size_t  actual_size       = op_zstd_decompress(compressed_data.bytes, decompressed_data);
 
-  if (actual_size != expected_size) {
+  if (actual_size != expected_size || expected_size < 32) {
     safe_free(decompressed_data.data);
     c4_state_add_error(&ctx->state, "failed to decompress data");
     return NULL;
diff --git a/src/chains/op/verifier/op_zstd.c b/src/chains/op/verifier/op_zstd.c
index 9e1cda1..8b7382a 100644
--- a/src/chains/op/verifier/op_zstd.c
+++ b/src/chains/op/verifier/op_zstd.c
@@ -60,5 +60,8 @@ size_t op_zstd_get_decompressed_size(
     return 0; // All attempts failed
   }
 
+  // the size is part of the (untrusted) data, so never allocate more than a block can need
+  if (result > 16 * 1024 * 1024) return 0;
+
   return (size_t) result;
 }
-- 
2.43.0


From 772275b97bde2745fe9f564f851abdf5658107f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 086/102] fix: op: free the state overrides of a rejected call

---
 src/chains/op/verifier/op_verify_call.c     | 12 +++++++++---
 src/chains/op/verifier/op_verify_simulate.c |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index 1c741c5..08730f1 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -60,7 +60,10 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
   }
 
   // make sure we have all the code data we need
-  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) return false;
+  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) {
+    eth_state_overrides_free(&overrides);
+    return false;
+  }
 #ifdef EVMONE
   c4_status_t call_status = eth_run_call_evmone(ctx, call_codes, accounts, json_at(ctx->args, 0), &call_result, overrides_ptr);
 #else
@@ -89,12 +92,15 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
   }
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
-  if (!execution_payload) return false;
+  if (!execution_payload) {
+    eth_state_overrides_free(&overrides);
+    return false;
+  }
   match = memcmp(state_root, ssz_get(execution_payload, "stateRoot").bytes.data, 32) == 0;
   safe_free(execution_payload);
+  eth_state_overrides_free(&overrides);
   if (!match) RETURN_VERIFY_ERROR(ctx, "State root mismatch");
 
   ctx->success = true;
-  eth_state_overrides_free(&overrides);
   return ctx->success;
 }
\ No newline at end of file
diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index a4271c1..12f42bb 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -64,7 +64,10 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     overrides_ptr = &overrides;
   }
 
-  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) return false;
+  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) {
+    eth_state_overrides_free(&overrides);
+    return false;
+  }
 
 #ifdef EVMONE
   c4_status_t call_status = eth_run_call_evmone_with_events(ctx, call_codes, accounts, json_at(ctx->args, 0), &call_result, &logs, true, overrides_ptr);
@@ -85,6 +88,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
+    eth_state_overrides_free(&overrides);
     return false;
   }
 
@@ -123,6 +127,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
+    eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "State root mismatch");
   }
 
-- 
2.43.0


From e5e105adbb51fa1357269640815ac7f463b944a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 087/102] fix: op: check the preconfirmed payload before it is
 used by the prover

An empty or damaged answer was read and written out of bounds.
---
 src/chains/op/prover/op_proof_account.c | 6 +++++-
 src/chains/op/prover/op_proof_block.c   | 2 +-
 src/chains/op/prover/op_proof_call.c    | 8 ++++++--
 src/chains/op/prover/op_proof_logs.c    | 4 +++-
 src/chains/op/prover/op_tools.c         | 6 +++++-
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index e43a9fc..656246a 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -120,7 +120,11 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
     CHECK_JSON(ctx->params, "[address,block]", "Invalid arguments for AccountProof: ");
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &block_proof));
   ssz_ob_t* execution_payload = op_get_execution_payload(&block_proof);
-  block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
+  if (!execution_payload) {
+    ssz_builder_free(&block_proof);
+    THROW_ERROR("Invalid preconf data");
+  }
+  block_number_uint64 = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
   TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number_uint64, block_proof), ssz_builder_free(&block_proof));
diff --git a/src/chains/op/prover/op_proof_block.c b/src/chains/op/prover/op_proof_block.c
index 90527fd..6938c49 100644
--- a/src/chains/op/prover/op_proof_block.c
+++ b/src/chains/op/prover/op_proof_block.c
@@ -47,7 +47,7 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
     bprintf(&buf2, "preconf/%j", block_number);
 
   TRY_ASYNC(c4_send_internal_request(ctx, (char*) buf2.data.data, NULL, 0, &preconf_data)); // get the raw-data
-  if (!preconf_data.len) THROW_ERROR("No preconf data found, currently only supports preconfs");
+  if (preconf_data.len <= 65) THROW_ERROR("No preconf data found, currently only supports preconfs");
   // Extract payload and signature
   bytes_t payload   = bytes_slice(preconf_data, 0, preconf_data.len - 65);
   bytes_t signature = bytes_slice(preconf_data, preconf_data.len - 65, 65);
diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 21e5a8f..44ba2f3 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -78,8 +78,12 @@ c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
   // get the latest block proof
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
   proof.execution_payload = op_get_execution_payload(&proof.block_proof);
-  proof.target_block      = ssz_get_uint64(proof.execution_payload, "blockNumber");
-  proof.miner             = ssz_get(proof.execution_payload, "feeRecipient").bytes;
+  if (!proof.execution_payload) {
+    free_proof(&proof);
+    THROW_ERROR("Invalid preconf data");
+  }
+  proof.target_block = ssz_get_uint64(proof.execution_payload, "blockNumber");
+  proof.miner        = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
   TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
   // TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
diff --git a/src/chains/op/prover/op_proof_logs.c b/src/chains/op/prover/op_proof_logs.c
index 60af86c..b3279df 100644
--- a/src/chains/op/prover/op_proof_logs.c
+++ b/src/chains/op/prover/op_proof_logs.c
@@ -143,7 +143,8 @@ static uint8_t* get_cache_key(proof_logs_block_t* block) {
   if (bytes_all_zero(bytes(block->cache_key, 32))) {
     if (!block->block_proof.def) return NULL;
     ssz_ob_t* execution_payload = get_execution_payload(block);
-    ssz_ob_t  receipt_root      = ssz_get(execution_payload, "receiptsRoot");
+    if (!execution_payload) return NULL;
+    ssz_ob_t receipt_root = ssz_get(execution_payload, "receiptsRoot");
     memcpy(block->cache_key, receipt_root.bytes.data, 32);
   }
   return block->cache_key;
@@ -175,6 +176,7 @@ static c4_status_t proof_block(prover_ctx_t* ctx, proof_logs_block_t* block) {
   buffer_t  buf          = stack_buffer(tmp);
 
 #ifdef PROVER_CACHE
+  if (!get_cache_key(block)) THROW_ERROR("Invalid preconf data");
   root = (node_t*) c4_prover_cache_get(ctx, get_cache_key(block));
   if (!root) {
     REQUEST_WORKER_THREAD(ctx);
diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index c3d1901..28387c3 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -35,8 +35,12 @@ bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_bui
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof) {
   if (!block_proof || !block_proof->dynamic.data.data) return NULL;
   size_t  len     = op_zstd_get_decompressed_size(block_proof->dynamic.data);
+  if (len <= 32) return NULL;
   bytes_t payload = bytes(safe_malloc(len), len);
-  op_zstd_decompress(block_proof->dynamic.data, payload);
+  if (op_zstd_decompress(block_proof->dynamic.data, payload) != len || !ssz_is_valid((ssz_ob_t) {.bytes = bytes_slice(payload, 32, len - 32), .def = &EXECUTION_PAYLOAD_CONTAINER}, true, NULL)) {
+    safe_free(payload.data);
+    return NULL;
+  }
   ssz_ob_t* ob = (ssz_ob_t*) (void*) payload.data;
   ob->bytes    = bytes_slice(payload, 32, len - 32);
   ob->def      = &EXECUTION_PAYLOAD_CONTAINER;
-- 
2.43.0


From 0c9ce5fbbdbe68abc5fa2c2addaa76ef4c7b9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:10 +0000
Subject: [PATCH 088/102] fix: op: reject a request without block instead of
 answering it with any block

---
 src/chains/op/verifier/op_verify_block.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index 4d4e85f..edd0390 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -96,7 +96,11 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   execution_payload->bytes    = bytes_slice(decompressed_data, 32, decompressed_data.len - 32);
 
   // check blocknumber
-
+  if (block_number && (block_number->type != JSON_TYPE_STRING || block_number->len < 5)) {
+    safe_free(execution_payload);
+    c4_state_add_error(&ctx->state, "invalid blocknumber");
+    return NULL;
+  }
   if (block_number && block_number->len > 2 && block_number->start[1] == '0' && block_number->start[2] == 'x') {
     bytes32_t buf    = {0};
     buffer_t  buffer = stack_buffer(buf);
-- 
2.43.0


From 4500f5a9fb5af1104852f5161472ac0e4638bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:06 +0000
Subject: [PATCH 089/102] fix: receipts of deposits with nonce 0 were encoded
 wrong

0 is the empty string in RLP, not a byte 0, so no receipt of such a block could be proven.
---
 src/chains/eth/prover/eth_req.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 1e70d00..140a70c 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -193,10 +193,8 @@ bytes_t c4_serialize_receipt(json_t r, buffer_t* buf) {
     json_t depositNonce          = json_get(r, "depositNonce");
     json_t depositReceiptVersion = json_get(r, "depositReceiptVersion");
     if (depositNonce.type == JSON_TYPE_STRING && depositReceiptVersion.type == JSON_TYPE_STRING) {
-      buffer_reset(&short_buf);
-      rlp_add_item(buf, json_as_bytes(depositNonce, &short_buf));
-      buffer_reset(&short_buf);
-      rlp_add_item(buf, json_as_bytes(depositReceiptVersion, &short_buf));
+      rlp_add_uint64(buf, json_as_uint64(depositNonce));
+      rlp_add_uint64(buf, json_as_uint64(depositReceiptVersion));
     }
   }
 
-- 
2.43.0


From 51634174d2eed9d3b213026cc83019efb60cb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:06 +0000
Subject: [PATCH 090/102] fix: op: the prover read the payload including the
 selector of the union

Since the payload is a union it starts with the selector, so it could not be decompressed
and no account, call or log could be proven.
---
 src/chains/op/prover/op_tools.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index 28387c3..6ca8327 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -34,10 +34,11 @@ bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_bui
 
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof) {
   if (!block_proof || !block_proof->dynamic.data.data) return NULL;
-  size_t  len     = op_zstd_get_decompressed_size(block_proof->dynamic.data);
+  bytes_t compressed = bytes_slice(block_proof->dynamic.data, 1, block_proof->dynamic.data.len - 1); // without the selector of the union
+  size_t  len        = op_zstd_get_decompressed_size(compressed);
   if (len <= 32) return NULL;
   bytes_t payload = bytes(safe_malloc(len), len);
-  if (op_zstd_decompress(block_proof->dynamic.data, payload) != len || !ssz_is_valid((ssz_ob_t) {.bytes = bytes_slice(payload, 32, len - 32), .def = &EXECUTION_PAYLOAD_CONTAINER}, true, NULL)) {
+  if (op_zstd_decompress(compressed, payload) != len || !ssz_is_valid((ssz_ob_t) {.bytes = bytes_slice(payload, 32, len - 32), .def = &EXECUTION_PAYLOAD_CONTAINER}, true, NULL)) {
     safe_free(payload.data);
     return NULL;
   }
-- 
2.43.0


From 9942099be167fd4b368cd9ef3697124d7fceb42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:39 +0000
Subject: [PATCH 091/102] fix: the fields of a deposit could be hidden in its
 receipt

---
 src/chains/eth/verifier/eth_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index c7e3d3a..bca7cc2 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -374,7 +374,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&receipt_data, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
   // all verified fields must be part of the result, the deposit fields only for deposit transactions ("to" may be missing when creating a contract)
   uint32_t mask     = ssz_get_uint32(&receipt_data, "_optmask");
-  uint32_t required = RECEIPT_REQUIRED_FIELDS | (val.len ? RECEIPT_TO : 0);
+  uint32_t required = RECEIPT_REQUIRED_FIELDS | (val.len ? RECEIPT_TO : 0) | (type == TX_TYPE_DEPOSITED ? RECEIPT_DEPOSIT_FIELDS : 0);
   if ((mask & required) != required || (type != TX_TYPE_DEPOSITED && (mask & RECEIPT_DEPOSIT_FIELDS))) RETURN_VERIFY_ERROR(ctx, "invalid fields in receipt data!");
 
   if (type != TX_TYPE_LEGACY) {
-- 
2.43.0


From 28412ab39188d1db52a7f0b9dade787ec5492858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:42 +0000
Subject: [PATCH 092/102] fix: the table of the zero hashes was initialized
 without synchronization

---
 src/util/ssz_merkle.c | 45 +++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index d934898..5288ff3 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -250,22 +250,43 @@ ssz_ob_t ssz_get(ssz_ob_t* ob, const char* name) {
 
 #ifdef PRECOMPILE_ZERO_HASHES
 #define MAX_DEPTH 30
-static int     inited_zero_hashed = 0;
-static uint8_t ZERO_HASHES[MAX_DEPTH][32];
-static void    cached_zero_hash(int depth, uint8_t* out) {
+// constants, so they may be used by more than one thread.
+static const uint8_t ZERO_HASHES[MAX_DEPTH][32] = {
+    {0xf5, 0xa5, 0xfd, 0x42, 0xd1, 0x6a, 0x20, 0x30, 0x27, 0x98, 0xef, 0x6e, 0xd3, 0x09, 0x97, 0x9b, 0x43, 0x00, 0x3d, 0x23, 0x20, 0xd9, 0xf0, 0xe8, 0xea, 0x98, 0x31, 0xa9, 0x27, 0x59, 0xfb, 0x4b},
+    {0xdb, 0x56, 0x11, 0x4e, 0x00, 0xfd, 0xd4, 0xc1, 0xf8, 0x5c, 0x89, 0x2b, 0xf3, 0x5a, 0xc9, 0xa8, 0x92, 0x89, 0xaa, 0xec, 0xb1, 0xeb, 0xd0, 0xa9, 0x6c, 0xde, 0x60, 0x6a, 0x74, 0x8b, 0x5d, 0x71},
+    {0xc7, 0x80, 0x09, 0xfd, 0xf0, 0x7f, 0xc5, 0x6a, 0x11, 0xf1, 0x22, 0x37, 0x06, 0x58, 0xa3, 0x53, 0xaa, 0xa5, 0x42, 0xed, 0x63, 0xe4, 0x4c, 0x4b, 0xc1, 0x5f, 0xf4, 0xcd, 0x10, 0x5a, 0xb3, 0x3c},
+    {0x53, 0x6d, 0x98, 0x83, 0x7f, 0x2d, 0xd1, 0x65, 0xa5, 0x5d, 0x5e, 0xea, 0xe9, 0x14, 0x85, 0x95, 0x44, 0x72, 0xd5, 0x6f, 0x24, 0x6d, 0xf2, 0x56, 0xbf, 0x3c, 0xae, 0x19, 0x35, 0x2a, 0x12, 0x3c},
+    {0x9e, 0xfd, 0xe0, 0x52, 0xaa, 0x15, 0x42, 0x9f, 0xae, 0x05, 0xba, 0xd4, 0xd0, 0xb1, 0xd7, 0xc6, 0x4d, 0xa6, 0x4d, 0x03, 0xd7, 0xa1, 0x85, 0x4a, 0x58, 0x8c, 0x2c, 0xb8, 0x43, 0x0c, 0x0d, 0x30},
+    {0xd8, 0x8d, 0xdf, 0xee, 0xd4, 0x00, 0xa8, 0x75, 0x55, 0x96, 0xb2, 0x19, 0x42, 0xc1, 0x49, 0x7e, 0x11, 0x4c, 0x30, 0x2e, 0x61, 0x18, 0x29, 0x0f, 0x91, 0xe6, 0x77, 0x29, 0x76, 0x04, 0x1f, 0xa1},
+    {0x87, 0xeb, 0x0d, 0xdb, 0xa5, 0x7e, 0x35, 0xf6, 0xd2, 0x86, 0x67, 0x38, 0x02, 0xa4, 0xaf, 0x59, 0x75, 0xe2, 0x25, 0x06, 0xc7, 0xcf, 0x4c, 0x64, 0xbb, 0x6b, 0xe5, 0xee, 0x11, 0x52, 0x7f, 0x2c},
+    {0x26, 0x84, 0x64, 0x76, 0xfd, 0x5f, 0xc5, 0x4a, 0x5d, 0x43, 0x38, 0x51, 0x67, 0xc9, 0x51, 0x44, 0xf2, 0x64, 0x3f, 0x53, 0x3c, 0xc8, 0x5b, 0xb9, 0xd1, 0x6b, 0x78, 0x2f, 0x8d, 0x7d, 0xb1, 0x93},
+    {0x50, 0x6d, 0x86, 0x58, 0x2d, 0x25, 0x24, 0x05, 0xb8, 0x40, 0x01, 0x87, 0x92, 0xca, 0xd2, 0xbf, 0x12, 0x59, 0xf1, 0xef, 0x5a, 0xa5, 0xf8, 0x87, 0xe1, 0x3c, 0xb2, 0xf0, 0x09, 0x4f, 0x51, 0xe1},
+    {0xff, 0xff, 0x0a, 0xd7, 0xe6, 0x59, 0x77, 0x2f, 0x95, 0x34, 0xc1, 0x95, 0xc8, 0x15, 0xef, 0xc4, 0x01, 0x4e, 0xf1, 0xe1, 0xda, 0xed, 0x44, 0x04, 0xc0, 0x63, 0x85, 0xd1, 0x11, 0x92, 0xe9, 0x2b},
+    {0x6c, 0xf0, 0x41, 0x27, 0xdb, 0x05, 0x44, 0x1c, 0xd8, 0x33, 0x10, 0x7a, 0x52, 0xbe, 0x85, 0x28, 0x68, 0x89, 0x0e, 0x43, 0x17, 0xe6, 0xa0, 0x2a, 0xb4, 0x76, 0x83, 0xaa, 0x75, 0x96, 0x42, 0x20},
+    {0xb7, 0xd0, 0x5f, 0x87, 0x5f, 0x14, 0x00, 0x27, 0xef, 0x51, 0x18, 0xa2, 0x24, 0x7b, 0xbb, 0x84, 0xce, 0x8f, 0x2f, 0x0f, 0x11, 0x23, 0x62, 0x30, 0x85, 0xda, 0xf7, 0x96, 0x0c, 0x32, 0x9f, 0x5f},
+    {0xdf, 0x6a, 0xf5, 0xf5, 0xbb, 0xdb, 0x6b, 0xe9, 0xef, 0x8a, 0xa6, 0x18, 0xe4, 0xbf, 0x80, 0x73, 0x96, 0x08, 0x67, 0x17, 0x1e, 0x29, 0x67, 0x6f, 0x8b, 0x28, 0x4d, 0xea, 0x6a, 0x08, 0xa8, 0x5e},
+    {0xb5, 0x8d, 0x90, 0x0f, 0x5e, 0x18, 0x2e, 0x3c, 0x50, 0xef, 0x74, 0x96, 0x9e, 0xa1, 0x6c, 0x77, 0x26, 0xc5, 0x49, 0x75, 0x7c, 0xc2, 0x35, 0x23, 0xc3, 0x69, 0x58, 0x7d, 0xa7, 0x29, 0x37, 0x84},
+    {0xd4, 0x9a, 0x75, 0x02, 0xff, 0xcf, 0xb0, 0x34, 0x0b, 0x1d, 0x78, 0x85, 0x68, 0x85, 0x00, 0xca, 0x30, 0x81, 0x61, 0xa7, 0xf9, 0x6b, 0x62, 0xdf, 0x9d, 0x08, 0x3b, 0x71, 0xfc, 0xc8, 0xf2, 0xbb},
+    {0x8f, 0xe6, 0xb1, 0x68, 0x92, 0x56, 0xc0, 0xd3, 0x85, 0xf4, 0x2f, 0x5b, 0xbe, 0x20, 0x27, 0xa2, 0x2c, 0x19, 0x96, 0xe1, 0x10, 0xba, 0x97, 0xc1, 0x71, 0xd3, 0xe5, 0x94, 0x8d, 0xe9, 0x2b, 0xeb},
+    {0x8d, 0x0d, 0x63, 0xc3, 0x9e, 0xba, 0xde, 0x85, 0x09, 0xe0, 0xae, 0x3c, 0x9c, 0x38, 0x76, 0xfb, 0x5f, 0xa1, 0x12, 0xbe, 0x18, 0xf9, 0x05, 0xec, 0xac, 0xfe, 0xcb, 0x92, 0x05, 0x76, 0x03, 0xab},
+    {0x95, 0xee, 0xc8, 0xb2, 0xe5, 0x41, 0xca, 0xd4, 0xe9, 0x1d, 0xe3, 0x83, 0x85, 0xf2, 0xe0, 0x46, 0x61, 0x9f, 0x54, 0x49, 0x6c, 0x23, 0x82, 0xcb, 0x6c, 0xac, 0xd5, 0xb9, 0x8c, 0x26, 0xf5, 0xa4},
+    {0xf8, 0x93, 0xe9, 0x08, 0x91, 0x77, 0x75, 0xb6, 0x2b, 0xff, 0x23, 0x29, 0x4d, 0xbb, 0xe3, 0xa1, 0xcd, 0x8e, 0x6c, 0xc1, 0xc3, 0x5b, 0x48, 0x01, 0x88, 0x7b, 0x64, 0x6a, 0x6f, 0x81, 0xf1, 0x7f},
+    {0xcd, 0xdb, 0xa7, 0xb5, 0x92, 0xe3, 0x13, 0x33, 0x93, 0xc1, 0x61, 0x94, 0xfa, 0xc7, 0x43, 0x1a, 0xbf, 0x2f, 0x54, 0x85, 0xed, 0x71, 0x1d, 0xb2, 0x82, 0x18, 0x3c, 0x81, 0x9e, 0x08, 0xeb, 0xaa},
+    {0x8a, 0x8d, 0x7f, 0xe3, 0xaf, 0x8c, 0xaa, 0x08, 0x5a, 0x76, 0x39, 0xa8, 0x32, 0x00, 0x14, 0x57, 0xdf, 0xb9, 0x12, 0x8a, 0x80, 0x61, 0x14, 0x2a, 0xd0, 0x33, 0x56, 0x29, 0xff, 0x23, 0xff, 0x9c},
+    {0xfe, 0xb3, 0xc3, 0x37, 0xd7, 0xa5, 0x1a, 0x6f, 0xbf, 0x00, 0xb9, 0xe3, 0x4c, 0x52, 0xe1, 0xc9, 0x19, 0x5c, 0x96, 0x9b, 0xd4, 0xe7, 0xa0, 0xbf, 0xd5, 0x1d, 0x5c, 0x5b, 0xed, 0x9c, 0x11, 0x67},
+    {0xe7, 0x1f, 0x0a, 0xa8, 0x3c, 0xc3, 0x2e, 0xdf, 0xbe, 0xfa, 0x9f, 0x4d, 0x3e, 0x01, 0x74, 0xca, 0x85, 0x18, 0x2e, 0xec, 0x9f, 0x3a, 0x09, 0xf6, 0xa6, 0xc0, 0xdf, 0x63, 0x77, 0xa5, 0x10, 0xd7},
+    {0x31, 0x20, 0x6f, 0xa8, 0x0a, 0x50, 0xbb, 0x6a, 0xbe, 0x29, 0x08, 0x50, 0x58, 0xf1, 0x62, 0x12, 0x21, 0x2a, 0x60, 0xee, 0xc8, 0xf0, 0x49, 0xfe, 0xcb, 0x92, 0xd8, 0xc8, 0xe0, 0xa8, 0x4b, 0xc0},
+    {0x21, 0x35, 0x2b, 0xfe, 0xcb, 0xed, 0xdd, 0xe9, 0x93, 0x83, 0x9f, 0x61, 0x4c, 0x3d, 0xac, 0x0a, 0x3e, 0xe3, 0x75, 0x43, 0xf9, 0xb4, 0x12, 0xb1, 0x61, 0x99, 0xdc, 0x15, 0x8e, 0x23, 0xb5, 0x44},
+    {0x61, 0x9e, 0x31, 0x27, 0x24, 0xbb, 0x6d, 0x7c, 0x31, 0x53, 0xed, 0x9d, 0xe7, 0x91, 0xd7, 0x64, 0xa3, 0x66, 0xb3, 0x89, 0xaf, 0x13, 0xc5, 0x8b, 0xf8, 0xa8, 0xd9, 0x04, 0x81, 0xa4, 0x67, 0x65},
+    {0x7c, 0xdd, 0x29, 0x86, 0x26, 0x82, 0x50, 0x62, 0x8d, 0x0c, 0x10, 0xe3, 0x85, 0xc5, 0x8c, 0x61, 0x91, 0xe6, 0xfb, 0xe0, 0x51, 0x91, 0xbc, 0xc0, 0x4f, 0x13, 0x3f, 0x2c, 0xea, 0x72, 0xc1, 0xc4},
+    {0x84, 0x89, 0x30, 0xbd, 0x7b, 0xa8, 0xca, 0xc5, 0x46, 0x61, 0x07, 0x21, 0x13, 0xfb, 0x27, 0x88, 0x69, 0xe0, 0x7b, 0xb8, 0x58, 0x7f, 0x91, 0x39, 0x29, 0x33, 0x37, 0x4d, 0x01, 0x7b, 0xcb, 0xe1},
+    {0x88, 0x69, 0xff, 0x2c, 0x22, 0xb2, 0x8c, 0xc1, 0x05, 0x10, 0xd9, 0x85, 0x32, 0x92, 0x80, 0x33, 0x28, 0xbe, 0x4f, 0xb0, 0xe8, 0x04, 0x95, 0xe8, 0xbb, 0x8d, 0x27, 0x1f, 0x5b, 0x88, 0x96, 0x36},
+    {0xb5, 0xfe, 0x28, 0xe7, 0x9f, 0x1b, 0x85, 0x0f, 0x86, 0x58, 0x24, 0x6c, 0xe9, 0xb6, 0xa1, 0xe7, 0xb4, 0x9f, 0xc0, 0x6d, 0xb7, 0x14, 0x3e, 0x8f, 0xe0, 0xb4, 0xf2, 0xb0, 0xc5, 0x52, 0x3a, 0x5c}};
+static void cached_zero_hash(int depth, uint8_t* out) {
   if (depth < 0) {
     memset(out, 0, 32);
     return;
   }
-  while (inited_zero_hashed < depth + 1) {
-    if (inited_zero_hashed == 0) {
-      bytes32_t zeros = {0};
-      sha256_merkle(bytes(zeros, 32), bytes(zeros, 32), ZERO_HASHES[inited_zero_hashed]);
-    }
-    else
-      sha256_merkle(bytes(ZERO_HASHES[inited_zero_hashed - 1], 32), bytes(ZERO_HASHES[inited_zero_hashed - 1], 32), ZERO_HASHES[inited_zero_hashed]);
-    inited_zero_hashed++;
-  }
 
   memcpy(out, ZERO_HASHES[depth], 32);
 }
-- 
2.43.0


From d4aa167d6a937cc7e7c75104dc640ae8f621c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:43 +0000
Subject: [PATCH 093/102] fix: the logs cache was read by the worker threads

---
 src/chains/eth/prover/logs_cache.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 7d450cc..3f61445 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -646,7 +646,6 @@ static c4_status_t get_exec_blocknumber(prover_ctx_t* ctx, json_t block, uint64_
  */
 c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out_logs, bool* served_from_cache) {
   if (served_from_cache) *served_from_cache = false;
-  if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
 
   // the blocks are cached by number only
   if (json_get(filter, "blockHash").type == JSON_TYPE_STRING) return C4_SUCCESS;
@@ -661,6 +660,10 @@ c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out
     return C4_SUCCESS;
   }
 
+  // if we are running in the worker-thread, we don't access the global cache anymore
+  if (ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED) return C4_SUCCESS;
+  if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
+
   // check blockrange
   if (!st->resolved) {
     TRY_ASYNC(get_exec_blocknumber(ctx, json_get(filter, "fromBlock"), &st->from_block));
-- 
2.43.0


From fb87860dcce2e12f4d79167d943af2331c3431fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:16 +0000
Subject: [PATCH 094/102] fix: the tx cache was used by the worker threads

---
 src/chains/eth/prover/beacon.c            | 30 +++++++++++++++++++++--
 src/chains/eth/prover/beacon.h            |  5 ++++
 src/chains/eth/prover/proof_receipt.c     |  2 +-
 src/chains/eth/prover/proof_transaction.c |  2 +-
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 393341a..2316272 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -95,6 +95,31 @@ c4_status_t c4_set_latest_block(prover_ctx_t* ctx, uint64_t latest_block_number)
   return C4_SUCCESS;
 }
 
+typedef struct { // position of a transaction
+  uint64_t block_number;
+  uint32_t tx_index;
+} tx_position_t;
+
+bool c4_eth_tx_cache_find(prover_ctx_t* ctx, bytes32_t tx_hash, uint64_t* block_number, uint32_t* tx_index) {
+  bytes32_t key = {0};
+  memcpy(key, "tx_cache", 8);
+  const tx_position_t* found = (const tx_position_t*) c4_prover_cache_get_local(ctx, key);
+  // if we are running in the worker-thread, we don't access the global cache anymore
+  if (!found && !(ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED)) {
+    tx_position_t value = {0};
+    if (c4_eth_tx_cache_get(tx_hash, &value.block_number, &value.tx_index)) {
+      tx_position_t* local = (tx_position_t*) safe_malloc(sizeof(tx_position_t));
+      *local                      = value;
+      c4_prover_cache_set(ctx, key, local, (uint32_t) sizeof(tx_position_t), 0, free);
+      found = local;
+    }
+  }
+  if (!found) return false;
+  *block_number = found->block_number;
+  *tx_index     = found->tx_index;
+  return true;
+}
+
 void c4_beacon_cache_update_blockdata(prover_ctx_t* ctx, beacon_block_t* beacon_block, uint64_t latest_timestamp, bytes32_t block_root) {
   bytes32_t key = {0};
   *key          = 'B';
@@ -136,7 +161,7 @@ void c4_beacon_cache_update_blockdata(prover_ctx_t* ctx, beacon_block_t* beacon_
     // Block prediction is already in the past or now, maybe the buffer wasn't enough
     // or clocks are skewed. Set a very short duration.
     //      log_warn("Predictive TTL calculation resulted in past time for Slatest (Block Ts: %l, Now: %l). Setting minimal TTL.", latest_timestamp, now_unix_ms / 1000);
-    c4_prover_cache_invalidate(key); // invalidate oldkey
+    if (!(ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED)) c4_prover_cache_invalidate(key); // invalidate oldkey (but not in the worker-thread)
     c4_prover_cache_set(ctx, key, bytes_dup(slot_data).data, slot_data.len, duration_ms, free);
   }
   *key = 'S';
@@ -151,7 +176,8 @@ void c4_beacon_cache_update_blockdata(prover_ctx_t* ctx, beacon_block_t* beacon_
   memcpy(key + 1, block_number_data, 8);
   c4_prover_cache_set(ctx, key, bytes_dup(slot_data).data, slot_data.len, ttl, free); // keep it for 1 day
 
-  // cache the transactions in the tx cache.
+  // cache the transactions in the tx cache (but not in the worker-thread, which must not access the global cache).
+  if (ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED) return;
   ssz_ob_t  txs              = ssz_get(&beacon_block->execution, "transactions");
   uint32_t  len              = ssz_len(txs);
   bytes32_t tx_hash          = {0};
diff --git a/src/chains/eth/prover/beacon.h b/src/chains/eth/prover/beacon.h
index 80cbc43..b25abcd 100644
--- a/src/chains/eth/prover/beacon.h
+++ b/src/chains/eth/prover/beacon.h
@@ -80,6 +80,11 @@ c4_status_t c4_send_beacon_json_with_client_type(prover_ctx_t* ctx, char* path,
 c4_status_t c4_send_beacon_ssz_with_client_type(prover_ctx_t* ctx, char* path, char* query, const ssz_def_t* def, uint32_t ttl, ssz_ob_t* result, uint32_t client_type);
 c4_status_t c4_send_internal_request(prover_ctx_t* ctx, char* path, char* query, uint32_t ttl, bytes_t* result);
 #ifdef PROVER_CACHE
+/**
+ * Finds a transaction for a proof request. The result is kept in the context, because the proof function
+ * is executed more than once and the last time maybe in a worker thread, which must not access the cache.
+ */
+bool c4_eth_tx_cache_find(prover_ctx_t* ctx, bytes32_t tx_hash, uint64_t* block_number, uint32_t* tx_index);
 c4_status_t c4_set_latest_block(prover_ctx_t* ctx, uint64_t latest_block_number);
 c4_status_t c4_eth_update_finality(prover_ctx_t* ctx, bytes32_t checkpoint, uint64_t* slot);
 
diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 4c34875..e96015f 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -139,7 +139,7 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   bytes32_t tx_hash          = {0};
 
   hex_to_bytes(txhash.start + 1, txhash.len - 2, bytes(tx_hash, 32));
-  if (c4_eth_tx_cache_get(tx_hash, &block_number_val, &tx_index))
+  if (c4_eth_tx_cache_find(ctx, tx_hash, &block_number_val, &tx_index))
     block_number = json_parse(bprintf(&block_buf, "\"0x%lx\"", block_number_val));
   TRACE_ADD_STR(ctx, "tx_cache_hit", block_number_val ? "hit" : "miss");
 #endif
diff --git a/src/chains/eth/prover/proof_transaction.c b/src/chains/eth/prover/proof_transaction.c
index a5cf595..7a61010 100644
--- a/src/chains/eth/prover/proof_transaction.c
+++ b/src/chains/eth/prover/proof_transaction.c
@@ -89,7 +89,7 @@ c4_status_t c4_proof_transaction(prover_ctx_t* ctx) {
     uint64_t  block_number_val = 0;
     bytes32_t tx_hash          = {0};
     hex_to_bytes(txhash.start + 1, txhash.len - 2, bytes(tx_hash, 32));
-    if (c4_eth_tx_cache_get(tx_hash, &block_number_val, &tx_index))
+    if (c4_eth_tx_cache_find(ctx, tx_hash, &block_number_val, &tx_index))
       block_number = json_parse(bprintf(&block_buf, "\"0x%lx\"", block_number_val));
     TRACE_ADD_STR(ctx, "tx_cache_hit", block_number_val ? "hit" : "miss");
 #endif
-- 
2.43.0


From 6977e40b11a3d5de4e91d85fe695ef6b25f08518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:18 +0000
Subject: [PATCH 095/102] fix: creating a proof from a shared receipt trie
 rewrote its hashes

---
 src/chains/eth/verifier/patricia_trie.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 782c227..8eaba25 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -101,8 +101,12 @@ static void node_update_hash(node_t* node, bool follow_parent, ssz_builder_t* bu
   buffer_t buf = {0};
   serialize_node(node, &buf);
   rlp_to_list(&buf);
+  if (builder) { // creating a proof must not change the node, since the trie may be shared between threads
+    ssz_add_dynamic_list_bytes(builder, 0, buf.data);
+    buffer_free(&buf);
+    return;
+  }
   node->hash_len = buf.data.len;
-  if (builder) ssz_add_dynamic_list_bytes(builder, 0, buf.data);
   if (node->hash_len >= 32 || !node->parent) { // the root is always hashed
     keccak(buf.data, node->hash);
     node->hash_len = 32;
-- 
2.43.0


From 915294f459128874c83382ef8c63da0d693e7b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:06 +0000
Subject: [PATCH 096/102] fix: shift exponent too large for gindexes with 64
 bits

---
 src/util/ssz_merkle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 5288ff3..8bfd91f 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -671,7 +671,7 @@ void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
   if (gindex1 == 0 || gindex2 == 0) return 0;
   uint32_t depth = 0;
-  while (gindex2 >> (depth + 1)) depth++;
+  while (depth < 63 && gindex2 >> (depth + 1)) depth++;
   if (gindex1 >> (63 - depth) > 1) {
     log_error("gindex depth is too large: %d", depth);
     return 0;
-- 
2.43.0


From ce472f0f3fdab91cbe4c847c549cee8115d84716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:02 +0000
Subject: [PATCH 097/102] fix: public keys appearing more than once in a sync
 committee were not aggregated correctly

---
 src/util/crypto.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util/crypto.c b/src/util/crypto.c
index 60af08f..c8d6c67 100644
--- a/src/util/crypto.c
+++ b/src/util/crypto.c
@@ -152,9 +152,8 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
       }
 
       // Aggregate the public key
-      // We use blst_p1_add_or_double_affine which is safe for adding a point to itself.
-      // blst_p1_add_affine would be slightly faster but undefined if points are equal.
-      // Since public keys in the sync committee are unique, blst_p1_add_affine is safe here.
+      // We use blst_p1_add_or_double_affine which is safe for adding a point to itself,
+      // because the members of a sync committee are sampled with replacement and may appear more than once.
       //
       // Note on blst_p1s_add: We intentionally do not use the multi-scalar addition
       // blst_p1s_add despite it using Pippenger's algorithm (approx 60-85% faster).
@@ -165,7 +164,7 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
         first = false;
       }
       else
-        blst_p1_add_affine(&sum, &sum, &pubkey_affine);
+        blst_p1_add_or_double_affine(&sum, &sum, &pubkey_affine);
     }
   }
 
-- 
2.43.0


From f9431d748be99bf992734975c0d0508679b6cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:03 +0000
Subject: [PATCH 098/102] fix: raw transactions followed by other data were
 decoded

---
 src/chains/eth/verifier/eth_tx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index bca7cc2..a7891e3 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -728,6 +728,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   const rlp_type_defs_t* defs_ptr         = get_tx_type_defs(type); // get the specific typedef for the tx type
   if (!defs_ptr) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type");
   if (rlp_decode(&rlp_list_payload, 0, &rlp_list_payload) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: invalid RLP list payload");
+  if (rlp_list_payload.data + rlp_list_payload.len != raw_tx.data + raw_tx.len) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: unexpected data after the transaction");
   int num_fields = rlp_decode(&rlp_list_payload, -1, NULL);
   if (num_fields != defs_ptr->len) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: RLP field count mismatch with definition");
 
-- 
2.43.0


From 0526c612b3ea303064b93b5fd2b82c66a148b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:50 +0000
Subject: [PATCH 099/102] fix: web3_sha3 returned a hash for arguments which
 are not hex data

---
 src/chains/eth/verifier/verify_local.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index d34d974..3f07f19 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -85,8 +85,11 @@ static ssz_ob_t net_version(verify_ctx_t* ctx) {
 }
 
 static ssz_ob_t web3_sha3(verify_ctx_t* ctx) {
-  buffer_t buf = {0};
-  json_as_bytes(json_at(ctx->args, 0), &buf);
+  buffer_t buf     = {0};
+  json_t   data    = json_at(ctx->args, 0);
+  ctx->state.error = (char*) json_validate(data, "bytes", "web3_sha3: ");
+  if (ctx->state.error) return (ssz_ob_t) {0};
+  json_as_bytes(data, &buf);
   buffer_grow(&buf, 32);
   keccak(buf.data, buf.data.data);
   return (ssz_ob_t) {.def = &ssz_bytes32, .bytes = bytes(buf.data.data, 32)};
-- 
2.43.0


From 4a742f5ff8a5debc3f82bf383fe6d567c70a7745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 100/102] fix: report numbers which do not fit instead of
 truncating them in ssz_from_json

eth_verifyLogs takes the logs from the arguments. A transactionIndex of
0x100000003 was cut to 3 and the log was reported as verified.
---
 src/util/ssz_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index b363840..79fe70b 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -284,6 +284,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       buffer_append(&buf.fixed, bytes(NULL, def->def.uint.len));
       if (def->def.uint.len <= 8) {
         uint64_t val = json_as_uint64(json);
+        if (def->def.uint.len < 8 && val >> (def->def.uint.len * 8)) c4_state_add_error(state, "ssz_from_json: number out of range");
         for (int i = 0; i < def->def.uint.len; i++)
           buf.fixed.data.data[i] = (uint8_t) ((val >> (i * 8)) & 0xff);
       }
-- 
2.43.0


From 5df1e4690dc75d0d1b2b6f3b1df190039dc1d558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 101/102] fix: reject transaction indexes outside of the
 transactions list

The gindex of the transaction is calculated by adding the index. With an
index above the limit of the list it points into other parts of the block
body, for example below the graffiti, which the proposer can freely choose,
so a transaction which is not part of the block could be proven.
---
 src/chains/eth/verifier/verify_tx_proof.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index a1fdbe3..0c9243b 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -42,6 +42,7 @@
 #define GINDEX_BLOCHASH      812
 #define GINDEX_BASEFEEPERGAS 811
 #define GINDEX_TXINDEX_G     1704984576L // gindex of the first tx
+#define MAX_TXS_PER_PAYLOAD  1048576    // limit of the transactions list in the execution payload
 
 static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block_hash, bytes_t block_number, bytes_t base_fee_per_gas, bytes_t raw, uint32_t tx_index, bytes32_t body_root) {
   uint8_t   leafes[128] = {0};                                                                                     // 4 leafes, 32 bytes each
@@ -112,6 +113,7 @@ bool verify_tx_proof(verify_ctx_t* ctx) {
   ssz_ob_t body_root        = ssz_get(&header, "bodyRoot");
   ssz_ob_t base_fee_per_gas = ssz_get(&ctx->proof, "baseFeePerGas");
 
+  if (ssz_uint32(tx_index) >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid tx index!"); // the gindex would be outside of the transactions
   if (!verify_args(ctx, raw.bytes, ssz_uint32(tx_index), block_hash.bytes.data)) return false;
   if (!verify_merkle_proof(ctx, tx_proof, block_hash.bytes, block_number.bytes, base_fee_per_gas.bytes, raw.bytes, ssz_uint32(tx_index), body_root.bytes.data)) RETURN_VERIFY_ERROR(ctx, "invalid tx proof!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
-- 
2.43.0


From 8466308a60051da489fa56031aea1ec061807971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:29 +0000
Subject: [PATCH 102/102] fix: report the whole chain id of an authorization

The chain id of an EIP-7702 authorization may have up to 256 bits and was cut
to 32 bits in the returned transaction.
---
 src/chains/eth/ssz/verify_data_types.h | 2 +-
 src/chains/eth/verifier/eth_tx.c       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index 12f5592..ef17030 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -85,7 +85,7 @@ static const ssz_def_t ETH_ACCESS_LIST_DATA_CONTAINER = SSZ_CONTAINER("AccessLis
 // Entry in the authorization list of a transaction or call.
 static const ssz_def_t ETH_AUTHORIZATION_LIST_DATA[] = {
     SSZ_ADDRESS("address"), // the codebase to be used for the authorization
-    SSZ_UINT32("chainId"),  // the chainId of the transaction
+    SSZ_UINT256("chainId"), // the chainId of the transaction
     SSZ_UINT64("nonce"),    // nonce of the transaction
     SSZ_BYTES32("r"),       // the r value of the transaction
     SSZ_BYTES32("s"),       // the s value of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index a7891e3..03b14e8 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -659,13 +659,13 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_bytes(&auth_entry_builder, "address", rlp_item_addr);
 
       // Field 1 in SSZ: chainId (from RLP index 0)
-      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM || rlp_item_chain_id.len > 32) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth chain_id");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
         return (ssz_builder_t) {0};
       }
-      ssz_add_uint32(&auth_entry_builder, (uint32_t) bytes_as_be(rlp_item_chain_id));
+      ssz_add_uint256(&auth_entry_builder, rlp_item_chain_id);
 
       // Field 2 in SSZ: nonce (from RLP index 2)
       if (rlp_decode(&auth_tuple_rlp, 2, &rlp_item_nonce) != RLP_ITEM) {
-- 
2.43.0

