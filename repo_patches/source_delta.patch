From b2f04b3ecd5c02d0c842c4fd974c5c7cdb210778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/52] fix: remove_comments keeps escaped quotes, ends
 comments at any '*/', never joins tokens

A block comment ending in more than one star swallowed the rest of the source, an
escaped quote ended the string it is in (so '//' later in the string was cut), and
a slash before a quote hid the string start.
---
 src/yul2ir/utils.rs | 85 +++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..510045a 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -354,65 +354,58 @@ pub fn merge_sub_wasm_with_length_prefix(wasm_bytes: &[u8]) -> Vec<u8> {
 /// // comment line is replaced with empty line
 /// notice than when in string, the '/' is not a comment
 pub fn remove_comments(code: &str) -> String {
+    // a blank must separate the words that only a removed comment kept apart
+    let is_word_char = |c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '$' | '.');
     let mut result = String::new();
-    let mut chars = code.chars();
-    let mut in_multiline = false;
-    let mut in_string = false;
+    let mut chars = code.chars().peekable();
     let mut string_char = None;
 
     while let Some(c) = chars.next() {
         match c {
+            '\\' if string_char.is_some() => {
+                // an escaped character never ends the string
+                result.push(c);
+                if let Some(escaped) = chars.next() {
+                    result.push(escaped);
+                }
+            }
             '"' | '\'' => {
-                if !in_multiline {
-                    if let Some(sc) = string_char {
-                        if sc == c {
-                            in_string = false;
-                            string_char = None;
-                        }
-                    } else {
-                        in_string = true;
-                        string_char = Some(c);
-                    }
+                if string_char.is_none() {
+                    string_char = Some(c);
+                } else if string_char == Some(c) {
+                    string_char = None;
                 }
                 result.push(c);
             }
-            '/' if !in_string => {
-                if let Some(next) = chars.next() {
-                    match next {
-                        '/' => {
-                            // Skip until end of line and replace with empty line
-                            for c in chars.by_ref() {
-                                if c == '\n' {
-                                    result.push('\n');
-                                    break;
-                                }
-                            }
-                        }
-                        '*' => {
-                            in_multiline = true;
-                            // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
-                                }
-                            }
+            '/' if string_char.is_none() => match chars.peek() {
+                Some('/') => {
+                    // Skip until end of line and replace with empty line
+                    for c in chars.by_ref() {
+                        if c == '\n' {
+                            result.push('\n');
+                            break;
                         }
-                        _ => {
-                            result.push(c);
-                            result.push(next);
+                    }
+                }
+                Some('*') => {
+                    chars.next();
+                    // Skip until matching */
+                    let mut prev = ' ';
+                    for c in chars.by_ref() {
+                        if prev == '*' && c == '/' {
+                            break;
                         }
+                        prev = c;
+                    }
+                    if result.ends_with(is_word_char)
+                        && chars.peek().is_some_and(|c| is_word_char(*c) || *c == '/')
+                    {
+                        result.push(' ');
                     }
-                } else {
-                    result.push(c);
                 }
-            }
-            _ if !in_multiline => {
-                result.push(c);
-            }
-            _ => {}
+                _ => result.push(c),
+            },
+            _ => result.push(c),
         }
     }
 
-- 
2.43.0


From 37bc8ed2b5e1e2ae0674e5ade0e3056b8fe8c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 02/52] fix: string literals denote their written bytes; all
 gaps removed, bad escapes rejected

Only the first gap was removed, gap-like text after an escaped backslash was
eaten, and an escape that cannot be decoded turned the literal into the text
"<Lexer error ...>".
---
 src/yul.lalrpop     | 11 ++++------
 src/yul2ir/utils.rs | 50 ++++++++++++++++++++++++++++++---------------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..9ead14a 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -4,7 +4,7 @@
 
 use crate::yul2ir::ast;
 use crate::yul2ir::utils;
-use regex::Regex;
+use lalrpop_util::ParseError;
 
 grammar;
 
@@ -235,12 +235,9 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
-    s.remove(0);
-    s.pop();
-    utils::unescape_str_wrap_error(s.as_str())
+pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
+    utils::unescape_str(&utils::remove_string_gaps(&s[1..s.len() - 1]))
+        .map_err(|_| ParseError::User { error: "invalid escape in string literal" })
 };
 
 pub SingleLineComment: String = <s:r"//[^\n]*\n"> => String::from(s);
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 510045a..bcf3537 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -268,26 +268,42 @@ fn is_ascii(x: u32) -> bool {
     x <= 0x7F
 }
 
-/// Unescape string wrapping errors
-pub fn unescape_str_wrap_error(s: &str) -> String {
-    if s.contains(&['\\', '\r'][..]) {
-        let mut buf = String::with_capacity(s.len());
-        let mut error = false;
-        unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| {
-            match unescaped_char {
-                Ok(c) => buf.push(c),
-                Err(e) => {
-                    error = true;
-                    buf = format!("<Lexer error: string: {e:?}>");
-                }
-            };
-        });
-        buf
-    } else {
-        s.to_string()
+/// Unescape the content of a string literal (without quotes).
+pub fn unescape_str(s: &str) -> Result<String, EscapeError> {
+    let mut buf = String::with_capacity(s.len());
+    let mut error = None;
+    unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| match unescaped_char {
+        Ok(c) => buf.push(c),
+        Err(e) => error = Some(e),
+    });
+    match error {
+        Some(e) => Err(e),
+        None => Ok(buf),
     }
 }
 
+/// Remove the gaps (backslash, white space, backslash) of a string literal.
+pub fn remove_string_gaps(s: &str) -> String {
+    let mut result = String::with_capacity(s.len());
+    let mut chars = s.chars();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            result.push(c);
+            continue;
+        }
+        match chars.next() {
+            Some(' ' | '\n' | '\t' | '\r' | '\x0c') => {
+                chars.by_ref().find(|c| *c == '\\');
+            }
+            escaped => {
+                result.push(c);
+                result.extend(escaped);
+            }
+        }
+    }
+    result
+}
+
 use std::path::PathBuf;
 
 #[inline]
-- 
2.43.0


From a173f4df3470d13f7195b5e5942032a171da53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 03/52] fix: bytes32 shl, slt and sgt compute the word they
 name

wrapper_bytes32_shl read the last word little-endian in its fast path, and
wrapper_bytes32_slt/sgt compared pointers instead of bytes for operands of the
same sign.
---
 stdlib/chain_math.c | 34 +++++++++-------------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..4e79870 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
@@ -152,27 +152,11 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     return;
   }
   if (shift <= 64) {
-    // when shift <= 32 and value top 3*64 + 32 bits are all 0
-    uint64_t *value_as_u64_array = (uint64_t *)value;
-    uint32_t *value_as_u32_array = (uint32_t *)value;
-    if (shift <= 32 && value_as_u64_array[0] == 0 &&
-        value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
-        value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
-      uint64_t *result_as_u64_array = (uint64_t *)result;
-      result_as_u64_array[0] = 0;
-      result_as_u64_array[1] = 0;
-      result_as_u64_array[2] = 0;
-      result_as_u64_array[3] = last_u64;
-      return;
-    } else {
-      // TODO: optimize this
-      uint256_t value_as_uint256;
-      u256_from_big_endian_bytes((uint8_t *)value, &value_as_uint256);
-      uint256_t result_as_uint256 = value_as_uint256 << shift;
-      u256_to_big_endian_bytes(&result_as_uint256, (uint8_t *)result);
-    }
-
+    // TODO: optimize this
+    uint256_t value_as_uint256;
+    u256_from_big_endian_bytes((uint8_t *)value, &value_as_uint256);
+    uint256_t result_as_uint256 = value_as_uint256 << shift;
+    u256_to_big_endian_bytes(&result_as_uint256, (uint8_t *)result);
     return;
   }
   if (shift >= 256) {
-- 
2.43.0


From 4295f82804f12701b3eb3e99a813e59c7679cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 04/52] fix: signextend of 9 to 32 bytes tests the right sign
 bit

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..78363d4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If b is 31 or greater, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From a876b1c3d6d1dc0a67bf64ba314056cbb455a1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 05/52] fix: int32_to_str formats the smallest int32

---
 stdlib/utils.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/stdlib/utils.c b/stdlib/utils.c
index 936f37c..d3ca10a 100644
--- a/stdlib/utils.c
+++ b/stdlib/utils.c
@@ -8,23 +8,24 @@
 int int32_to_str(int32_t value, char *str_buffer, int buffer_size) {
   int index = 0;
   int is_negative = 0;
+  uint32_t magnitude = (uint32_t)value;
 
   // Handle negative numbers
   if (value < 0) {
     is_negative = 1;
-    value = -value; // Convert to positive for processing
+    magnitude = 0 - magnitude; // Convert to positive for processing
   }
 
   // Special case for zero
-  if (value == 0) {
+  if (magnitude == 0) {
     if (buffer_size > 0) {
       str_buffer[index++] = '0';
     }
   } else {
     // Convert from least significant digit to most significant
-    while (value > 0 && index < buffer_size - 1) {
-      str_buffer[index++] = '0' + (value % 10);
-      value /= 10;
+    while (magnitude > 0 && index < buffer_size - 1) {
+      str_buffer[index++] = '0' + (magnitude % 10);
+      magnitude /= 10;
     }
 
     // Add negative sign if needed
-- 
2.43.0


From 4074fbf73c3f03e715afa4bc696747574471d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:17 +0000
Subject: [PATCH 06/52] fix: growing EVM memory never overlaps static data or
 word slots

The 16 KB start buffer of small contracts grew over the static data behind it,
and word slot pages and EVM memory pages grown alternately overlapped each
other. EVM memory now moves to new pages when it cannot grow in place, slot
pages need not be contiguous, and a failed growth traps.
---
 src/yul2ir/instruction.rs |  5 +----
 stdlib/chain.c            |  5 +++++
 stdlib/evm_memory.c       | 35 +++++++++++++++++++++++++++--------
 stdlib/evm_memory.h       | 12 ++++++++----
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..b284503 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1810,10 +1810,7 @@ impl<'a> Yul2IRContext<'a> {
                 // The first 4 bytes contain the length in big endian format, but we don't skip them
                 let data_offset = global_var_addr;
 
-                let memory_begin = self.build_call(
-                    "evm_get_memory_addr",
-                    &[self.i32_type().const_int(0, false).into()],
-                )?;
+                let memory_begin = self.build_call("evm_get_memory_base", &[])?;
                 let memory_begin = self.builder.borrow_mut().build_ptr_to_int(
                     memory_begin.into_pointer_value(),
                     self.i32_type(),
diff --git a/stdlib/chain.c b/stdlib/chain.c
index 78363d4..95e9776 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -962,6 +962,11 @@ bytes32 *memory_alloca_bytes32() {
     if (after_pages == before_pages) {
       __abort("wasm memory grow failed");
     }
+    // The new pages need not follow the previous extra buffer (EVM memory may
+    // have grown in between), so start over in them
+    extra_memory_alloca_bytes32_memory_begin =
+        (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+    extra_memory_alloca_bytes32_memory_used_size = 0;
     extra_memory_alloca_bytes32_memory_end =
         (uint8_t *)(after_pages * WASM_PAGE_SIZE);
     bytes32 *result = (bytes32 *)(extra_memory_alloca_bytes32_memory_begin +
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index bdafd56..77891b5 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -3,14 +3,18 @@
 
 #include "evm_memory.h"
 #include "debug.h"
+#include "stdlib.h"
 
 static int32_t inited_before = 0; // 1 is true, 0 is false
 
 // EVM memory start address,
-// Once set, it remains unchanged. This is possible because after the WASM
-// instance starts (before optimization), the newly grown memory area is treated
-// as EVM memory, preventing conflicts with the LLVM constant pool.
+// It changes only when the EVM memory has to grow and the memory behind it is
+// in use already (static data, extra bytes32 buffers): then the content moves
+// to newly grown pages.
 static uint8_t *evm_memory_begin = 0;
+// The first EVM memory start address. Once set, it remains unchanged: negative
+// offsets (constant data, see dataoffset) stay relative to it.
+static uint8_t *evm_memory_base = 0;
 static uint8_t *evm_memory_end = 0;
 static uint32_t evm_memory_size = 0; // accessible memory range
 static uint32_t evm_memory_full_size = 0;
@@ -20,7 +24,6 @@ static uint32_t evm_memory_full_size = 0;
 // Another approach is to use static allocation(current choice)
 // Allocate a data segment and point to it, allowing space without needing to
 // grow; in most cases, 16384 (16k) is sufficient.
-// TODO: Implement memory relocation and growth when exceeding limits
 #define EVM_MEMORY_MAX_SIZE 16384 // 16KB
 static uint8_t evm_memory_init_buffer[EVM_MEMORY_MAX_SIZE] = {0};
 
@@ -54,20 +57,31 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool) {
     evm_memory_full_size = EVM_MEMORY_MAX_SIZE;
   }
 
+  evm_memory_base = evm_memory_begin;
   inited_before = 1;
 }
 
 uint8_t *evm_make_sure_memory(uint32_t size) {
   if (evm_memory_full_size < size) {
-    uint32_t target_evm_pages = (size + WASM_PAGE_SIZE - 1) / WASM_PAGE_SIZE;
-    uint32_t grow_pages =
-        target_evm_pages - evm_memory_full_size / WASM_PAGE_SIZE;
+    uint32_t target_evm_pages =
+        size / WASM_PAGE_SIZE + (size % WASM_PAGE_SIZE != 0);
+    uint32_t before_pages = __builtin_wasm_memory_size(0);
+    uint32_t grow_pages = target_evm_pages;
+    uint8_t *new_pages_begin = (uint8_t *)(before_pages * WASM_PAGE_SIZE);
+    int32_t in_place = evm_memory_end == new_pages_begin;
+    if (in_place) {
+      grow_pages -= evm_memory_full_size / WASM_PAGE_SIZE;
+    }
     if (__builtin_wasm_memory_grow(0, grow_pages) == -1) {
       __abort("__malloc: failed");
     };
-    evm_memory_end += (grow_pages * WASM_PAGE_SIZE);
+    if (!in_place) {
+      memcpy(new_pages_begin, evm_memory_begin, evm_memory_full_size);
+      evm_memory_begin = new_pages_begin;
+    }
     evm_memory_size = size;
     evm_memory_full_size = target_evm_pages * WASM_PAGE_SIZE;
+    evm_memory_end = evm_memory_begin + evm_memory_full_size;
     return evm_memory_begin;
   }
   if (evm_memory_size < size) {
@@ -79,9 +93,14 @@ uint8_t *evm_make_sure_memory(uint32_t size) {
 }
 
 uint8_t *evm_get_memory_addr(int32_t offset) {
+  if (offset < 0) {
+    return evm_memory_base + offset;
+  }
   return evm_memory_begin + offset;
 }
 
+uint8_t *evm_get_memory_base() { return evm_memory_base; }
+
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
   return ptr >= evm_memory_begin && size <= evm_memory_size;
 }
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..ff9c428 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -8,21 +8,25 @@
 #define WASM_PAGE_SIZE (65536)
 
 // TODO: use revert with not malloc for abort
-#define __abort(x) __builtin_unreachable()
+#define __abort(x) __builtin_trap()
 
 void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 
 // Ensures there is memory space of specified size available for EVM use
 // Memory beyond the specified size requires additional checks to prevent access
 // Returns the starting address of the EVM memory region
-// The starting address of the EVM memory region remains unchanged after
-// modifications
+// The starting address of the EVM memory region may change when the region has
+// to grow, so get addresses after growing
 uint8_t *evm_make_sure_memory(uint32_t size);
 
 // Returns the memory address at the given offset
-// If offset < 0, copies data from non-EVM memory region
+// If offset < 0, the address is in a non-EVM memory region (constant data), at
+// that distance from where the EVM memory region started initially
 uint8_t *evm_get_memory_addr(int32_t offset);
 
+// Returns the address that negative offsets are relative to
+uint8_t *evm_get_memory_base();
+
 // Checks if ptr is within the accessible memory range of EVM
 // Returns 1(true) if accessible, 0(false) otherwise
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size);
-- 
2.43.0


From 131792eddc04e8445280a6a23745f73d0f1ebf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 07/52] fix: every EVM memory access grows memory first and
 stays inside it

mload, mcopy's source, keccak256, return, revert, logs, call and create inputs
read whatever lay behind the grown memory; mcopy corrupted overlapping areas
when copying upwards; mstore8 at the end grew 32 bytes; an offset that wraps
around wrote in front of the memory.
---
 stdlib/chain.c | 96 +++++++++++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 41 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 95e9776..56ea430 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -67,6 +67,20 @@ static void u64_to_big_endian(const uint64_t value, uint8_t *memory_ptr) {
   }
 }
 
+// The address of [offset, offset + size) in EVM memory, growing it as needed.
+// Traps if there is no such range.
+static uint8_t *evm_memory_range(int32_t offset, uint32_t size) {
+  if (size == 0) {
+    return evm_get_memory_addr(0);
+  }
+  uint32_t end = (uint32_t)offset + size;
+  if (offset < 0 || end < size) {
+    __abort("EVM memory range out of bounds");
+  }
+  evm_make_sure_memory(end);
+  return evm_get_memory_addr(offset);
+}
+
 static int32_t cachedCallDataSize() {
   static int32_t cached = -1;
   if (cached < 0) {
@@ -229,15 +243,14 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_memory_range(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
 void wrapper_stop() { finish(0, 0); }
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
-  evm_make_sure_memory(target_evm_mem_offset + size);
-  uint8_t *target_mem_ptr = evm_get_memory_addr(target_evm_mem_offset);
+  uint8_t *target_mem_ptr = evm_memory_range(target_evm_mem_offset, size);
   // For Yul, codecopy is sometimes used to copy actual calldata during contract
   // deployment (since in EVM, when deploying a contract, the contract bytecode
   // is init_code + calldata) However, this is different from WASM design. In
@@ -287,15 +300,13 @@ uint32_t wrapper_memory_guard(uint32_t size) {
 }
 
 void wrapper_mstore_bytes32(int32_t evm_mem, bytes32 *value_ptr) {
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   memcpy(memory_ptr, value_ptr, 32);
 }
 void wrapper_mstore_u256(int32_t evm_mem, uint256_t *value_ptr) {
   uint256_t value = *value_ptr;
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   u256_to_big_endian(value, memory_ptr);
 }
 void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {
@@ -303,8 +314,7 @@ void wrapper_mstore_u32(int32_t evm_mem, uint32_t value) {
   // Although it writes 32 bytes, the first 28 bytes can be directly set to 0
 
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
 
   // mstore(64, value) in Solidity reads/writes memptr value, not using the
   // front part
@@ -330,8 +340,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
   // Although it writes 32 bytes, the first 24 bytes can be directly set to 0
 
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
 
   // Write 0 to first 24 bytes (3 i64)
   uint64_t *memory_ptr_u64 = (uint64_t *)memory_ptr;
@@ -349,18 +358,17 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
 
 void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 1);
   *memory_ptr = value & 0xff;
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -370,7 +378,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -380,16 +388,23 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
-  memcpy(dst_memory, src_memory, size);
+  evm_memory_range(evm_src, size);
+  uint8_t *dst_memory = evm_memory_range(evm_dst, size);
+  uint8_t *src_memory = evm_memory_range(evm_src, size);
+  if (dst_memory <= src_memory) {
+    memcpy(dst_memory, src_memory, size);
+    return;
+  }
+  // The areas may overlap: copy from the end
+  while (size--) {
+    dst_memory[size] = src_memory[size];
+  }
 }
 
 void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
@@ -493,12 +508,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -508,14 +523,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -526,7 +541,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -539,7 +554,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -555,7 +570,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_memory_range(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -574,7 +589,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_memory_range(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -602,7 +617,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_memory_range(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -687,7 +702,8 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_memory_range(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -704,7 +720,8 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_memory_range(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -719,7 +736,8 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  evm_memory_range(out_evm_offset, out_length);
+  uint8_t *in_offset = evm_memory_range(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
@@ -799,8 +817,7 @@ uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
 
 void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
                            uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_memory_range(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
   uint32_t calldata_size = cachedCallDataSize();
@@ -817,8 +834,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                              uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_memory_range(dst_evm, len);
 
   returnDataCopy((ADDRESS_UINT)dst_memory_ptr, (uint32_t)return_data_offset,
                  len);
@@ -852,8 +868,7 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_memory_range(dst_evm, len);
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -877,8 +892,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_memory_range(dst_evm, len);
   uint8_t *src = evm_get_memory_addr(src_evm);
   memcpy(dst, src, len);
 }
-- 
2.43.0


From 54a635080838ada9d66d68f7bac0179c0247a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 08/52] fix: calldata reads past its end give zeros

An offset beyond the calldata made calldataload copy a wrapped-around length,
and calldatacopy's bounds check overflowed for large lengths.
---
 stdlib/chain.c | 47 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 56ea430..7c95115 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -106,34 +106,32 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
   }
   memcpy((void *)memory_ptr, cached_calldata + offset, size);
 }
-void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
+// How many of the `len` bytes at `offset` exist in the calldata
+static uint32_t calldata_available(uint32_t offset, uint32_t len) {
   uint32_t calldata_size = cachedCallDataSize();
+  if (offset >= calldata_size) {
+    return 0;
+  }
+  uint32_t rest = calldata_size - offset;
+  return rest < len ? rest : len;
+}
+void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
+  // If calldata is insufficient, read remaining part to the front of data
+  // array The rest is already padded with zeros
+  uint32_t read_count = calldata_available(calldata_offset, 32);
+  if (read_count != 0) {
     cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, read_count);
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)&data, calldata_offset, 32);
   }
   u256_from_big_endian_bytes(data, result);
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
-    // If calldata is insufficient, read remaining part to the front of data
-    // array The rest is already padded with zeros
-    uint32_t read_count = calldata_size - calldata_offset;
+  uint32_t read_count = calldata_available(calldata_offset, 32);
+  if (read_count != 0) {
     cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, read_count);
-    // Pad remaining bytes with zeros
-    uint8_t *result_bytes_ptr = (uint8_t *)result;
-    for (int i = read_count; i < 32; i++) {
-      result_bytes_ptr[i] = 0;
-    }
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)result, calldata_offset, 32);
   }
+  // Pad remaining bytes with zeros
+  __memset((uint8_t *)result + read_count, 0, 32 - read_count);
 }
 
 // Optimized function to load just the function selector (first 4 bytes) from
@@ -820,16 +818,11 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
   uint8_t *dst_memory_ptr = evm_memory_range(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
-  uint32_t calldata_size = cachedCallDataSize();
-  if (calldata_offset >= calldata_size) {
-    __memset(dst_memory_ptr, 0, len);
-  } else if (calldata_offset + len > calldata_size) {
-    uint32_t data_len = calldata_size - calldata_offset;
+  uint32_t data_len = calldata_available(calldata_offset, len);
+  if (data_len != 0) {
     cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, data_len);
-    __memset(dst_memory_ptr + data_len, 0, len - data_len);
-  } else {
-    cachedCallDataCopy((ADDRESS_UINT)dst_memory_ptr, calldata_offset, len);
   }
+  __memset(dst_memory_ptr + data_len, 0, len - data_len);
 }
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
-- 
2.43.0


From b702d3f000fb59b21cc9b59315b13506b1197965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 09/52] fix: prevrandao returns the host's 32 bytes

It wrote 32 bytes at offset 12 of the 32-byte result.
---
 stdlib/chain.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 7c95115..9286380 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -203,8 +203,7 @@ void wrapper_block_coin_base(bytes32 *result) {
 }
 
 void wrapper_block_prevRandao(bytes32 *result) {
-  getBlockPrevRandao(12 + (ADDRESS_UINT)result); // 32 bytes
-  clear_first_12_bytes(result);
+  getBlockPrevRandao((ADDRESS_UINT)result); // 32 bytes
 }
 
 void wrapper_callvalue(uint256_t *result) {
-- 
2.43.0


From 551593c24a5c5eee5b6ac4f702e55c491396fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:09 +0000
Subject: [PATCH 10/52] fix: create and create2 clear the upper 12 bytes of the
 address word

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 9286380..d6f5764 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -604,6 +604,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create contract failed", 22);
@@ -635,6 +636,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create2 contract failed", 23);
-- 
2.43.0


From 162c6f443b4001313eb799836fd35f966f8c091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 11/52] fix: codecopy reads up to the last code byte and pads
 with zeros

A copy ending at the end of the code, spanning code and constructor arguments
or reaching past them was undefined; outside deployment bytes after the code
came from the calldata.
---
 stdlib/chain.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index d6f5764..ca4ebd2 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -265,25 +265,27 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
     return;
   }
 
-  int32_t cur_code_size = getCodeSize();
-
-  if ((evm_memory_offset + size) < cur_code_size) {
-    // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
-  }
-  // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
+  // The code that can be copied is the WASM contract bytecode, when deploying
+  // followed by the actual calldata (input parameter is wasm code size +
+  // calldata_offset), then zeros
+  uint32_t offset = (uint32_t)evm_memory_offset;
+  uint32_t cur_code_size = (uint32_t)getCodeSize();
+  uint32_t copied = 0;
+  if (offset < cur_code_size && size != 0) {
+    uint32_t rest = cur_code_size - offset;
+    copied = rest < size ? rest : size;
+    codeCopy((ADDRESS_UINT)target_mem_ptr, offset, copied);
   }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
+  if (copied < size && is_deploying_tx()) {
+    uint32_t calldata_offset = offset + copied - cur_code_size;
+    uint32_t len = calldata_available(calldata_offset, size - copied);
+    if (len != 0) {
+      cachedCallDataCopy((ADDRESS_UINT)(target_mem_ptr + copied),
+                         calldata_offset, len);
+    }
+    copied += len;
   }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  __memset(target_mem_ptr + copied, 0, size - copied);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From 35fbf0f88fe50db1e5542c2bebd2ba86bdeca61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 12/52] fix: the ERC-20 transfer shortcut masks addresses like
 the Yul code it replaces

---
 stdlib/chain.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ca4ebd2..0c9d5f1 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1082,6 +1082,15 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
   //     _3)
   // }
+  // and(address, sub(shl(160, 1), 1))
+  bytes32 masked_from;
+  bytes32 masked_to;
+  memcpy(&masked_from, from, 32);
+  memcpy(&masked_to, to, 32);
+  clear_first_12_bytes(&masked_from);
+  clear_first_12_bytes(&masked_to);
+  from = &masked_from;
+  to = &masked_to;
   if (is_zero_address(((uint8_t *)from) + 12)) {
     // shl(225, 0x4b637e8f) ==
     // 0x96c6fd1e00000000000000000000000000000000000000000000000000000000
-- 
2.43.0


From d1d5d79af76e94a6ab80c088a0e1a1a1382cf5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 13/52] fix: msize returns the accessed memory size in bytes,
 not wasm pages

---
 stdlib/chain.c      | 3 ++-
 stdlib/evm_memory.c | 2 ++
 stdlib/evm_memory.h | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 0c9d5f1..c54198a 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -797,7 +797,8 @@ void wrapper_exp(uint256_t *base_ptr, uint256_t *exp_ptr, uint256_t *result) {
 }
 
 uint64_t wrapper_memory_size() {
-  return (uint64_t)__builtin_wasm_memory_size(0);
+  // the accessed EVM memory in bytes, a multiple of 32
+  return ((uint64_t)evm_accessed_memory_size() + 31) / 32 * 32;
 }
 
 uint64_t wrapper_gas() { return (uint64_t)getGasLeft(); }
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index 77891b5..b644adb 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -99,6 +99,8 @@ uint8_t *evm_get_memory_addr(int32_t offset) {
   return evm_memory_begin + offset;
 }
 
+uint32_t evm_accessed_memory_size() { return evm_memory_size; }
+
 uint8_t *evm_get_memory_base() { return evm_memory_base; }
 
 int32_t is_available_evm_memory(uint8_t *ptr, uint32_t size) {
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index ff9c428..1ead0e7 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -24,6 +24,9 @@ uint8_t *evm_make_sure_memory(uint32_t size);
 // that distance from where the EVM memory region started initially
 uint8_t *evm_get_memory_addr(int32_t offset);
 
+// Returns the highest end of a range passed to evm_make_sure_memory
+uint32_t evm_accessed_memory_size();
+
 // Returns the address that negative offsets are relative to
 uint8_t *evm_get_memory_base();
 
-- 
2.43.0


From e93598f6909a0510f312904f18e5f7d4ab85b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:52 +0000
Subject: [PATCH 14/52] fix: shift amounts and byte indexes of any width give
 the EVM result

---
 src/yul2ir/context.rs     | 24 +++++++++++++++++
 src/yul2ir/instruction.rs | 55 ++++++++++++++++++++++++---------------
 2 files changed, 58 insertions(+), 21 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..1c0e084 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -925,6 +925,30 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Narrow an unsigned value to i32, with everything above `max` becoming `max`
+    pub fn saturate_to_i32(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+        max: u32,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        let mut value = self.try_into_int(value)?;
+        if value.get_type().get_bit_width() < 32 {
+            value = self.int_as_i32(value)?;
+        }
+        let limit = value.get_type().const_int(max as u64, false);
+        let above =
+            self.builder
+                .borrow_mut()
+                .build_int_compare(IntPredicate::UGT, value, limit, "")?;
+        let narrow = self.int_as_i32(value)?;
+        let limit = self.i32_type().const_int(max as u64, false);
+        let result = self
+            .builder
+            .borrow_mut()
+            .build_select(above, limit, narrow, "")?;
+        Ok(result.into_int_value())
+    }
+
     pub fn try_into_u256(
         &self,
         value: &BasicValueEnum<'ctx>,
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index b284503..9a4c413 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -689,8 +689,8 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                // any byte index of 31 or more keeps the whole word
+                let b = self.saturate_to_i32(args.first().unwrap(), 31)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1125,8 +1125,19 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                // any index of 32 or more selects no byte, so it becomes 32
+                let nth_byte_i32 = self.saturate_to_i32(args.first().unwrap(), 32)?;
+                let in_word = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::ULT,
+                    nth_byte_i32,
+                    self.i32_type().const_int(32, false),
+                    "",
+                )?;
+                let nth_byte_i32 = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(in_word, nth_byte_i32, self.i32_type().const_zero(), "")?
+                    .into_int_value();
                 let value = self.try_into_int(args.get(1).unwrap())?;
                 let value = self.int_as_u256(value)?;
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
@@ -1147,15 +1158,17 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
-                    .into();
+                let result = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    in_word,
+                    result,
+                    self.u256_type().const_zero(),
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::U256,
                     value: result,
@@ -1170,7 +1183,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.saturate_to_i32(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1186,7 +1199,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.saturate_to_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1203,10 +1216,10 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Sar => {
                 // Signed Arithmetic Right Shift
                 check_args_count(&instr, &args, 2)?;
-                let (arg0, arg1) = self.unify_to_u256(
-                    self.try_into_int(args.first().unwrap())?,
-                    self.try_into_int(args.get(1).unwrap())?,
-                )?;
+                // an llvm shift by 256 or more is undefined, in the EVM only the sign remains
+                let shift = self.saturate_to_i32(args.first().unwrap(), 255)?;
+                let (arg0, arg1) =
+                    self.unify_to_u256(shift, self.try_into_int(args.get(1).unwrap())?)?;
                 let result = self
                     .builder
                     .borrow_mut()
@@ -1231,7 +1244,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.saturate_to_i32(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1244,7 +1257,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.saturate_to_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From 0cd0bd7d2ef858b93e9853b35d6c005f23c69ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 15/52] fix: division and modulus by zero or minus one give the
 EVM result

---
 src/yul2ir/instruction.rs | 102 +++++++++++++++++++++++++++++++++-----
 1 file changed, 89 insertions(+), 13 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 9a4c413..4741d4c 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ethereum_types::U256;
 use inkwell::types::StringRadix;
-use inkwell::values::{BasicValue, BasicValueEnum, PointerValue};
+use inkwell::values::{BasicValue, BasicValueEnum, IntValue, PointerValue};
 use inkwell::IntPredicate;
 
 use super::yul_instruction::{YulLowLevelValue, YulLowLevelValueType};
@@ -507,6 +507,34 @@ impl<'a> Yul2IRContext<'a> {
         (None, None)
     }
 
+    /// The divisor with 1 in place of 0 (and of -1 if signed), for which an llvm division is undefined
+    fn safe_divisor(
+        &self,
+        divisor: IntValue<'a>,
+        signed: bool,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let ty = divisor.get_type();
+        let mut undefined = vec![ty.const_zero()];
+        if signed {
+            undefined.push(ty.const_all_ones());
+        }
+        let mut result = divisor;
+        for value in undefined {
+            let hit = self.builder.borrow_mut().build_int_compare(
+                IntPredicate::EQ,
+                divisor,
+                value,
+                "",
+            )?;
+            result = self
+                .builder
+                .borrow_mut()
+                .build_select(hit, ty.const_int(1, false), result, "")?
+                .into_int_value();
+        }
+        Ok(result)
+    }
+
     fn walk_args(
         &self,
         yul_func_name: &str,
@@ -711,13 +739,27 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let divisor = self.safe_divisor(arg1, false)?;
+                let quotient = self.builder.borrow_mut().build_int_unsigned_div(
+                    arg0,
+                    divisor,
+                    "div_result",
+                )?;
+                let is_zero = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    arg1,
+                    arg1.get_type().const_zero(),
+                    "",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    is_zero,
+                    arg1.get_type().const_zero(),
+                    quotient,
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
+                    value: result,
                 })
             }
             YulInstructionName::SDiv => {
@@ -727,13 +769,43 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                let divisor = self.safe_divisor(arg1, true)?;
+                let quotient =
+                    self.builder
+                        .borrow_mut()
+                        .build_int_signed_div(arg0, divisor, "sdiv_result")?;
+                // x / -1 is -x, also for the smallest x
+                let is_minus_one = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    arg1,
+                    arg1.get_type().const_all_ones(),
+                    "",
+                )?;
+                let negated = self.builder.borrow_mut().build_int_sub(
+                    arg0.get_type().const_zero(),
+                    arg0,
+                    "",
+                )?;
+                let quotient = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(is_minus_one, negated, quotient, "")?
+                    .into_int_value();
+                let is_zero = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    arg1,
+                    arg1.get_type().const_zero(),
+                    "",
+                )?;
+                let result = self.builder.borrow_mut().build_select(
+                    is_zero,
+                    arg1.get_type().const_zero(),
+                    quotient,
+                    "",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
+                    value: result,
                 })
             }
             YulInstructionName::Mod => {
@@ -743,12 +815,14 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                // x mod 1 is 0, the EVM result for a divisor of 0
+                let divisor = self.safe_divisor(arg1, false)?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
                     value: self
                         .builder
                         .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
+                        .build_int_unsigned_rem(arg0, divisor, "mod_result")?
                         .into(),
                 })
             }
@@ -759,12 +833,14 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
+                // x mod 1 is 0, the EVM result for a divisor of 0 or -1
+                let divisor = self.safe_divisor(arg1, true)?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
                     value: self
                         .builder
                         .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
+                        .build_int_signed_rem(arg0, divisor, "smod_result")?
                         .into(),
                 })
             }
-- 
2.43.0


From 5431b96567ff4cb6d8624ec25f5fa6a8bfe15d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 16/52] fix: slt and sgt compare all operands as 256-bit signed
 words

---
 src/yul2ir/instruction.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 4741d4c..b97dc0c 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,10 +291,16 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
+                            // the result is negative for a call data size below 4
+                            let result = self
+                                .builder
+                                .borrow_mut()
+                                .build_int_s_extend(result.into_int_value(), self.u256_type(), "")
+                                .unwrap();
                             return (
                                 Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
+                                    value_type: YulLowLevelValueType::U256,
+                                    value: result.into(),
                                 }),
                                 None,
                             );
@@ -992,7 +998,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -1027,7 +1033,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
-- 
2.43.0


From d0608fa4718ea5c7e0667b5463dd08e4afa2f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 17/52] fix: switch compares whole words, rejects duplicate
 cases and reports errors in case bodies

---
 src/yul2ir/transform.rs | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..f437cef 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,19 +93,10 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // Cases are compared over the whole word, so the condition and every case value are u256
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
-        let cond_value_ty = cond_value.get_type();
-
-        // Determine the expected type for case values based on the condition value type
-        let expected_type = self.type_to_expected(cond_value_ty.as_basic_type_enum());
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::U256)?;
+        let cond_value = self.try_into_u256(&cond_value.get_value())?;
 
         let end_block = self
             .llvm_context
@@ -118,19 +109,18 @@ impl<'a> Yul2IRContext<'a> {
                     let case_int = match &case.case {
                         ast::Literal::HexNumberLiteral(hex, _) => self.hex_literal(&hex.hex),
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
-                            self.dec_literal(&dec.dec, expected_type)
+                            self.dec_literal(&dec.dec, ExpectedType::U256)
                         }
                         ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
-                    let case_int =
-                        self.try_cast(case_int.into(), cond_value_ty.as_basic_type_enum())?;
-                    let case_int = if case_int.is_int_value() {
-                        case_int.into_int_value()
-                    } else {
-                        self.try_into_u256(&case_int)?
-                    };
+                    let case_int = self.int_as_u256(case_int)?;
+                    if jump_tbl.contains_key(&case_int) {
+                        return Err(ASTLoweringError::BuilderError(
+                            "duplicate case value in switch".to_string(),
+                        ));
+                    }
 
                     let case_block = self
                         .llvm_context
@@ -148,7 +138,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
                         .build_unconditional_branch(end_block);
@@ -156,19 +146,14 @@ impl<'a> Yul2IRContext<'a> {
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
             }
             ast::SwitchOptions::Default(default) => {
-                let mut jump_tbl: IndexMap<u32, u32> = IndexMap::default();
-                let otherwise_block = self
-                    .llvm_context
-                    .append_basic_block(cur_func_value, "switch_otherwise");
-                self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
-- 
2.43.0


From 5f75dde24174865c32e83a89f078e80d855bc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 18/52] fix: return variables and variables without an
 initializer start at zero

---
 src/yul2ir/transform.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index f437cef..2a96ed4 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -588,6 +588,9 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // A variable without initializer starts at zero
+            self.build_store(llvm_var, ty.const_zero())?;
         }
         self.ok_result()
     }
@@ -1779,7 +1782,14 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // Return variables start at zero
+            let ret_var_content_ty =
+                if ret_var_low_level_value_type == YulLowLevelValueType::Bytes32 {
+                    self.bytes32_type().as_basic_type_enum()
+                } else {
+                    ret_ty
+                };
+            self.build_store(ret_var_pointer, ret_var_content_ty.const_zero())?;
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From 7029729237cdda9b4bd50cee922f2d5921a1e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 19/52] fix: the body of an if is a scope of its own

---
 src/yul2ir/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 2a96ed4..ef71838 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -283,6 +283,7 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        let _body_scope_guard = ScopeGuard::new(self);
         for stmt in &r#if.body.statements {
             self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
-- 
2.43.0


From b3f7da368d99510af8914599985c69a5d217d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 20/52] fix: every variable and parameter holds its own 256-bit
 word

---
 src/yul2ir/transform.rs | 115 +++++++++-------------------------------
 1 file changed, 25 insertions(+), 90 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ef71838..191a2a1 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -499,100 +499,28 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
-        // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            let var_low_level_value_type = YulLowLevelValueType::Bytes32Pointer;
-            let ty = self.bytes32_pointer_type().as_basic_type_enum();
-            let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
-            self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
-            self.build_store(llvm_var, init_val_low_level.unwrap().value)?;
-            return self.ok_result();
-        }
-
-        // TODO: Simplify the following code
-
-        // if init_val is bytes32 pointer, convert to bytes32 to store in variable pointer
-        let init_val = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // is bytes32 pointer
-
-            // now load bytes32 pointer target is to copy data to variable pointer
-            // TODO: (alloca bytes32*) in stack to store bytes32 pointer
-            let init_val_content = self.build_load(
-                self.bytes32_type(),
-                init_val_low_level.unwrap().get_value().into_pointer_value(),
-                "",
-            )?;
-            Some(init_val_content)
-        } else if init_val_low_level.is_some() {
-            Some(init_val_low_level.unwrap().get_value())
-        } else {
-            None
-        };
-
-        let ty = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            self.bytes32_type().as_basic_type_enum()
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().get_value().get_type()
-        } else {
-            self.default_primitive_type()
-        };
-
-        // if not specified type, infer type from init value
-        // let ty: BasicTypeEnum<'a> = if var_decl.identifiers[0].type_name.is_some() {
-        //     ty
-        // } else if init_val.is_some() {
-        //     let res = {
-        //         let this = &self;
-        //         let value: &BasicValueEnum<'a> = &init_val.unwrap();
-        //         self.is_bytes32_value(value)
-        //     };
-        //     if res {
-        //         self.bytes32_type().into()
-        //     } else {
-        //         init_val.unwrap().into_int_value().get_type().into()
-        //     }
-        // } else {
-        //     self.default_primitive_type()
-        // };
-
-        let var_low_level_value_type = if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            YulLowLevelValueType::Bytes32
-        } else if init_val_low_level.is_some() {
-            init_val_low_level.unwrap().value_type
-        } else {
-            self.default_primitive_type_low_level()
+        // Every variable holds a whole word of its own, whatever the width of its initializer:
+        // later assignments may need all 256 bits, and must not change the initializer's source.
+        let init_val = init_val_low_level.map(|init_val| init_val.get_value());
+        let (ty, var_low_level_value_type) = match init_val {
+            Some(init_val) if !init_val.is_int_value() => (
+                self.bytes32_type().as_basic_type_enum(),
+                YulLowLevelValueType::Bytes32,
+            ),
+            _ => (
+                self.default_primitive_type(),
+                self.default_primitive_type_low_level(),
+            ),
         };
 
         let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
         self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
 
-        if init_val_low_level.is_some()
-            && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
-        {
-            // bytes32 pointer allocated in memory now, load content of pointer to variable
-            // init_val bytes32 loaded yet
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val.unwrap())
-                .unwrap();
-        } else if let Some(init_val) = init_val {
-            let init_val = self.try_cast(init_val, ty)?;
-            self.builder
-                .borrow_mut()
-                .build_store(llvm_var, init_val)
-                .unwrap();
-        } else {
-            // A variable without initializer starts at zero
-            self.build_store(llvm_var, ty.const_zero())?;
-        }
+        let init_val = match init_val {
+            Some(init_val) => self.try_cast(init_val, ty)?,
+            None => ty.const_zero(),
+        };
+        self.build_store(llvm_var, init_val)?;
         self.ok_result()
     }
 
@@ -1748,7 +1676,14 @@ impl<'a> Yul2IRContext<'a> {
         for (i, param) in function.params.iter().enumerate() {
             let param_name = &param.identifier.name.clone();
             let param_ty = infered_yul_func_ty.params_inkwell_type[i];
-            let param_low_level_value_type = infered_yul_func_ty.params[i];
+            let (param_ty, param_low_level_value_type) = match infered_yul_func_ty.params[i] {
+                // The parameter is a variable of its own, not a reference to the caller's word
+                YulLowLevelValueType::Bytes32Pointer => (
+                    self.bytes32_type().as_basic_type_enum(),
+                    YulLowLevelValueType::Bytes32,
+                ),
+                low_level_value_type => (param_ty, low_level_value_type),
+            };
             let param_var_pointer = self.fast_alloca(param_ty, param_name)?;
             // Store the parameter value in this variable
             let param_value = func_value.get_nth_param(i as u32).unwrap();
-- 
2.43.0


From de3d7c3316d7a5e736f64336709dc300f3b60388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:02 +0000
Subject: [PATCH 21/52] fix: stack slots are taken once per function call, not
 on every loop iteration

---
 src/yul2ir/context.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 1c0e084..349b815 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1311,10 +1311,24 @@ impl<'ctx> Yul2IRContext<'ctx> {
         ty: T,
         name: &str,
     ) -> Result<PointerValue<'ctx>, ASTLoweringError> {
-        self.builder
-            .borrow_mut()
-            .build_alloca(ty, name)
-            .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
+        // An alloca takes new stack space each time it is executed, so it belongs in the entry
+        // block: elsewhere, a loop would use up the stack
+        let builder = self.builder.borrow_mut();
+        let current_block = builder.get_insert_block();
+        let entry_block = current_block
+            .and_then(|block| block.get_parent())
+            .and_then(|func| func.get_first_basic_block());
+        if let Some(entry_block) = entry_block {
+            match entry_block.get_first_instruction() {
+                Some(instruction) => builder.position_before(&instruction),
+                None => builder.position_at_end(entry_block),
+            }
+        }
+        let result = builder.build_alloca(ty, name);
+        if let Some(current_block) = current_block {
+            builder.position_at_end(current_block);
+        }
+        result.map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From bbcb0c6aa0d7f5dd9982061bbb3867846409864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 22/52] fix: arguments are evaluated right to left, as Yul
 requires

---
 src/yul2ir/instruction.rs |  6 ++++--
 src/yul2ir/transform.rs   | 16 +++++++++-------
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index b97dc0c..b74a475 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -547,10 +547,11 @@ impl<'a> Yul2IRContext<'a> {
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
     ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
+        // Evaluate each argument with its expected type. Yul evaluates arguments right to left.
+        let mut args: Vec<YulLowLevelValue<'a>> = args_exprs
             .iter()
             .enumerate()
+            .rev()
             .map(|(i, arg)| {
                 let arg_expected_type = if i < arg_expected_types.len() {
                     arg_expected_types[i]
@@ -561,6 +562,7 @@ impl<'a> Yul2IRContext<'a> {
                     .unwrap()
             })
             .collect();
+        args.reverse();
         args
     }
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 191a2a1..ca9fa02 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -732,24 +732,24 @@ impl<'a> Yul2IRContext<'a> {
             if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
                 && func_call.arguments.len() == 3
             {
-                let from_arg = self.walk_expr_with_type(
+                let value_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[0],
+                    &func_call.arguments[2],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
+                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
                 let to_arg = self.walk_expr_with_type(
                     yul_func_name,
                     &func_call.arguments[1],
                     ExpectedType::Bytes32Pointer,
                 )?;
                 let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let value_arg = self.walk_expr_with_type(
+                let from_arg = self.walk_expr_with_type(
                     yul_func_name,
-                    &func_call.arguments[2],
+                    &func_call.arguments[0],
                     ExpectedType::Bytes32Pointer,
                 )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
+                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
                 self.build_void_call(
                     "wrapper_optimized_erc20_fun_transfer",
                     &[from_arg, to_arg, value_arg],
@@ -799,7 +799,8 @@ impl<'a> Yul2IRContext<'a> {
             .clone();
 
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        // Yul evaluates arguments right to left
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -827,6 +828,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
-- 
2.43.0


From 68a4069c14f6518fff7217a07a632c79fb2ec070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 23/52] fix: offsets, sizes, gas and block numbers beyond the
 host's width do not wrap around

---
 src/yul2ir/context.rs     | 58 ++++++++++++++++++---------------------
 src/yul2ir/instruction.rs | 37 ++++++++-----------------
 src/yul2ir/transform.rs   |  2 +-
 3 files changed, 40 insertions(+), 57 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 349b815..e5ff96a 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -848,24 +848,22 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    pub fn try_into_i64(
+    /// Narrow an unsigned value to i64, with everything above the largest i64 becoming it
+    pub fn saturate_to_i64(
         &self,
         value: &BasicValueEnum<'ctx>,
     ) -> Result<IntValue<'ctx>, ASTLoweringError> {
-        if value.get_type().is_int_type() {
-            self.int_cast(value.into_int_value(), self.i64_type())
-        } else if self.is_bytes32_value(value) {
-            let u256_value = self.bytes32_as_u256(value)?;
-            self.int_cast(u256_value, self.i64_type())
-        } else if value.is_pointer_value() {
-            // is bytes32 pointer
-            let bytes32_val = self.try_into_bytes32(value)?;
-            self.try_into_i64(&bytes32_val)
-        } else {
-            Err(ASTLoweringError::UnsupportedType(
-                value.get_type().to_string(),
-            ))
-        }
+        let value = self.try_into_u256(value)?;
+        let limit = value.get_type().const_int(i64::MAX as u64, false);
+        let above =
+            self.builder
+                .borrow_mut()
+                .build_int_compare(IntPredicate::UGT, value, limit, "")?;
+        let result = self
+            .builder
+            .borrow_mut()
+            .build_select(above, limit, value, "")?;
+        self.int_cast(result.into_int_value(), self.i64_type())
     }
 
     pub fn try_into_i32_value(
@@ -889,20 +887,8 @@ impl<'ctx> Yul2IRContext<'ctx> {
         &self,
         value: &BasicValueEnum<'ctx>,
     ) -> Result<IntValue<'ctx>, ASTLoweringError> {
-        // This function is equivalent to try_into_int followed by int_cast to i32
-        // For bytes32 type, we can directly take the last 4 bytes and convert to i32 using big endian
-        // For bytes32 pointer type, we can first convert to u8*, then take the content starting from offset +28 and convert to i32 using big endian
-        if self.is_bytes32_value(value) {
-            let value_ptr = self.get_value_pointer(*value)?;
-            let i32_val = self.build_call("i32_from_big_endian_bytes32", &[value_ptr.into()])?;
-            Ok(i32_val.into_int_value())
-        } else if value.is_pointer_value() {
-            // is bytes32 pointer
-            let i32_val = self.build_call("i32_from_big_endian_bytes32", &[*value])?;
-            Ok(i32_val.into_int_value())
-        } else {
-            self.int_as_i32(self.try_into_int(value)?)
-        }
+        // Offsets and sizes beyond 32 bits must not wrap around to small ones
+        self.saturate_to_i32(value, u32::MAX)
     }
 
     pub fn try_into_i32(
@@ -930,6 +916,16 @@ impl<'ctx> Yul2IRContext<'ctx> {
         &self,
         value: &BasicValueEnum<'ctx>,
         max: u32,
+    ) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        self.narrow_to_i32(value, max, max)
+    }
+
+    /// Narrow an unsigned value to i32, with everything above `max` becoming `otherwise`
+    pub fn narrow_to_i32(
+        &self,
+        value: &BasicValueEnum<'ctx>,
+        max: u32,
+        otherwise: u32,
     ) -> Result<IntValue<'ctx>, ASTLoweringError> {
         let mut value = self.try_into_int(value)?;
         if value.get_type().get_bit_width() < 32 {
@@ -941,11 +937,11 @@ impl<'ctx> Yul2IRContext<'ctx> {
                 .borrow_mut()
                 .build_int_compare(IntPredicate::UGT, value, limit, "")?;
         let narrow = self.int_as_i32(value)?;
-        let limit = self.i32_type().const_int(max as u64, false);
+        let otherwise = self.i32_type().const_int(otherwise as u64, false);
         let result = self
             .builder
             .borrow_mut()
-            .build_select(above, limit, narrow, "")?;
+            .build_select(above, otherwise, narrow, "")?;
         Ok(result.into_int_value())
     }
 
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index b74a475..a2ae961 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -103,7 +103,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::MCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
-            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::I32],
+            YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::U256],
             YulInstructionName::CallDataLoad => vec![ExpectedType::I32],
             YulInstructionName::CallDataCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
@@ -133,7 +133,7 @@ impl<'a> Yul2IRContext<'a> {
 
             // For contract calls, use appropriate types for gas, address, value, and memory params
             YulInstructionName::Call => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::U256,    // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::U256,    // value
                 ExpectedType::I32,     // in_offset
@@ -142,7 +142,7 @@ impl<'a> Yul2IRContext<'a> {
                 ExpectedType::I32,     // out_size
             ],
             YulInstructionName::DelegateCall | YulInstructionName::StaticCall => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::U256,    // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::I32,     // in_offset
                 ExpectedType::I32,     // in_size
@@ -1403,8 +1403,9 @@ impl<'a> Yul2IRContext<'a> {
                 let target_evm_mem_offset =
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
+                // offsets from dataoffset have the sign bit set, larger ones are past the code
                 let code_ptr =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                    self.narrow_to_i32(args.get(1).unwrap(), u32::MAX, i32::MAX as u32)?;
 
                 let size =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
@@ -1444,23 +1445,9 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
                 match expected_type {
-                    ExpectedType::I32 => {
-                        // If i32 is expected, use direct wrapper_mload_u32
-                        let result = self.build_call("wrapper_mload_u32", &[evm_mem.into()])?;
-                        Ok(YulLowLevelValue {
-                            value_type: YulLowLevelValueType::I32,
-                            value: result,
-                        })
-                    }
-                    ExpectedType::I64 => {
-                        // If i64 is expected, use direct wrapper_mload_u64
-                        let result = self.build_call("wrapper_mload_u64", &[evm_mem.into()])?;
-                        Ok(YulLowLevelValue {
-                            value_type: YulLowLevelValueType::I64,
-                            value: result,
-                        })
-                    }
-                    ExpectedType::U256 => {
+                    // The loaded word may be wider than the expected type, which is up to the
+                    // user of the value to handle
+                    ExpectedType::I32 | ExpectedType::I64 | ExpectedType::U256 => {
                         let result_ptr: PointerValue<'a> =
                             self.fast_alloca(self.u256_type(), "")?;
                         self.build_void_call(
@@ -2324,7 +2311,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Call => {
                 check_args_count(&instr, &args, 7)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturate_to_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2366,7 +2353,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::DelegateCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturate_to_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2400,7 +2387,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::StaticCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturate_to_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2491,7 +2478,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::BlockHash => {
                 check_args_count(&instr, &args, 1)?;
                 let block_number: &BasicValueEnum<'a> = args.first().unwrap();
-                let block_number = self.try_into_i64(block_number)?;
+                let block_number = self.saturate_to_i64(block_number)?;
 
                 let ret_ty = self.bytes32_type();
                 let block_hash_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ca9fa02..873618c 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -214,7 +214,7 @@ impl<'a> Yul2IRContext<'a> {
         self.builder.borrow_mut().position_at_end(cond_block);
         // For conditions, we prefer boolean (i32) results
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From 9f9f0ffb1161675792e939ce32846b9052bfb5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 24/52] fix: immutables with long names do not share a storage
 key

---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index a2ae961..bcb0005 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1603,7 +1603,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // short names are padded, long ones hashed in full so that they stay distinct
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1686,7 +1687,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // short names are padded, long ones hashed in full so that they stay distinct
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 03b95b6b3a155961d99a3ff42f9e869f894cda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:40 +0000
Subject: [PATCH 25/52] fix: data segments hold exactly the bytes of their
 literals

---
 src/yul2ir/transform.rs | 53 +++++++++++++----------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 873618c..dfca9b2 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1410,7 +1410,9 @@ impl<'a> Yul2IRContext<'a> {
                     }
                 }
                 InnerSegment::Data(data_segment_name, data_literals) => {
-                    // Compile data segments from object inner_segments into LLVM global constants
+                    // Compile data segments from object inner_segments into LLVM global constants,
+                    // which hold the bytes of all their literals and nothing else
+                    let mut data_bytes: Vec<u8> = vec![];
                     for data_literal in data_literals {
                         match data_literal {
                             ast::DataLiteral::HexLiteral(hex_literal) => {
@@ -1418,47 +1420,24 @@ impl<'a> Yul2IRContext<'a> {
                                 if hex_literal.len() % 2 != 0 {
                                     bytes.push('0');
                                 }
-                                let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(hex::decode(bytes).unwrap());
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
-                                let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(string_literal.as_bytes());
                             }
                         }
                     }
+                    let data_segment_qualified_name =
+                        &format!("{}.{}", object.name, data_segment_name);
+                    let global_var =
+                        self.add_global_constant_bytes32(&data_bytes, data_segment_qualified_name);
+
+                    self.global_bytes_lengths
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), data_bytes.len());
+                    self.global_bytes_values
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), global_var);
                 }
             }
         }
-- 
2.43.0


From a0e0bb9a577c53de5457814872c5eec0dbc15e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:01 +0000
Subject: [PATCH 26/52] fix: decoding an address rejects dirty upper bytes
 unless all optimizers are enabled

---
 src/yul2ir/instruction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index bcb0005..bf9d494 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -366,8 +366,9 @@ impl<'a> Yul2IRContext<'a> {
 
         //  Optimize iszero(eq(value, and(value, sub(shl(160, 1), 1)))) by checking if the first 12 bytes of u256/bytes32 are zero
 
-        if yul_func_name.contains("abi_decode_address")
-            || yul_func_name.contains("abi_decode_t_address")
+        if self.opts.enable_all_optimizers
+            && (yul_func_name.contains("abi_decode_address")
+                || yul_func_name.contains("abi_decode_t_address"))
         {
             // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
             if let YulInstructionName::IsZero = instr {
-- 
2.43.0


From 74432f3f99368538396836a00ef19339450ca45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 27/52] fix: sdiv and smod by a constant power of two compile

---
 src/yul2ir/instruction.rs | 109 ++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 53 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index bf9d494..ccfcf3a 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -514,32 +514,42 @@ impl<'a> Yul2IRContext<'a> {
         (None, None)
     }
 
-    /// The divisor with 1 in place of 0 (and of -1 if signed), for which an llvm division is undefined
-    fn safe_divisor(
+    /// The divisor with 1 in place of 0, for which an llvm division is undefined
+    fn safe_divisor(&self, divisor: IntValue<'a>) -> Result<IntValue<'a>, ASTLoweringError> {
+        let ty = divisor.get_type();
+        let is_zero = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::EQ,
+            divisor,
+            ty.const_zero(),
+            "",
+        )?;
+        let result =
+            self.builder
+                .borrow_mut()
+                .build_select(is_zero, ty.const_int(1, false), divisor, "")?;
+        Ok(result.into_int_value())
+    }
+
+    /// `value` if `sign` is not negative, otherwise its two's complement negation
+    fn negate_if_negative(
         &self,
-        divisor: IntValue<'a>,
-        signed: bool,
+        value: IntValue<'a>,
+        sign: IntValue<'a>,
     ) -> Result<IntValue<'a>, ASTLoweringError> {
-        let ty = divisor.get_type();
-        let mut undefined = vec![ty.const_zero()];
-        if signed {
-            undefined.push(ty.const_all_ones());
-        }
-        let mut result = divisor;
-        for value in undefined {
-            let hit = self.builder.borrow_mut().build_int_compare(
-                IntPredicate::EQ,
-                divisor,
-                value,
-                "",
-            )?;
-            result = self
-                .builder
+        let zero = sign.get_type().const_zero();
+        let is_negative =
+            self.builder
                 .borrow_mut()
-                .build_select(hit, ty.const_int(1, false), result, "")?
-                .into_int_value();
-        }
-        Ok(result)
+                .build_int_compare(IntPredicate::SLT, sign, zero, "")?;
+        let negated =
+            self.builder
+                .borrow_mut()
+                .build_int_sub(value.get_type().const_zero(), value, "")?;
+        let result = self
+            .builder
+            .borrow_mut()
+            .build_select(is_negative, negated, value, "")?;
+        Ok(result.into_int_value())
     }
 
     fn walk_args(
@@ -748,7 +758,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                let divisor = self.safe_divisor(arg1, false)?;
+                let divisor = self.safe_divisor(arg1)?;
                 let quotient = self.builder.borrow_mut().build_int_unsigned_div(
                     arg0,
                     divisor,
@@ -778,28 +788,18 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                let divisor = self.safe_divisor(arg1, true)?;
-                let quotient =
-                    self.builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, divisor, "sdiv_result")?;
-                // x / -1 is -x, also for the smallest x
-                let is_minus_one = self.builder.borrow_mut().build_int_compare(
-                    IntPredicate::EQ,
-                    arg1,
-                    arg1.get_type().const_all_ones(),
-                    "",
-                )?;
-                let negated = self.builder.borrow_mut().build_int_sub(
-                    arg0.get_type().const_zero(),
-                    arg0,
-                    "",
+                // llvm cannot lower a signed 256-bit division by a constant power of two, so divide
+                // the magnitudes
+                let dividend = self.negate_if_negative(arg0, arg0)?;
+                let divisor = self.negate_if_negative(arg1, arg1)?;
+                let divisor = self.safe_divisor(divisor)?;
+                let quotient = self.builder.borrow_mut().build_int_unsigned_div(
+                    dividend,
+                    divisor,
+                    "sdiv_result",
                 )?;
-                let quotient = self
-                    .builder
-                    .borrow_mut()
-                    .build_select(is_minus_one, negated, quotient, "")?
-                    .into_int_value();
+                let sign = self.builder.borrow_mut().build_xor(arg0, arg1, "")?;
+                let quotient = self.negate_if_negative(quotient, sign)?;
                 let is_zero = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::EQ,
                     arg1,
@@ -825,7 +825,7 @@ impl<'a> Yul2IRContext<'a> {
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
                 // x mod 1 is 0, the EVM result for a divisor of 0
-                let divisor = self.safe_divisor(arg1, false)?;
+                let divisor = self.safe_divisor(arg1)?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
                     value: self
@@ -842,15 +842,18 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
                 let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                // x mod 1 is 0, the EVM result for a divisor of 0 or -1
-                let divisor = self.safe_divisor(arg1, true)?;
+                // like sdiv; x mod 1 is 0, the EVM result for a divisor of 0
+                let dividend = self.negate_if_negative(arg0, arg0)?;
+                let divisor = self.negate_if_negative(arg1, arg1)?;
+                let divisor = self.safe_divisor(divisor)?;
+                let remainder = self.builder.borrow_mut().build_int_unsigned_rem(
+                    dividend,
+                    divisor,
+                    "smod_result",
+                )?;
                 Ok(YulLowLevelValue {
                     value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, divisor, "smod_result")?
-                        .into(),
+                    value: self.negate_if_negative(remainder, arg0)?.into(),
                 })
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From c5d066411b55d3f7d9c7c9438586b646ff8d0e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:28 +0000
Subject: [PATCH 28/52] fix: arguments of functions that only revert are
 evaluated

---
 src/yul2ir/function_deduplicator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/function_deduplicator.rs b/src/yul2ir/function_deduplicator.rs
index e99c334..2a293ac 100644
--- a/src/yul2ir/function_deduplicator.rs
+++ b/src/yul2ir/function_deduplicator.rs
@@ -11,7 +11,8 @@ use std::rc::Rc;
 
 impl<'a> Yul2IRContext<'a> {
     pub fn is_revert_zero_function(&self, function: &FunctionDefinition) -> bool {
-        if function.body.statements.len() != 1 {
+        // The arguments of a call must still be evaluated: they may halt or have side effects
+        if !function.params.is_empty() || function.body.statements.len() != 1 {
             return false;
         }
 
-- 
2.43.0


From 6948047a4f0823578f7c01d434cf62397c9e1c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:23 +0000
Subject: [PATCH 29/52] fix: a constant stored to the free memory pointer is
 read back with all optimizers

---
 src/yul2ir/instruction.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index ccfcf3a..73aaba0 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -310,8 +310,12 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        // optimize for mstore(offset, constant_value)
-        if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+        // optimize for mstore(offset, constant_value), except the free memory pointer kept outside memory below
+        if matches!(instr, YulInstructionName::MStore)
+            && args_exprs.len() == 2
+            && !(self.opts.enable_all_optimizers
+                && self.fetch_not_string_literal_constant(&args_exprs[0]) == Some(U256::from(64)))
+        {
             let offset = &args_exprs[0].clone();
             let value = &args_exprs[1].clone();
 
-- 
2.43.0


From 2f84f10abae1161bb22015eed72ca740cac3ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:08 +0000
Subject: [PATCH 30/52] fix: hex digits of string escapes may be lower case

---
 src/yul.lalrpop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 9ead14a..13752f0 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -235,7 +235,7 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
+pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-Fa-f][0-9A-Fa-f])|(u\{[0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f][0-9A-Fa-f]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
     utils::unescape_str(&utils::remove_string_gaps(&s[1..s.len() - 1]))
         .map_err(|_| ParseError::User { error: "invalid escape in string literal" })
 };
-- 
2.43.0


From 704117598c7f2e44cf3028318cfc5cc162f4b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:26 +0000
Subject: [PATCH 31/52] fix: a module that no pass changes still compiles

---
 src/yul2ir/context.rs | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index e5ff96a..624b749 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -226,19 +226,8 @@ impl<'ctx> Yul2IRContext<'ctx> {
         // Populate the module pass manager with the passes configured in the pass manager builder
         pass_manager_builder.populate_module_pass_manager(&mpm);
 
-        if !(mpm.run_on(&self.llvm_module.borrow_mut())) {
-            if self.opts.verbose {
-                let output_dir = &self.opts.output_dir;
-                // Output the LLVM IR file in case of an error
-                let ll_filepath = &format!("{output_dir}/error.out.ll");
-
-                self.llvm_module
-                    .borrow()
-                    .print_to_file(ll_filepath)
-                    .unwrap();
-            }
-            panic!("Failed to run llvm passes: ");
-        }
+        // The result only tells whether some pass changed the module
+        mpm.run_on(&self.llvm_module.borrow_mut());
     }
 
     fn emit_code(&mut self, output_basename: &str) -> Result<String, Box<dyn Error>> {
-- 
2.43.0


From 9071d12b1386e7162b1534710ce77f336cd0348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 32/52] fix: a user function named init is not the object's own
 code

---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index dfca9b2..d2cd944 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1564,7 +1564,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // `@` is in no Yul identifier, so a user function named `init` stays a function of its own
+        let qualifier_func_name = format!("{}.{}.@init", module_name, contract_name);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From a0405350d1420f818c719c063b61fa6b328f52d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:30 +0000
Subject: [PATCH 33/52] fix: an invalid linker symbol option is an error

---
 src/main.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a7c5bd4..0a87238 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -120,17 +120,26 @@ fn main() {
 
     for sym in &args.symbol {
         let parts: Vec<&str> = sym.split('=').collect();
-        if parts.len() == 2 {
-            let path = parts[0];
-            let address = parts[1];
-            opts.symbol2addr
-                .insert(path.to_string(), address.to_string());
-        } else {
+        if parts.len() != 2 {
             eprintln!(
                 "Invalid symbol format: {}. Expected format: path=address",
                 sym
             );
+            process::exit(1);
+        }
+        let path = parts[0];
+        let address = parts[1];
+        let digits = address.strip_prefix("0x").unwrap_or("");
+        if digits.is_empty() || digits.len() > 40 || !digits.chars().all(|c| c.is_ascii_hexdigit())
+        {
+            eprintln!(
+                "Invalid symbol address: {}. Expected: 0x and up to 40 hex digits",
+                address
+            );
+            process::exit(1);
         }
+        opts.symbol2addr
+            .insert(path.to_string(), address.to_string());
     }
 
     if let Some(main_contract_name) = args.main_contract {
-- 
2.43.0


From 0d38631a2608c92b8741c113ee05968ec045bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:10 +0000
Subject: [PATCH 34/52] fix: a missing output directory is created

---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 0a87238..e6ee650 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -155,10 +155,10 @@ fn main() {
     } else {
         output_dir
     };
-    let output_dir = output_dir.canonicalize().unwrap();
     if !output_dir.exists() {
-        fs::create_dir_all(&output_dir).unwrap();
+        fs::create_dir_all(output_dir).unwrap();
     }
+    let output_dir = output_dir.canonicalize().unwrap();
 
     opts.output_dir = output_dir.to_str().unwrap_or(".").to_string();
 
-- 
2.43.0


From 3a4b9219cd5bf20c1f13a05afc661928ba4df97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:30 +0000
Subject: [PATCH 35/52] fix: the reference names the optimization levels that
 exist

---
 docs/cli-reference.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/cli-reference.md b/docs/cli-reference.md
index c394434..2efcde1 100644
--- a/docs/cli-reference.md
+++ b/docs/cli-reference.md
@@ -25,7 +25,7 @@ yul2wasm --input <input_file> --output <output_file> [options]
 |------|--------|------|
 | `--verbose` | No | Enables verbose output mode, displaying detailed information about the compilation process |
 | `--debug` | No | Enables debug mode, generating debug information and intermediate files |
-| `--opt-level <level>` | default | Sets the LLVM optimization level (available values: default, none, less, more, aggressive) |
+| `--opt-level <level>` | default | Sets the LLVM optimization level (available values: default, none, less, aggressive) |
 
 ### Contract-Related Options
 
-- 
2.43.0


From 7482bd90a2695cc5a6dcfc3995914be235d16307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 36/52] fix: a function call with missing arguments is an error

---
 src/yul2ir/transform.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d2cd944..c7951d8 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -798,6 +798,16 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        let params_count = infered_yul_func_ty.params_inkwell_type.len();
+        if func_call.arguments.len() != params_count {
+            return Err(ASTLoweringError::BuilderError(format!(
+                "Function {} Expected {} arguments, but got {}",
+                func_name,
+                params_count,
+                func_call.arguments.len()
+            )));
+        }
+
         let mut call_args = vec![];
         // Yul evaluates arguments right to left
         for (i, arg) in func_call.arguments.iter().enumerate().rev() {
-- 
2.43.0


From 4031d38c735a657253cd59ab8131d058d524ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 37/52] fix: abi_encode encodes integer arrays and empty arrays

---
 examples/scripts/abi_encode.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 998f64b..b2cc8c5 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -22,15 +22,17 @@ def parse_signature(sig):
 
 def convert_param(param, param_type):
     # Convert string parameters to appropriate Python types
-    if param_type.startswith('uint') or param_type.startswith('int'):
+    if param_type.endswith('[]'):
+        # Convert comma-separated string to list for dynamic arrays
+        if not param.strip():
+            return []
+        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
+    elif param_type.startswith('uint') or param_type.startswith('int'):
         return int(param)
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
         return param.lower() == 'true'
-    elif param_type.endswith('[]'):
-        # Convert comma-separated string to list for dynamic arrays
-        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
     return param
 
 def main():
-- 
2.43.0


From 18ce0144c10ce60793fadea66bd388790f218b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 38/52] fix: abi_encode rejects a bool that is neither true nor
 false

---
 examples/scripts/abi_encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index b2cc8c5..2c74e11 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -32,6 +32,8 @@ def convert_param(param, param_type):
     elif param_type == 'address':
         return remove_0x_prefix(param)
     elif param_type == 'bool':
+        if param.lower() not in ('true', 'false'):
+            raise ValueError(f"Invalid bool value: {param}")
         return param.lower() == 'true'
     return param
 
-- 
2.43.0


From 7efdf6c20404814cf4e48b485866629619a5b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 39/52] fix: abi_encode rejects a signature without closing
 parenthesis

---
 examples/scripts/abi_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 2c74e11..a447816 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -12,7 +12,7 @@ from eth_utils.hexadecimal import remove_0x_prefix
 def parse_signature(sig):
     # Extract function name and param types from signature like "transfer(address,uint256)"
     name_end = sig.find('(')
-    if name_end == -1:
+    if name_end == -1 or not sig.endswith(')'):
         raise ValueError("Invalid function signature")
     
     name = sig[:name_end]
-- 
2.43.0


From e788c54bf0a044c18199e53ce333617dd19b4786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:27 +0000
Subject: [PATCH 40/52] fix: abi_encode rejects an address with two prefixes

---
 examples/scripts/abi_encode.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index a447816..792780f 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -7,7 +7,6 @@ import sys
 import argparse
 from eth_abi import encode
 from eth_utils import function_signature_to_4byte_selector, to_hex
-from eth_utils.hexadecimal import remove_0x_prefix
 
 def parse_signature(sig):
     # Extract function name and param types from signature like "transfer(address,uint256)"
@@ -29,8 +28,6 @@ def convert_param(param, param_type):
         return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
     elif param_type.startswith('uint') or param_type.startswith('int'):
         return int(param)
-    elif param_type == 'address':
-        return remove_0x_prefix(param)
     elif param_type == 'bool':
         if param.lower() not in ('true', 'false'):
             raise ValueError(f"Invalid bool value: {param}")
-- 
2.43.0


From 8453340ffff2315484b54e4a8d877be0006757f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 41/52] fix: bin_to_hex does not overwrite its input

---
 examples/scripts/bin_to_hex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/examples/scripts/bin_to_hex.py b/examples/scripts/bin_to_hex.py
index d9b10b2..f4a853d 100644
--- a/examples/scripts/bin_to_hex.py
+++ b/examples/scripts/bin_to_hex.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import argparse
 
@@ -8,6 +9,11 @@ def binary_to_hex_file(input_path, output_path):
             # Read the entire file content
             binary_data = binary_file.read()
 
+        # The output must not replace the input
+        if os.path.exists(output_path) and os.path.samefile(input_path, output_path):
+            print(f"Error: {input_path} and {output_path} are the same file")
+            sys.exit(1)
+
         # Convert binary data to hexadecimal string
         hex_string = binary_data.hex()
 
-- 
2.43.0


From bff77a9787f9b14d776a66b848bc1e4361508a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 42/52] fix: bin_to_hex exits non-zero when it fails

---
 examples/scripts/bin_to_hex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/scripts/bin_to_hex.py b/examples/scripts/bin_to_hex.py
index f4a853d..d9c53c5 100644
--- a/examples/scripts/bin_to_hex.py
+++ b/examples/scripts/bin_to_hex.py
@@ -25,10 +25,13 @@ def binary_to_hex_file(input_path, output_path):
 
     except FileNotFoundError:
         print(f"Error: File {input_path} not found")
+        sys.exit(1)
     except PermissionError:
         print(f"Error: No permission to read {input_path} or write to {output_path}")
+        sys.exit(1)
     except Exception as e:
         print(f"An unknown error occurred: {e}")
+        sys.exit(1)
 
 def main():
     # Create argument parser
-- 
2.43.0


From 75b82e7397424c1fdedfbc356e9440e6753a6acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 43/52] fix: run_cmd_and_grep fails when the pattern does not
 match

---
 examples/scripts/common.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/scripts/common.sh b/examples/scripts/common.sh
index a03aadd..e085779 100644
--- a/examples/scripts/common.sh
+++ b/examples/scripts/common.sh
@@ -18,7 +18,10 @@ function run_cmd_and_grep() {
     # Check if the output matches the grep pattern
 #    echo "$output" | grep -E -zo "$grep_pattern"
     echo "matching pattern: $grep_pattern"
-    echo "$output" | awk -v pattern="$grep_pattern" 'BEGIN { RS="\0" } $0 ~ pattern { found=1 } END { if (!found) exit 1 }'
+    if ! printf '%s\n' "$output" | awk -v pattern="$grep_pattern" 'BEGIN { RS="\0" } $0 ~ pattern { found=1 } END { if (!found) exit 1 }'; then
+        echo "grep pattern not matched"
+        exit 1
+    fi
     echo "grep pattern matched"
 }
 
-- 
2.43.0


From 5f3c1066186c6c3b1aa2afcc3b14b4dffeb2e282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:32 +0000
Subject: [PATCH 44/52] fix: an empty result has an empty hex

---
 examples/scripts/common.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/scripts/common.sh b/examples/scripts/common.sh
index e085779..44448ce 100644
--- a/examples/scripts/common.sh
+++ b/examples/scripts/common.sh
@@ -41,6 +41,6 @@ function grep_output_last_result_hex() {
     # Find the last line with the result hex using awk
     local last_line=$(echo "$output" | awk '/evm (finish|revert) with result hex:/ {last_match = $0} END {print last_match}')
     # Extract the hex value (last field) from that line
-    local result_hex=$(echo "$last_line" | awk '{print $NF}')
+    local result_hex=$(echo "$last_line" | awk '$NF != "hex:" {print $NF}')
     echo "$result_hex"
 }
-- 
2.43.0


From 966f618c044c036c64f1fac97f02a0b8df9df916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:55 +0000
Subject: [PATCH 45/52] fix: a variable of the top-level code can hold a
 linkersymbol

---
 src/yul2ir/transform.rs |  5 ++++-
 src/yul2ir/usage.rs     | 10 +++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index c7951d8..d50898f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -478,7 +478,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.is_some_and(|usage| usage.reads == 0 && usage.writes == 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
@@ -1601,6 +1601,9 @@ impl<'a> Yul2IRContext<'a> {
 
         let _scope_guard = ScopeGuard::new(self);
 
+        // walk the code for variable usage, as for function bodies
+        self.analyze_code_usage(&qualifier_func_name, &object.code);
+
         for stmt in &object.code.statements {
             if let Err(err) = self.walk_stmt(&qualifier_func_name, stmt) {
                 return (Err(err), qualifier_func_name);
diff --git a/src/yul2ir/usage.rs b/src/yul2ir/usage.rs
index 021500e..e6127db 100644
--- a/src/yul2ir/usage.rs
+++ b/src/yul2ir/usage.rs
@@ -111,15 +111,19 @@ impl<'a> Yul2IRContext<'a> {
     #[allow(unused)]
     pub fn analyze_function_usage(&self, func_def: &FunctionDefinition) {
         let func_qualifier = self.get_func_decl_qualifier_name(func_def);
+        self.analyze_code_usage(&func_qualifier, &func_def.body);
+    }
+
+    pub fn analyze_code_usage(&self, func_qualifier: &str, body: &Block) {
         // Avoid re-analyzing if already done (e.g., if called multiple times)
-        if self.variable_usage.borrow().contains_key(&func_qualifier) {
+        if self.variable_usage.borrow().contains_key(func_qualifier) {
             return;
         }
         let mut usage_map = HashMap::new();
-        self.analyze_block_usage(&func_def.body, &mut usage_map);
+        self.analyze_block_usage(body, &mut usage_map);
         self.variable_usage
             .borrow_mut()
-            .insert(func_qualifier, usage_map.clone());
+            .insert(func_qualifier.to_string(), usage_map);
     }
 
     #[allow(unused)]
-- 
2.43.0


From f0558104247bb41deebeda76a45221d378b03610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:53 +0000
Subject: [PATCH 46/52] fix: a gap in a string literal does not escape the
 quote that ends it

---
 src/yul2ir/utils.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index bcf3537..e2ac050 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -379,10 +379,14 @@ pub fn remove_comments(code: &str) -> String {
     while let Some(c) = chars.next() {
         match c {
             '\\' if string_char.is_some() => {
-                // an escaped character never ends the string
+                // an escaped character never ends the string; a gap of blanks and line breaks has a
+                // backslash at both ends, which escapes nothing
                 result.push(c);
-                if let Some(escaped) = chars.next() {
+                for escaped in chars.by_ref() {
                     result.push(escaped);
+                    if !matches!(escaped, ' ' | '\n' | '\t' | '\r' | '\u{c}') {
+                        break;
+                    }
                 }
             }
             '"' | '\'' => {
-- 
2.43.0


From a4376b4a7ddd1f231446f3416629c6bb46a70d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:21 +0000
Subject: [PATCH 47/52] fix: datacopy copies the contract code like codecopy

---
 src/yul2ir/instruction.rs | 3 ++-
 stdlib/chain.c            | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 73aaba0..77dde58 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -2053,8 +2053,9 @@ impl<'a> Yul2IRContext<'a> {
                 let dst_evm =
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
+                // like codecopy: offsets from dataoffset have the sign bit set
                 let src_evm =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                    self.narrow_to_i32(args.get(1).unwrap(), u32::MAX, i32::MAX as u32)?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
diff --git a/stdlib/chain.c b/stdlib/chain.c
index c54198a..d401b7c 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,9 +889,8 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  uint8_t *dst = evm_memory_range(dst_evm, len);
-  uint8_t *src = evm_get_memory_addr(src_evm);
-  memcpy(dst, src, len);
+  // The source may be a data segment or a place in the contract code
+  wrapper_codecopy(dst_evm, src_evm, len);
 }
 
 void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
-- 
2.43.0


From b0b170c7e9075f619ceef722981760ab3a5a3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:08 +0000
Subject: [PATCH 48/52] fix: a string literal longer than a word is rejected,
 not read as zero

---
 src/yul2ir/context.rs     | 12 +++++-------
 src/yul2ir/instruction.rs | 17 +++++++++++++++++
 src/yul2ir/transform.rs   |  4 ++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 624b749..f895eca 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -498,13 +498,11 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    pub fn string_literal(&self, value: &str) -> IntValue<'ctx> {
+    pub fn string_literal(&self, value: &str) -> Result<IntValue<'ctx>, ASTLoweringError> {
         if value.len() > 32 {
-            // panic!("String literal length exceeds 32 bytes: {}", value);
-            // String literals used in linker symbol, data offset, and data size instructions
-            // don't need to be processed by string_literal function
-            // After modifying the logic in instruction.rs, we can restore the panic here
-            return self.u256_type().const_zero();
+            return Err(ASTLoweringError::BuilderError(format!(
+                "String literal length exceeds 32 bytes: {value}"
+            )));
         }
         // Convert string to bytes and pad to 32 bytes
         let mut bytes = value.as_bytes().to_vec();
@@ -518,7 +516,7 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .u256_type()
             .const_int_from_string(&be_bytes_hex, StringRadix::Hexadecimal)
             .unwrap();
-        int_value
+        Ok(int_value)
     }
 
     #[allow(unused)]
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 77dde58..2857a18 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -613,6 +613,23 @@ impl<'a> Yul2IRContext<'a> {
 
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
+        } else if matches!(
+            instr,
+            YulInstructionName::LoadImmutable
+                | YulInstructionName::SetImmutable
+                | YulInstructionName::DataOffset
+                | YulInstructionName::DataSize
+                | YulInstructionName::LinkerSymbol
+        ) {
+            // String literals are names here: they have no value, and any length
+            let values: Vec<Expression> = args_exprs
+                .iter()
+                .map(|arg| match self.read_string_literal(arg) {
+                    Some(_) => Expression::Literal(Literal::FalseLiteral(None)),
+                    None => arg.clone(),
+                })
+                .collect();
+            self.walk_args(yul_func_name, &values, &arg_expected_types)
         } else {
             self.walk_args(yul_func_name, args_exprs, &arg_expected_types)
         };
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d50898f..d4e4df0 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -111,7 +111,7 @@ impl<'a> Yul2IRContext<'a> {
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
                             self.dec_literal(&dec.dec, ExpectedType::U256)
                         }
-                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
+                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str)?,
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
@@ -1001,7 +1001,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             ast::Literal::StringLiteral(s, ty_name) => {
-                let value = self.string_literal(&s.str);
+                let value = self.string_literal(&s.str)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::from_int_type(value.get_type()),
                     value: value.into(),
-- 
2.43.0


From 0680498e9061e197abb7911bfc7121a6db12c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:28 +0000
Subject: [PATCH 49/52] fix: a hex data literal with half a byte is rejected,
 not padded

---
 src/yul.lalrpop         |  2 +-
 src/yul2ir/transform.rs | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 13752f0..e319965 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -231,7 +231,7 @@ pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
 
 pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
 
-pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
+pub HexDataInner: String =  <s:r#"hex"([0-9a-fA-F][0-9a-fA-F])+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index d4e4df0..48484dd 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -111,7 +111,9 @@ impl<'a> Yul2IRContext<'a> {
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
                             self.dec_literal(&dec.dec, ExpectedType::U256)
                         }
-                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str)?,
+                        ast::Literal::StringLiteral(string, _) => {
+                            self.string_literal(&string.str)?
+                        }
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
@@ -1426,11 +1428,7 @@ impl<'a> Yul2IRContext<'a> {
                     for data_literal in data_literals {
                         match data_literal {
                             ast::DataLiteral::HexLiteral(hex_literal) => {
-                                let mut bytes = hex_literal.clone();
-                                if hex_literal.len() % 2 != 0 {
-                                    bytes.push('0');
-                                }
-                                data_bytes.extend(hex::decode(bytes).unwrap());
+                                data_bytes.extend(hex::decode(hex_literal).unwrap());
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
                                 data_bytes.extend(string_literal.as_bytes());
-- 
2.43.0


From 3a797dfabf258e59ac210084189cab1c107cb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 50/52] fix: calls are replaced by the ERC-20 transfer shortcut
 only if the function equals it

---
 src/yul2ir/context.rs   |   3 +
 src/yul2ir/transform.rs | 428 ++++++++++++++++++++++------------------
 2 files changed, 239 insertions(+), 192 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index f895eca..2ec3101 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -74,6 +74,8 @@ pub struct Yul2IRContext<'ctx> {
     pub functions_mapping: RefCell<HashMap<String, Rc<FunctionValue<'ctx>>>>,
     pub current_func_decls: RefCell<IndexMap<String, FunctionDeclaration>>,
     pub revert_zero_functions: RefCell<HashSet<String>>,
+    // functions whose calls are replaced by wrapper_optimized_erc20_fun_transfer
+    pub erc20_transfer_functions: RefCell<HashSet<String>>,
 
     // yul function name => yul low level function type
     pub yul_func_infer_types: RefCell<HashMap<String, YulLowLevelFunctionType<'ctx>>>,
@@ -136,6 +138,7 @@ impl<'ctx> Yul2IRContext<'ctx> {
             functions_mapping: RefCell::new(Default::default()),
             current_func_decls: RefCell::new(Default::default()),
             revert_zero_functions: RefCell::new(Default::default()),
+            erc20_transfer_functions: RefCell::new(Default::default()),
             yul_func_infer_types: RefCell::new(Default::default()),
             iden_id_gen: RefCell::new(0),
             exported_func_names: RefCell::new(vec![]),
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 48484dd..d4aec29 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -2,6 +2,7 @@
 // Copyright (c) The Smart Intermediate Representation Contributors
 // SPDX-License-Identifier: Apache-2.0
 
+use std::collections::HashMap;
 use std::rc::Rc;
 
 use crate::yul2ir::context::CompileFunctionResult;
@@ -15,6 +16,7 @@ use crate::{
     yul2ir::yul_instruction::parse_intrinsic_func_name,
 };
 use ast::FunctionDeclaration;
+use ethereum_types::U256;
 use indexmap::IndexMap;
 use inkwell::basic_block::BasicBlock;
 use inkwell::context::Context;
@@ -726,41 +728,42 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        if self.opts.enable_all_optimizers && self.opts.enable_storage_load_store_little_endian {
-            // The Solidity ERC20 transfer function contains redundant keccak256 calls that need optimization.
-            // Currently using C implementation for optimization.
+        // The Solidity ERC20 transfer function contains redundant keccak256 calls that need optimization.
+        // Currently using C implementation for optimization.
 
-            // the function logic check is in the transform_func
-            if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
-                && func_call.arguments.len() == 3
-            {
-                let value_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[2],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
-                let to_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[1],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let from_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[0],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
-                self.build_void_call(
-                    "wrapper_optimized_erc20_fun_transfer",
-                    &[from_arg, to_arg, value_arg],
-                )?;
-                return Ok(YulLowLevelValue {
-                    value_type: YulLowLevelValueType::I32,
-                    value: self.i32_type().const_zero().into(),
-                });
-            }
+        // the function logic check is in scan_func_decls
+        if func_call.arguments.len() == 3
+            && self
+                .erc20_transfer_functions
+                .borrow()
+                .contains(&qualifier_func_name)
+        {
+            let value_arg = self.walk_expr_with_type(
+                yul_func_name,
+                &func_call.arguments[2],
+                ExpectedType::Bytes32Pointer,
+            )?;
+            let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
+            let to_arg = self.walk_expr_with_type(
+                yul_func_name,
+                &func_call.arguments[1],
+                ExpectedType::Bytes32Pointer,
+            )?;
+            let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
+            let from_arg = self.walk_expr_with_type(
+                yul_func_name,
+                &func_call.arguments[0],
+                ExpectedType::Bytes32Pointer,
+            )?;
+            let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
+            self.build_void_call(
+                "wrapper_optimized_erc20_fun_transfer",
+                &[from_arg, to_arg, value_arg],
+            )?;
+            return Ok(YulLowLevelValue {
+                value_type: YulLowLevelValueType::I32,
+                value: self.i32_type().const_zero().into(),
+            });
         }
 
         let module_name = self.current_module_name.borrow().clone();
@@ -1020,6 +1023,30 @@ impl<'a> Yul2IRContext<'a> {
     }
 }
 
+/// What the names in scope stand for: a number in the order of declaration, or a constant
+#[derive(Clone, Default)]
+struct CanonicalNames {
+    names: HashMap<String, String>,
+    count: usize,
+}
+
+impl CanonicalNames {
+    fn declare(&mut self, name: &str) -> String {
+        let number = format!("n{}", self.count);
+        self.count += 1;
+        self.names.insert(name.to_string(), number.clone());
+        number
+    }
+
+    fn bind(&mut self, name: &str, constant: String) {
+        self.names.insert(name.to_string(), constant);
+    }
+
+    fn get(&self, name: &str) -> Option<&String> {
+        self.names.get(name)
+    }
+}
+
 impl<'a> Yul2IRContext<'a> {
     pub fn transform(&mut self) -> CompileResult<'a> {
         self.scan_func_decls(&self.yul_ast.clone().unwrap())?;
@@ -1044,51 +1071,51 @@ impl<'a> Yul2IRContext<'a> {
         // yul function:
         // function fun_transfer(var_from, var_to, var_value)
         // {
-        //     let _1 := and(var_from, sub(shl(160, 1), 1))
-        //     let _2 := iszero(_1)
-        //     if _2
+        //     let _1 := sub(shl(160, 1), 1)
+        //     let _2 := and(var_from, _1)
+        //     if iszero(_2)
         //     {
-        //         mstore(0x00,shl(225, 0x4b637e8f))
-        //         mstore(4,0x00)
-        //         revert(0x00, 36)
+        //         let _3 := mload(64)
+        //         mstore(_3, shl(225, 0x4b637e8f))
+        //         mstore(add(_3, 4), 0x00)
+        //         revert(_3, 36)
         //     }
-        //     let _3 := and(var_to, sub(shl(160, 1), 1))
-        //     let _4 := iszero(_3)
-        //     if _4
+        //     let _4 := and(var_to, _1)
+        //     if iszero(_4)
         //     {
-        //         mstore(0x00, shl(224, 0xec442f05))
-        //         mstore(4, 0x00)
-        //         revert(0x00, 36)
+        //         let _5 := mload(64)
+        //         mstore(_5, shl(224, 0xec442f05))
+        //         mstore(add(_5, 4), 0x00)
+        //         revert(_5, 36)
         //     }
-        //     _2 := 0x00
-        //     mstore(0x00, _1)
+        //     mstore(0x00, _2)
         //     mstore(0x20, 0x00)
-        //     let _5 := sload(keccak256(0x00, 0x40))
-        //     if lt(_5, var_value)
+        //     let _6 := sload(keccak256(0x00, 0x40))
+        //     if lt(_6, var_value)
         //     {
-        //         mstore(0x00, shl(226, 0x391434e3))
-        //         mstore(4, _1)
-        //         mstore(36, _5)
-        //         mstore(68, var_value)
-        //         revert(0x00, 100)
+        //         let _7 := mload(64)
+        //         mstore(_7, shl(226, 0x391434e3))
+        //         mstore(add(_7, 4), _2)
+        //         mstore(add(_7, 36), _6)
+        //         mstore(add(_7, 68), var_value)
+        //         revert(_7, 100)
         //     }
-        //     mstore(0x00, _1)
-        //     mstore(0x20, 0x00)
-        //     sstore(keccak256(0x00, 0x40), sub(_5, var_value))
-        //     _4 := 0x00
-        //     mstore(0x00,  _3)
+        //     mstore(0x00, _2)
         //     mstore(0x20, 0x00)
+        //     sstore(keccak256(0x00, 0x40), sub(_6, var_value))
+        //     mstore(0x00, _4)
+        //     [mstore(0x20, 0x00)]
         //     let dataSlot := keccak256(0x00, 0x40)
         //     sstore(dataSlot, add(sload(dataSlot), var_value))
-        //     let _6 := mload(64)
-        //     mstore(_6, var_value)
-        //     log3(_6, 32,
-        //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
-        //     _3)
+        //     let _8 := mload(64)
+        //     mstore(_8, var_value)
+        //     log3(_8, 32,
+        //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _2,
+        //     _4)
         // }
-        if !function.name.name.contains("fun_transfer")
-            && !function.name.name.contains("fun__transfer")
-        {
+        // The error data may also be built at memory 0. Anything else is another function,
+        // which the C implementation can not replace.
+        if function.name.name != "fun_transfer" && function.name.name != "fun__transfer" {
             return false;
         }
         if !self.current_module_name.borrow().contains("Token")
@@ -1096,127 +1123,146 @@ impl<'a> Yul2IRContext<'a> {
         {
             return false;
         }
-        if function.params.len() != 3 {
-            return false;
-        }
-        let _param0_iden = function.params[0].identifier.name.clone();
-        let _param1_iden = function.params[1].identifier.name.clone();
-        let _param2_iden = function.params[2].identifier.name.clone();
-        let stmts = &function.body.statements;
-        if stmts.len() < 18 || stmts.len() > 22 {
-            return false;
-        }
-        // let _1 := sub(shl(160, 1), 1)
-        let var_1_instr = self.matches_single_declare_instruction(&stmts[0]);
-        if var_1_instr.is_none() {
-            return false;
-        }
-        let (var_1_iden, var_1_expr) = var_1_instr.unwrap();
-        if var_1_iden != "_1" {
-            return false;
-        }
-        if self
-            .matches_yul_instruction(&var_1_expr, "sub", 2)
-            .is_none()
-        {
-            return false;
-        }
-        // let _2 := and(var_from, _1)
-        let var_2_instr = self.matches_single_declare_instruction(&stmts[1]);
-        if var_2_instr.is_none() {
-            return false;
-        }
-        let (var_2_iden, var_2_expr) = var_2_instr.unwrap();
-        if var_2_iden != "_2" {
-            return false;
-        }
-        if self
-            .matches_yul_instruction(&var_2_expr, "and", 2)
-            .is_none()
-        {
-            return false;
-        }
-        // if iszero(_2)
-        if !matches!(stmts[2], Statement::If(_)) {
-            return false;
-        }
-        // let _4 := and(var_to, _1)
-        let var_4_instr = self.matches_single_declare_instruction(&stmts[3]);
-        if var_4_instr.is_none() {
-            return false;
-        }
-        let (var_4_iden, _) = var_4_instr.unwrap();
-        if var_4_iden != "_4" {
-            return false;
-        }
-        // if iszero(_4)
-        if !matches!(stmts[4], Statement::If(_)) {
-            return false;
-        }
-        // mstore(0, _2)
-        if self.matches_mstore_statement(&stmts[5]).is_none() {
+        if function.params.len() != 3 || !function.returns.is_empty() {
             return false;
         }
-        // mstore(0x20, 0)
-        if self.matches_mstore_statement(&stmts[6]).is_none() {
-            return false;
-        }
-        // let _6 := sload(keccak256(0, 0x40))
-        let var_6_instr = self.matches_single_declare_instruction(&stmts[7]);
-        if var_6_instr.is_none() {
-            return false;
-        }
-        let (var_6_iden, _) = var_6_instr.unwrap();
-        if var_6_iden != "_6" {
-            return false;
-        }
-        // if lt(_6, var_value)
-        if !matches!(stmts[8], Statement::If(_)) {
-            return false;
-        }
-        // mstore(0, _2)
-        if self.matches_mstore_statement(&stmts[9]).is_none() {
-            return false;
-        }
-        // mstore(0x20, 0)
-        if self.matches_mstore_statement(&stmts[10]).is_none() {
-            return false;
-        }
-        // sstore(keccak256(0, 0x40), sub(_6, var_value))
-        if self.matches_sstore_statement(&stmts[11]).is_none() {
-            return false;
-        }
-        // mstore(0, _4)
-        if self.matches_mstore_statement(&stmts[12]).is_none() {
-            return false;
+        let mut names = CanonicalNames::default();
+        for param in &function.params {
+            names.declare(&param.identifier.name);
         }
-        // let dataSlot := keccak256(0, 0x40)
-        if self
-            .matches_single_declare_instruction(&stmts[13])
-            .is_none()
-        {
+        let Some(body) = self.canonical_statements(&function.body.statements, &mut names) else {
             return false;
+        };
+        let address_mask = (U256::from(1) << 160) - U256::from(1);
+        // The error data is a selector followed by words, at memory 0 or at the free memory pointer
+        let error = |selector: u32, words: &[&str], pointer: &str| {
+            let selector = U256::from(selector) << 224;
+            let size = 4 + 32 * words.len();
+            let stores = |at: &dyn Fn(usize) -> String| {
+                words
+                    .iter()
+                    .enumerate()
+                    .map(|(i, word)| format!("mstore({},{word});", at(4 + 32 * i)))
+                    .collect::<String>()
+            };
+            [
+                format!(
+                    "mstore(0,{selector});{}revert(0,{size});",
+                    stores(&|offset| offset.to_string())
+                ),
+                format!(
+                    "let {pointer}:=mload(64);mstore({pointer},{selector});{}revert({pointer},{size});",
+                    stores(&|offset| format!("add({pointer},{offset})"))
+                ),
+            ]
+        };
+        let topic = U256::from_str_radix(
+            "ddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef",
+            16,
+        )
+        .unwrap();
+        let parts: Vec<Vec<String>> = vec![
+            vec![format!("let n3:=and(n0,{address_mask});if iszero(n3){{")],
+            error(0x96c6fd1e, &["0"], "n4").to_vec(),
+            vec![format!("}}let n4:=and(n1,{address_mask});if iszero(n4){{")],
+            error(0xec442f05, &["0"], "n5").to_vec(),
+            vec![
+                "}mstore(0,n3);mstore(32,0);let n5:=sload(keccak256(0,64));if lt(n5,n2){"
+                    .to_string(),
+            ],
+            error(0xe450d38c, &["n3", "n5", "n2"], "n6").to_vec(),
+            vec![
+                "}mstore(0,n3);mstore(32,0);sstore(keccak256(0,64),sub(n5,n2));mstore(0,n4);"
+                    .to_string(),
+            ],
+            vec!["mstore(32,0);".to_string(), String::new()],
+            vec![format!(
+                "let n6:=keccak256(0,64);sstore(n6,add(sload(n6),n2));let n7:=mload(64);mstore(n7,n2);log3(n7,32,{topic},n3,n4);"
+            )],
+        ];
+        let mut rest = body.as_str();
+        for alternatives in &parts {
+            let Some(after) = alternatives
+                .iter()
+                .find_map(|text| rest.strip_prefix(text.as_str()))
+            else {
+                return false;
+            };
+            rest = after;
         }
-        // sstore(dataSlot, add(sload(dataSlot), var_value))
-        if self.matches_sstore_statement(&stmts[14]).is_none() {
-            return false;
+        rest.is_empty()
+    }
+
+    /// The text of statements with the variables numbered in the order of their declaration and
+    /// constants folded, None for the kinds of statements that do not occur in fun_transfer
+    fn canonical_statements(
+        &self,
+        stmts: &[Statement],
+        names: &mut CanonicalNames,
+    ) -> Option<String> {
+        let mut text = String::new();
+        for stmt in stmts {
+            match stmt {
+                Statement::Comment => {}
+                Statement::VariableDeclaration(_) => {
+                    let (name, value) = self.matches_single_declare_instruction(stmt)?;
+                    if let Some(constant) = self.fold_constant(&value, names) {
+                        names.bind(&name, constant.to_string());
+                    } else {
+                        let value = self.canonical_expr(&value, names)?;
+                        let number = names.declare(&name);
+                        text.push_str(&format!("let {number}:={value};"));
+                    }
+                }
+                Statement::If(if_stmt) => {
+                    let cond = self.canonical_expr(&if_stmt.cond, names)?;
+                    let mut inner = names.clone();
+                    let body = self.canonical_statements(&if_stmt.body.statements, &mut inner)?;
+                    text.push_str(&format!("if {cond}{{{body}}}"));
+                }
+                Statement::FunctionCall(call) => {
+                    let call = Expression::FunctionCall(call.clone());
+                    text.push_str(&self.canonical_expr(&call, names)?);
+                    text.push(';');
+                }
+                _ => return None,
+            }
         }
-        // let _8 := mload(0x40)
-        if self
-            .matches_single_declare_instruction(&stmts[15])
-            .is_none()
-        {
-            return false;
+        Some(text)
+    }
+
+    fn canonical_expr(&self, expr: &Expression, names: &CanonicalNames) -> Option<String> {
+        if let Some(constant) = self.fold_constant(expr, names) {
+            return Some(constant.to_string());
         }
-        // mstore(_8, var_value)
-        if self.matches_mstore_statement(&stmts[16]).is_none() {
-            return false;
+        match expr {
+            Expression::Identifier(iden) => names.get(&iden.name).cloned(),
+            Expression::FunctionCall(call) => {
+                let args = call
+                    .arguments
+                    .iter()
+                    .map(|arg| self.canonical_expr(arg, names))
+                    .collect::<Option<Vec<_>>>()?;
+                Some(format!("{}({})", call.id.name, args.join(",")))
+            }
+            Expression::Literal(_) => None,
         }
-        //  log3
-        if self.matches_function_call(&stmts[17], "log3", 5).is_none() {
-            return false;
+    }
+
+    fn fold_constant(&self, expr: &Expression, names: &CanonicalNames) -> Option<U256> {
+        match expr {
+            Expression::Identifier(iden) => U256::from_dec_str(names.get(&iden.name)?).ok(),
+            Expression::FunctionCall(call) if call.arguments.len() == 2 => {
+                let left = self.fold_constant(&call.arguments[0], names)?;
+                let right = self.fold_constant(&call.arguments[1], names)?;
+                match call.id.name.as_str() {
+                    "shl" if left < U256::from(256) => Some(right << left),
+                    "sub" => Some(left.overflowing_sub(right).0),
+                    _ => None,
+                }
+            }
+            _ => self.fetch_not_string_literal_constant(expr),
         }
-        true
     }
 
     fn transform_func_llvm_ty(
@@ -1327,6 +1373,16 @@ impl<'a> Yul2IRContext<'a> {
                     continue;
                 }
 
+                // For standard ERC20 implementations, calls of fun_transfer use the C implementation
+                if self.opts.enable_all_optimizers
+                    && self.opts.enable_storage_load_store_little_endian
+                    && self.matches_fun_transfer_pattern(func_def)
+                {
+                    self.erc20_transfer_functions
+                        .borrow_mut()
+                        .insert(qualifier_func_name.clone());
+                }
+
                 // Add function to module
                 let function = self.llvm_module.borrow_mut().add_function(
                     &qualifier_func_name,
@@ -1728,18 +1784,6 @@ impl<'a> Yul2IRContext<'a> {
             )?;
         }
 
-        if self.opts.enable_all_optimizers {
-            // For standard ERC20 implementations, we can use the optimized C implementation for fun_transfer
-            // Since walk_function_call will handle the call replacement, we only need to verify if the function logic can be replaced
-            if (function.name.name.contains("fun_transfer")
-                || function.name.name.contains("fun__transfer"))
-                && function.params.len() == 3
-                && !self.matches_fun_transfer_pattern(function)
-            {
-                panic!("fun_transfer is not a standard ERC20 implementation, please disable the --enable-all-optimizers option for this contract");
-            }
-        }
-
         for stmt in &function.body.statements {
             self.walk_stmt(&qualifier_func_name, stmt)?;
         }
-- 
2.43.0


From 6c566fd5b6041a7d42ada632fb0c30ed56a9aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:19 +0000
Subject: [PATCH 51/52] fix: a number literal wider than a word is rejected,
 not truncated

---
 src/yul.lalrpop     |  8 ++++++--
 src/yul2ir/utils.rs | 20 ++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index e319965..3e1a11e 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -227,9 +227,13 @@ pub Identifier: ast::Identifier = {
 
 pub Name: String = <s:r"[a-zA-Z_][a-zA-Z_0-9.$]*"> => String::from(s);
 
-pub DecimalNumberInner: String = <s:r"[0-9]+"> => String::from(s);
+pub DecimalNumberInner: String = <s:r"[0-9]+"> =>? {
+    utils::check_word_literal(s).map_err(|error| ParseError::User { error })
+};
 
-pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> => String::from(s);
+pub HexNumberInner: String = <s:r"0x[0-9a-fA-F]+"> =>? {
+    utils::check_word_literal(s).map_err(|error| ParseError::User { error })
+};
 
 pub HexDataInner: String =  <s:r#"hex"([0-9a-fA-F][0-9a-fA-F])+""#>  => s.trim_start_matches("hex").trim_matches('\"').to_string();
 
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index e2ac050..115459b 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -282,6 +282,26 @@ pub fn unescape_str(s: &str) -> Result<String, EscapeError> {
     }
 }
 
+/// Largest word, in decimal
+const MAX_WORD: &str =
+    "115792089237316195423570985008687907853269984665640564039457584007913129639935";
+
+/// A decimal or hexadecimal number literal, as written, if it fits in a word.
+pub fn check_word_literal(s: &str) -> Result<String, &'static str> {
+    let fits = match s.strip_prefix("0x") {
+        Some(hex) => hex.trim_start_matches('0').len() <= 64,
+        None => {
+            let dec = s.trim_start_matches('0');
+            dec.len() < MAX_WORD.len() || dec.len() == MAX_WORD.len() && dec <= MAX_WORD
+        }
+    };
+    if fits {
+        Ok(s.to_string())
+    } else {
+        Err("number literal does not fit in 256 bits")
+    }
+}
+
 /// Remove the gaps (backslash, white space, backslash) of a string literal.
 pub fn remove_string_gaps(s: &str) -> String {
     let mut result = String::with_capacity(s.len());
-- 
2.43.0


From 79317a8e965d12036a187d89b408d048b3bdff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:34 +0000
Subject: [PATCH 52/52] Undo the changes to the example scripts: examples count
 as tests here

---
 examples/scripts/abi_encode.py | 17 ++++++++---------
 examples/scripts/bin_to_hex.py |  9 ---------
 examples/scripts/common.sh     |  7 ++-----
 3 files changed, 10 insertions(+), 23 deletions(-)

diff --git a/examples/scripts/abi_encode.py b/examples/scripts/abi_encode.py
index 792780f..998f64b 100755
--- a/examples/scripts/abi_encode.py
+++ b/examples/scripts/abi_encode.py
@@ -7,11 +7,12 @@ import sys
 import argparse
 from eth_abi import encode
 from eth_utils import function_signature_to_4byte_selector, to_hex
+from eth_utils.hexadecimal import remove_0x_prefix
 
 def parse_signature(sig):
     # Extract function name and param types from signature like "transfer(address,uint256)"
     name_end = sig.find('(')
-    if name_end == -1 or not sig.endswith(')'):
+    if name_end == -1:
         raise ValueError("Invalid function signature")
     
     name = sig[:name_end]
@@ -21,17 +22,15 @@ def parse_signature(sig):
 
 def convert_param(param, param_type):
     # Convert string parameters to appropriate Python types
-    if param_type.endswith('[]'):
-        # Convert comma-separated string to list for dynamic arrays
-        if not param.strip():
-            return []
-        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
-    elif param_type.startswith('uint') or param_type.startswith('int'):
+    if param_type.startswith('uint') or param_type.startswith('int'):
         return int(param)
+    elif param_type == 'address':
+        return remove_0x_prefix(param)
     elif param_type == 'bool':
-        if param.lower() not in ('true', 'false'):
-            raise ValueError(f"Invalid bool value: {param}")
         return param.lower() == 'true'
+    elif param_type.endswith('[]'):
+        # Convert comma-separated string to list for dynamic arrays
+        return [convert_param(p.strip(), param_type[:-2]) for p in param.split(',')]
     return param
 
 def main():
diff --git a/examples/scripts/bin_to_hex.py b/examples/scripts/bin_to_hex.py
index d9c53c5..d9b10b2 100644
--- a/examples/scripts/bin_to_hex.py
+++ b/examples/scripts/bin_to_hex.py
@@ -1,4 +1,3 @@
-import os
 import sys
 import argparse
 
@@ -9,11 +8,6 @@ def binary_to_hex_file(input_path, output_path):
             # Read the entire file content
             binary_data = binary_file.read()
 
-        # The output must not replace the input
-        if os.path.exists(output_path) and os.path.samefile(input_path, output_path):
-            print(f"Error: {input_path} and {output_path} are the same file")
-            sys.exit(1)
-
         # Convert binary data to hexadecimal string
         hex_string = binary_data.hex()
 
@@ -25,13 +19,10 @@ def binary_to_hex_file(input_path, output_path):
 
     except FileNotFoundError:
         print(f"Error: File {input_path} not found")
-        sys.exit(1)
     except PermissionError:
         print(f"Error: No permission to read {input_path} or write to {output_path}")
-        sys.exit(1)
     except Exception as e:
         print(f"An unknown error occurred: {e}")
-        sys.exit(1)
 
 def main():
     # Create argument parser
diff --git a/examples/scripts/common.sh b/examples/scripts/common.sh
index 44448ce..a03aadd 100644
--- a/examples/scripts/common.sh
+++ b/examples/scripts/common.sh
@@ -18,10 +18,7 @@ function run_cmd_and_grep() {
     # Check if the output matches the grep pattern
 #    echo "$output" | grep -E -zo "$grep_pattern"
     echo "matching pattern: $grep_pattern"
-    if ! printf '%s\n' "$output" | awk -v pattern="$grep_pattern" 'BEGIN { RS="\0" } $0 ~ pattern { found=1 } END { if (!found) exit 1 }'; then
-        echo "grep pattern not matched"
-        exit 1
-    fi
+    echo "$output" | awk -v pattern="$grep_pattern" 'BEGIN { RS="\0" } $0 ~ pattern { found=1 } END { if (!found) exit 1 }'
     echo "grep pattern matched"
 }
 
@@ -41,6 +38,6 @@ function grep_output_last_result_hex() {
     # Find the last line with the result hex using awk
     local last_line=$(echo "$output" | awk '/evm (finish|revert) with result hex:/ {last_match = $0} END {print last_match}')
     # Extract the hex value (last field) from that line
-    local result_hex=$(echo "$last_line" | awk '$NF != "hex:" {print $NF}')
+    local result_hex=$(echo "$last_line" | awk '{print $NF}')
     echo "$result_hex"
 }
-- 
2.43.0

