From e260ce27db9e1d3d2b04f78e3a5ffa53d6c050bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 01/52] fix: end a block comment at the first */ also after a
 run of stars

remove_comments consumed the character after every '*' of a comment, so
that /***/ or a comment ending in **/ swallowed the program after it.
---
 src/yul2ir/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 559962d..8354d67 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -391,13 +391,13 @@ pub fn remove_comments(code: &str) -> String {
                         '*' => {
                             in_multiline = true;
                             // Skip until matching */
-                            while let Some(c) = chars.next() {
-                                if c == '*' {
-                                    if let Some('/') = chars.next() {
-                                        in_multiline = false;
-                                        break;
-                                    }
+                            let mut after_star = false;
+                            for c in chars.by_ref() {
+                                if after_star && c == '/' {
+                                    in_multiline = false;
+                                    break;
                                 }
+                                after_star = c == '*';
                             }
                         }
                         _ => {
-- 
2.43.0


From e654674dda7bec57a094317bfdfe1b073ccaea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 02/52] fix: an escaped quote does not end a string for
 remove_comments

A string holding \" was taken to end there, so that a // after it was
removed from the string, and a comment after the string was kept.
---
 src/yul2ir/utils.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 8354d67..1fe2109 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -376,6 +376,22 @@ pub fn remove_comments(code: &str) -> String {
                 }
                 result.push(c);
             }
+            '\\' if in_string => {
+                // An escaped quote does not end the string
+                result.push(c);
+                if let Some(escaped) = chars.next() {
+                    result.push(escaped);
+                    if matches!(escaped, ' ' | '\n' | '\t' | '\r' | '\x0c') {
+                        // A gap: whitespace up to the next backslash
+                        for c in chars.by_ref() {
+                            result.push(c);
+                            if c == '\\' {
+                                break;
+                            }
+                        }
+                    }
+                }
+            }
             '/' if !in_string => {
                 if let Some(next) = chars.next() {
                     match next {
-- 
2.43.0


From 8d51ea4e21e3197d25eaa8482b24b6f560176bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 03/52] fix: reject a string literal whose escapes the decoder
 cannot represent

The grammar accepts \x80 to \xFF, \u{D800} to \u{DFFF} and a raw carriage
return, which the decoder refuses; the literal's value then silently became
the text '<Lexer error: string: ...>' followed by the rest of the literal.
---
 src/yul.lalrpop     |  7 +++++--
 src/yul2ir/utils.rs | 13 ++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 8a85e8e..5177f3d 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -4,6 +4,7 @@
 
 use crate::yul2ir::ast;
 use crate::yul2ir::utils;
+use lalrpop_util::ParseError;
 use regex::Regex;
 
 grammar;
@@ -235,12 +236,14 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
-pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> => {
+pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
     let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
     let mut s = String::from(escape_ignore_reg.replace(s, ""));
     s.remove(0);
     s.pop();
-    utils::unescape_str_wrap_error(s.as_str())
+    utils::unescape_str(s.as_str()).map_err(|_| ParseError::User {
+        error: "string literal with an escape sequence that is not a character",
+    })
 };
 
 pub SingleLineComment: String = <s:r"//[^\n]*\n"> => String::from(s);
diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 1fe2109..544b72d 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -268,23 +268,22 @@ fn is_ascii(x: u32) -> bool {
     x <= 0x7F
 }
 
-/// Unescape string wrapping errors
-pub fn unescape_str_wrap_error(s: &str) -> String {
+/// Unescape string, or report the first escape that does not denote a character
+pub fn unescape_str(s: &str) -> Result<String, EscapeError> {
     if s.contains(&['\\', '\r'][..]) {
         let mut buf = String::with_capacity(s.len());
-        let mut error = false;
+        let mut error = None;
         unescape_str_or_byte_str(s, Mode::Str, &mut |_, unescaped_char| {
             match unescaped_char {
                 Ok(c) => buf.push(c),
                 Err(e) => {
-                    error = true;
-                    buf = format!("<Lexer error: string: {e:?}>");
+                    error.get_or_insert(e);
                 }
             };
         });
-        buf
+        error.map_or(Ok(buf), Err)
     } else {
-        s.to_string()
+        Ok(s.to_string())
     }
 }
 
-- 
2.43.0


From 0e1afe55069ebf5f5b6d61f0ac06622c370092c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 04/52] fix: drop every line-continuation gap of a string
 literal, and only those

Only the first gap of a literal was dropped, and the second backslash of an
escaped backslash before a space was taken for the start of one.
---
 src/yul.lalrpop | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul.lalrpop b/src/yul.lalrpop
index 5177f3d..5a0866b 100644
--- a/src/yul.lalrpop
+++ b/src/yul.lalrpop
@@ -237,8 +237,10 @@ pub HexDataInner: String =  <s:r#"hex"[0-9a-fA-F]+""#>  => s.trim_start_matches(
 pub DataSegmentWithNameInner: String =  <s:r#"data "[a-zA-Z_0-9.]+""#>  => s.trim_start_matches("data").trim_matches(' ').trim_matches('\"').to_string();
 
 pub StringInner: String = <s:r#""((\\("|\\|n|t|(x[0-9A-F][0-9A-F])|(u\{[0-9A-F][0-9A-F][0-9A-F][0-9A-F]\})|[ \n\t\r\f]+\\))|[^"\n\\])*""#> =>? {
-    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\").unwrap();
-    let mut s = String::from(escape_ignore_reg.replace(s, ""));
+    // Drop every gap (backslash, whitespace, backslash), but keep any other escape whole, so
+    // that the second half of an escaped backslash does not begin a gap.
+    let escape_ignore_reg = Regex::new("\\\\[ \\n\\t\\r\\f]+\\\\|(?P<escape>\\\\.)").unwrap();
+    let mut s = String::from(escape_ignore_reg.replace_all(s, "$escape"));
     s.remove(0);
     s.pop();
     utils::unescape_str(s.as_str()).map_err(|_| ParseError::User {
-- 
2.43.0


From a2cc9066b4a52dea3e89f067a420dd0d1d0436ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 05/52] fix: shift small big-endian words left in the right
 byte order

---
 stdlib/chain_math.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index 2643626..b227d39 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -158,7 +158,9 @@ void wrapper_bytes32_shl(const bytes32 *value, int32_t shift, bytes32 *result) {
     if (shift <= 32 && value_as_u64_array[0] == 0 &&
         value_as_u64_array[1] == 0 && value_as_u64_array[2] == 0 &&
         value_as_u32_array[6] == 0) {
-      uint64_t last_u64 = ((uint64_t)value_as_u32_array[7]) << shift;
+      // the words are big-endian, wasm is little-endian
+      uint64_t last_u64 = __builtin_bswap64(
+          ((uint64_t)__builtin_bswap32(value_as_u32_array[7])) << shift);
       uint64_t *result_as_u64_array = (uint64_t *)result;
       result_as_u64_array[0] = 0;
       result_as_u64_array[1] = 0;
-- 
2.43.0


From f29377528fe21f7bd6964429774eae8169bbf37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 06/52] fix: compare the bytes, not the addresses, of signed
 words of equal sign

---
 stdlib/chain_math.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stdlib/chain_math.c b/stdlib/chain_math.c
index b227d39..ed97adf 100644
--- a/stdlib/chain_math.c
+++ b/stdlib/chain_math.c
@@ -58,9 +58,9 @@ BOOL wrapper_bytes32_slt(const bytes32 *a, const bytes32 *b) {
   // If signs are the same, perform comparison based on magnitude
   // For signed comparison, the rest of the bytes are compared normally
   for (int i = 0; i < 32; i++) {
-    if (a[i] < b[i]) {
+    if (a_bytes[i] < b_bytes[i]) {
       return 1; // a is smaller
-    } else if (a[i] > b[i]) {
+    } else if (a_bytes[i] > b_bytes[i]) {
       return 0; // a is larger
     }
   }
@@ -81,9 +81,9 @@ BOOL wrapper_bytes32_sgt(const bytes32 *a, const bytes32 *b) {
 
   // If signs are the same, perform comparison based on magnitude
   for (int i = 0; i < 32; i++) {
-    if (a[i] > b[i]) {
+    if (a_bytes[i] > b_bytes[i]) {
       return 1; // a is larger
-    } else if (a[i] < b[i]) {
+    } else if (a_bytes[i] < b_bytes[i]) {
       return 0; // a is smaller
     }
   }
-- 
2.43.0


From 14da56fdc63c6facc9182d7e3e4f5a04505c7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 07/52] fix: sign-extend from bit positions past 63

---
 stdlib/chain.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 327c232..78363d4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -889,15 +889,15 @@ void wrapper_sign_extend(uint32_t bits, uint256_t *value_ptr,
   // the original value's sign bit, and extends the bits preceding the specified
   // byte count (b) according to the most significant bit's sign.
   uint256_t value = *value_ptr;
-  if (bits > 31) {
+  if (bits >= 31) {
     *result = value;
-    return; // If b is greater than 31, return the original value
+    return; // If b is 31 or greater, return the original value
   }
   // Calculate the number of bits to extend
   unsigned int bits_to_extend = (bits + 1) * 8;
 
   // Create the mask for the sign bit
-  uint256_t sign_bit_mask = 1ULL << (bits_to_extend - 1);
+  uint256_t sign_bit_mask = ((uint256_t)1) << (bits_to_extend - 1);
   uint256_t extension_mask = ~((((uint256_t)1) << bits_to_extend) - 1);
 
   // Check the sign bit
-- 
2.43.0


From 39c1fc0a1b829b597fc5319db4299f5576f08f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:38 +0000
Subject: [PATCH 08/52] fix: reading EVM memory expands it like writing does

---
 stdlib/chain.c      | 36 ++++++++++++++++++------------------
 stdlib/evm_memory.c |  7 +++++++
 stdlib/evm_memory.h |  5 +++++
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 78363d4..01ec326 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -229,7 +229,7 @@ void wrapper_self_balance(uint256_t *result) {
 }
 
 void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
-  uint8_t *error_msg_ptr = evm_get_memory_addr(error_msg_evm_mem);
+  uint8_t *error_msg_ptr = evm_access_memory(error_msg_evm_mem, size);
   revert((ADDRESS_UINT)error_msg_ptr, size);
 }
 
@@ -355,12 +355,12 @@ void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
 }
 
 void wrapper_mload_u256(int32_t evm_mem, uint256_t *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   u256_from_big_endian_bytes(memory_ptr, result);
 }
 
 uint32_t wrapper_mload_u32(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Read 4 bytes in big-endian order from the last 4 bytes of the 32-byte slot
   uint32_t result = 0;
   for (int i = 0; i < 4; i++) {
@@ -370,7 +370,7 @@ uint32_t wrapper_mload_u32(int32_t evm_mem) {
 }
 
 uint64_t wrapper_mload_u64(int32_t evm_mem) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Read 8 bytes in big-endian order from the last 8 bytes of the 32-byte slot
   uint64_t result = 0;
   for (int i = 0; i < 8; i++) {
@@ -380,7 +380,7 @@ uint64_t wrapper_mload_u64(int32_t evm_mem) {
 }
 
 void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, 32);
   // Copy all 32 bytes directly
   memcpy(result, memory_ptr, 32);
 }
@@ -388,7 +388,7 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
-  uint8_t *src_memory = evm_get_memory_addr(evm_src);
+  uint8_t *src_memory = evm_access_memory(evm_src, size);
   memcpy(dst_memory, src_memory, size);
 }
 
@@ -493,12 +493,12 @@ void wrapper_loadimmutable(uint256_t *slot_ptr, uint256_t *result) {
 }
 
 void wrapper_keccak256(int32_t evm_mem, uint32_t size, bytes32 *result) {
-  uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(evm_mem, size);
   keccak256((ADDRESS_UINT)memory_ptr, size, (ADDRESS_UINT)result);
 }
 
 void wrapper_return(int32_t src_evm_mem, uint32_t size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(src_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(src_evm_mem, size);
   finish((ADDRESS_UINT)memory_ptr, size);
 }
 
@@ -508,14 +508,14 @@ void wrapper_decode_big_endian_i256_from_wasm_mem(uint8_t *wasm_mem,
 }
 
 void wrapper_log0(int32_t data_evm_mem, uint32_t data_size) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
   uint32_t num_topics = 0;
   emitLogEvent((ADDRESS_UINT)memory_ptr, data_size, num_topics, 0, 0, 0, 0);
 }
 
 void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
                   bytes32 *topic0_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint32_t num_topics = 1;
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
@@ -526,7 +526,7 @@ void wrapper_log1(int32_t data_evm_mem, uint32_t data_size,
 
 void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -539,7 +539,7 @@ void wrapper_log2(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 
 void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -555,7 +555,7 @@ void wrapper_log3(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
 void wrapper_log4(int32_t data_evm_mem, uint32_t data_size, bytes32 *topic0_ptr,
                   bytes32 *topic1_ptr, bytes32 *topic2_ptr,
                   bytes32 *topic3_ptr) {
-  uint8_t *memory_ptr = evm_get_memory_addr(data_evm_mem);
+  uint8_t *memory_ptr = evm_access_memory(data_evm_mem, data_size);
 
   uint8_t *topic0 = (uint8_t *)topic0_ptr;
   uint8_t *topic1 = (uint8_t *)topic1_ptr;
@@ -574,7 +574,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -602,7 +602,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *code_mem = evm_get_memory_addr(code_evm_mem);
+  uint8_t *code_mem = evm_access_memory(code_evm_mem, code_length);
 
   // The first 4 bytes of code_mem is a big-endian uint32_t representing the
   // wasm bytecode length The remaining bytes are calldata
@@ -687,7 +687,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
   uint8_t value_bytes[32];
   u256_to_big_endian(value_u256, value_bytes);
 
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
 
   int32_t retCode = callContract(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)&value_bytes,
@@ -704,7 +704,7 @@ int wrapper_call_contract(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
                          int32_t in_evm_offset, int32_t in_length,
                          int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
   int32_t retCode = callDelegate(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                  (ADDRESS_UINT)in_offset, in_length);
 
@@ -719,7 +719,7 @@ int wrapper_delegatecall(uint64_t gas, bytes32 *callee_addr_ptr,
 int wrapper_staticcall(uint64_t gas, bytes32 *callee_addr_ptr,
                        int32_t in_evm_offset, int32_t in_length,
                        int32_t out_evm_offset, int32_t out_length) {
-  uint8_t *in_offset = evm_get_memory_addr(in_evm_offset);
+  uint8_t *in_offset = evm_access_memory(in_evm_offset, in_length);
   int32_t retCode = callStatic(gas, 12 + (ADDRESS_UINT)callee_addr_ptr,
                                (ADDRESS_UINT)in_offset, in_length);
   if (retCode != 0 && is_precompiled_contract(callee_addr_ptr)) {
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index bdafd56..d573ccf 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -78,6 +78,13 @@ uint8_t *evm_make_sure_memory(uint32_t size) {
   return evm_memory_begin;
 }
 
+uint8_t *evm_access_memory(int32_t offset, uint32_t size) {
+  if (offset >= 0 && size > 0) {
+    evm_make_sure_memory((uint32_t)offset + size);
+  }
+  return evm_get_memory_addr(offset);
+}
+
 uint8_t *evm_get_memory_addr(int32_t offset) {
   return evm_memory_begin + offset;
 }
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index b96cf31..4376378 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -19,6 +19,11 @@ void __init_evm_heap(int32_t try_new_wasm_page_as_evm_heap_bool);
 // modifications
 uint8_t *evm_make_sure_memory(uint32_t size);
 
+// Ensures that the EVM memory range [offset, offset + size) can be accessed and
+// returns its address. Accessing no bytes does not expand the memory, and a
+// negative offset refers to the non-EVM memory region
+uint8_t *evm_access_memory(int32_t offset, uint32_t size);
+
 // Returns the memory address at the given offset
 // If offset < 0, copies data from non-EVM memory region
 uint8_t *evm_get_memory_addr(int32_t offset);
-- 
2.43.0


From 0c39182b5ee82e9a339771fbfa53a64d298210bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 09/52] fix: mcopy copies overlapping areas correctly

---
 stdlib/chain.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 01ec326..218e097 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -385,11 +385,22 @@ void wrapper_mload_bytes32(int32_t evm_mem, bytes32 *result) {
   memcpy(result, memory_ptr, 32);
 }
 
+// The source and the destination may overlap
+static void copy_memory(uint8_t *dst, const uint8_t *src, uint32_t size) {
+  if (dst <= src) {
+    memcpy(dst, src, size);
+    return;
+  }
+  while (size--) {
+    dst[size] = src[size];
+  }
+}
+
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
   evm_make_sure_memory(evm_dst + size);
   uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
   uint8_t *src_memory = evm_access_memory(evm_src, size);
-  memcpy(dst_memory, src_memory, size);
+  copy_memory(dst_memory, src_memory, size);
 }
 
 void wrapper_sstore_u256(uint256_t *slot_ptr, uint256_t *value_ptr) {
-- 
2.43.0


From f76c796763ec979fe294235244cf3c120dfd480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 10/52] fix: msize is the size of the EVM memory in use

---
 stdlib/chain.c      | 22 ++++++++--------------
 stdlib/evm_memory.c |  2 ++
 stdlib/evm_memory.h |  3 +++
 3 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 218e097..bd1c09f 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -236,8 +236,7 @@ void wrapper_revert(int32_t error_msg_evm_mem, uint32_t size) {
 void wrapper_stop() { finish(0, 0); }
 void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
                       uint32_t size) {
-  evm_make_sure_memory(target_evm_mem_offset + size);
-  uint8_t *target_mem_ptr = evm_get_memory_addr(target_evm_mem_offset);
+  uint8_t *target_mem_ptr = evm_access_memory(target_evm_mem_offset, size);
   // For Yul, codecopy is sometimes used to copy actual calldata during contract
   // deployment (since in EVM, when deploying a contract, the contract bytecode
   // is init_code + calldata) However, this is different from WASM design. In
@@ -349,7 +348,7 @@ void wrapper_mstore_u64(int32_t evm_mem, uint64_t value) {
 
 void wrapper_mstore_u8(int32_t evm_mem, uint8_t value) {
   // Automatically expand memory if it exceeds EVM accessible memory
-  evm_make_sure_memory(evm_mem + 32);
+  evm_make_sure_memory(evm_mem + 1);
   uint8_t *memory_ptr = evm_get_memory_addr(evm_mem);
   *memory_ptr = value & 0xff;
 }
@@ -397,8 +396,7 @@ static void copy_memory(uint8_t *dst, const uint8_t *src, uint32_t size) {
 }
 
 void wrapper_mcopy(int32_t evm_dst, int32_t evm_src, uint32_t size) {
-  evm_make_sure_memory(evm_dst + size);
-  uint8_t *dst_memory = evm_get_memory_addr(evm_dst);
+  uint8_t *dst_memory = evm_access_memory(evm_dst, size);
   uint8_t *src_memory = evm_access_memory(evm_src, size);
   copy_memory(dst_memory, src_memory, size);
 }
@@ -789,7 +787,7 @@ void wrapper_exp(uint256_t *base_ptr, uint256_t *exp_ptr, uint256_t *result) {
 }
 
 uint64_t wrapper_memory_size() {
-  return (uint64_t)__builtin_wasm_memory_size(0);
+  return (uint64_t)evm_get_memory_size();
 }
 
 uint64_t wrapper_gas() { return (uint64_t)getGasLeft(); }
@@ -810,8 +808,7 @@ uint32_t wrapper_returndata_size() { return (uint32_t)getReturnDataSize(); }
 
 void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
                            uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_access_memory(dst_evm, len);
 
   // For out of bound bytes, 0s will be copied.
   uint32_t calldata_size = cachedCallDataSize();
@@ -828,8 +825,7 @@ void wrapper_calldata_copy(int32_t dst_evm, uint32_t calldata_offset,
 
 void wrapper_returndata_copy(int32_t dst_evm, uint32_t return_data_offset,
                              uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst_memory_ptr = evm_get_memory_addr(dst_evm);
+  uint8_t *dst_memory_ptr = evm_access_memory(dst_evm, len);
 
   returnDataCopy((ADDRESS_UINT)dst_memory_ptr, (uint32_t)return_data_offset,
                  len);
@@ -863,8 +859,7 @@ uint32_t wrapper_extcode_size(bytes32 *addr_ptr) {
 
 void wrapper_extcode_copy(bytes32 *addr_ptr, int32_t dst_evm, uint32_t offset,
                           uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_access_memory(dst_evm, len);
   externalCodeCopy(12 + (ADDRESS_UINT)addr_ptr, (ADDRESS_UINT)dst, offset, len);
 }
 
@@ -888,8 +883,7 @@ void wrapper_extcode_hash(bytes32 *addr_ptr, bytes32 *result) {
 }
 
 void wrapper_data_copy(int32_t dst_evm, int32_t src_evm, uint32_t len) {
-  evm_make_sure_memory(dst_evm + len);
-  uint8_t *dst = evm_get_memory_addr(dst_evm);
+  uint8_t *dst = evm_access_memory(dst_evm, len);
   uint8_t *src = evm_get_memory_addr(src_evm);
   memcpy(dst, src, len);
 }
diff --git a/stdlib/evm_memory.c b/stdlib/evm_memory.c
index d573ccf..eff3566 100644
--- a/stdlib/evm_memory.c
+++ b/stdlib/evm_memory.c
@@ -78,6 +78,8 @@ uint8_t *evm_make_sure_memory(uint32_t size) {
   return evm_memory_begin;
 }
 
+uint32_t evm_get_memory_size() { return (evm_memory_size + 31) & ~31u; }
+
 uint8_t *evm_access_memory(int32_t offset, uint32_t size) {
   if (offset >= 0 && size > 0) {
     evm_make_sure_memory((uint32_t)offset + size);
diff --git a/stdlib/evm_memory.h b/stdlib/evm_memory.h
index 4376378..360ba92 100644
--- a/stdlib/evm_memory.h
+++ b/stdlib/evm_memory.h
@@ -24,6 +24,9 @@ uint8_t *evm_make_sure_memory(uint32_t size);
 // negative offset refers to the non-EVM memory region
 uint8_t *evm_access_memory(int32_t offset, uint32_t size);
 
+// Returns the size in bytes of the EVM memory in use, a multiple of 32
+uint32_t evm_get_memory_size();
+
 // Returns the memory address at the given offset
 // If offset < 0, copies data from non-EVM memory region
 uint8_t *evm_get_memory_addr(int32_t offset);
-- 
2.43.0


From 90beae54473e951a9bb93c93dd2e5504987839a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 11/52] fix: calldataload past the end of the call data gives
 zero

---
 stdlib/chain.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index bd1c09f..c5647a4 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -95,7 +95,9 @@ static void cachedCallDataCopy(int32_t /* uint8_t* */ memory_ptr,
 void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
   uint32_t calldata_size = cachedCallDataSize();
   uint8_t data[32] = {0};
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // nothing to read, all bytes are zeros
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
@@ -107,7 +109,10 @@ void wrapper_calldataload_u256(uint32_t calldata_offset, uint256_t *result) {
 }
 void wrapper_calldataload_bytes32(uint32_t calldata_offset, bytes32 *result) {
   uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + 32 > calldata_size)) {
+  if (calldata_offset >= calldata_size) {
+    // nothing to read, all bytes are zeros
+    __memset(result, 0, sizeof(bytes32));
+  } else if (calldata_size - calldata_offset < 32) {
     // If calldata is insufficient, read remaining part to the front of data
     // array The rest is already padded with zeros
     uint32_t read_count = calldata_size - calldata_offset;
-- 
2.43.0


From f265cf08965a23210a0fddd12315a7c37efb864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 12/52] fix: codecopy across and up to the end of the code and
 of the deployment arguments

---
 stdlib/chain.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index c5647a4..d079352 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -259,25 +259,33 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
     return;
   }
 
-  int32_t cur_code_size = getCodeSize();
-
-  if ((evm_memory_offset + size) < cur_code_size) {
+  uint32_t code_offset = evm_memory_offset;
+  uint32_t cur_code_size = getCodeSize();
+  if (code_offset < cur_code_size) {
     // Copy current WASM contract bytecode
-    codeCopy((ADDRESS_UINT)target_mem_ptr, evm_memory_offset, size);
-    return;
-  }
-  // Copy actual calldata, input parameter is wasm code size + calldata_offset
-  int32_t calldata_offset = evm_memory_offset - cur_code_size;
-
-  if (calldata_offset < 0) {
-    __builtin_unreachable();
+    uint32_t available = cur_code_size - code_offset;
+    uint32_t code_part = size < available ? size : available;
+    codeCopy((ADDRESS_UINT)target_mem_ptr, code_offset, code_part);
+    target_mem_ptr += code_part;
+    code_offset += code_part;
+    size -= code_part;
   }
-  uint32_t calldata_size = cachedCallDataSize();
-  if ((calldata_offset + size) > calldata_size) {
-    // Only 4 bytes larger might be the input size
-    __builtin_unreachable();
+  if (size > 0 && is_deploying_tx()) {
+    // Copy actual calldata, which follows the code in a deployment: input
+    // parameter is wasm code size + calldata_offset
+    uint32_t calldata_offset = code_offset - cur_code_size;
+    uint32_t calldata_size = cachedCallDataSize();
+    if (calldata_offset < calldata_size) {
+      uint32_t available = calldata_size - calldata_offset;
+      uint32_t calldata_part = size < available ? size : available;
+      cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset,
+                         calldata_part);
+      target_mem_ptr += calldata_part;
+      size -= calldata_part;
+    }
   }
-  cachedCallDataCopy((ADDRESS_UINT)target_mem_ptr, calldata_offset, size);
+  // For out of bound bytes, 0s will be copied.
+  __memset(target_mem_ptr, 0, size);
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-- 
2.43.0


From cce4e9720ac4a998ca1a25f929c33b38cfd76465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:49 +0000
Subject: [PATCH 13/52] fix: prevrandao is a full 32-byte value

---
 stdlib/chain.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index d079352..83bdaa0 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -196,8 +196,7 @@ void wrapper_block_coin_base(bytes32 *result) {
 }
 
 void wrapper_block_prevRandao(bytes32 *result) {
-  getBlockPrevRandao(12 + (ADDRESS_UINT)result); // 32 bytes
-  clear_first_12_bytes(result);
+  getBlockPrevRandao((ADDRESS_UINT)result); // 32 bytes
 }
 
 void wrapper_callvalue(uint256_t *result) {
-- 
2.43.0


From 73a3d72f4f3c11d5ad38e6878ef28ef4aa7e2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:17 +0000
Subject: [PATCH 14/52] fix: allocate_memory rounds the size up, not the
 address, and may allocate nothing

---
 stdlib/chain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 83bdaa0..ca4235b 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1017,8 +1017,8 @@ int32_t wrapper_allocate_memory(uint32_t size) {
   //     mstore(64, newFreePtr)
   // }
   int32_t mem_ptr = wrapper_get_memptr_global();
-  int32_t new_free_ptr = mem_ptr + (size + 31) & ~31;
-  if (new_free_ptr <= mem_ptr) {
+  int32_t new_free_ptr = mem_ptr + ((size + 31) & ~31);
+  if (new_free_ptr < mem_ptr) {
     __abort("allocate memory failed");
   }
   wrapper_set_memptr_global(new_free_ptr);
-- 
2.43.0


From 48e7ff01175da4edbddbac0705e98e541b3ef554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 15/52] fix: the built-in token transfer ignores the upper
 bytes of addresses

---
 stdlib/chain.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ca4235b..ea19471 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -1084,6 +1084,14 @@ void wrapper_optimized_erc20_fun_transfer(bytes32 *from, bytes32 *to,
   //     0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef, _1,
   //     _3)
   // }
+  // like _1 and _3, only the lower 20 bytes are the addresses
+  bytes32 clean_from, clean_to;
+  memcpy(clean_from, from, sizeof(bytes32));
+  memcpy(clean_to, to, sizeof(bytes32));
+  clear_first_12_bytes(&clean_from);
+  clear_first_12_bytes(&clean_to);
+  from = &clean_from;
+  to = &clean_to;
   if (is_zero_address(((uint8_t *)from) + 12)) {
     // shl(225, 0x4b637e8f) ==
     // 0x96c6fd1e00000000000000000000000000000000000000000000000000000000
-- 
2.43.0


From 7bfb63bae0a4ed5f3dc4253371fec96ff84b0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 16/52] fix: stack slots are taken once per function, and
 variables own their 32 bytes

An alloca in a loop body took new stack space on every iteration, so that a
loop of a few hundred iterations exhausted the stack. All slots now belong to
the entry block. A variable initialised from a bytes32 pointer copies the
content instead of keeping the pointer, which may be another variable's
storage.
---
 src/yul2ir/context.rs   | 19 +++++++++++++++++--
 src/yul2ir/transform.rs | 20 +++++++++++++-------
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index df88f63..cf739e0 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -1281,14 +1281,29 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
+    /// Stack slots belong to the entry block of the function: an alloca that is executed by every
+    /// iteration of a loop takes new stack space each time, until the stack is exhausted.
     #[allow(unused)]
     pub fn build_alloca<T: BasicType<'ctx>>(
         &self,
         ty: T,
         name: &str,
     ) -> Result<PointerValue<'ctx>, ASTLoweringError> {
-        self.builder
-            .borrow_mut()
+        let entry_block = self
+            .builder
+            .borrow()
+            .get_insert_block()
+            .and_then(|block| block.get_parent())
+            .and_then(|function| function.get_first_basic_block())
+            .ok_or_else(|| {
+                ASTLoweringError::BuilderError("alloca outside of a function".to_string())
+            })?;
+        let entry_builder = self.llvm_context.create_builder();
+        match entry_block.get_first_instruction() {
+            Some(first_instruction) => entry_builder.position_before(&first_instruction),
+            None => entry_builder.position_at_end(entry_block),
+        }
+        entry_builder
             .build_alloca(ty, name)
             .map_err(|e| ASTLoweringError::BuilderError(e.to_string()))
     }
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 203ba31..c14715d 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -513,15 +513,16 @@ impl<'a> Yul2IRContext<'a> {
             None => None,
         };
 
-        // If the right-hand value is bytes32*, declare a bytes32* variable and copy the value
+        // If the right-hand value is bytes32*, copy its content: the pointer may be the storage of
+        // another variable, or of an expression that is evaluated again, so it can not be kept.
         if init_val_low_level.is_some()
             && init_val_low_level.unwrap().value_type == YulLowLevelValueType::Bytes32Pointer
         {
-            let var_low_level_value_type = YulLowLevelValueType::Bytes32Pointer;
-            let ty = self.bytes32_pointer_type().as_basic_type_enum();
+            let ty = self.bytes32_type().as_basic_type_enum();
+            let content = self.try_cast(init_val_low_level.unwrap().get_value(), ty)?;
             let llvm_var = self.fast_alloca(ty, &format!("var_{name}"))?;
-            self.set_var(&name, ty, var_low_level_value_type, llvm_var, false)?;
-            self.build_store(llvm_var, init_val_low_level.unwrap().value)?;
+            self.set_var(&name, ty, YulLowLevelValueType::Bytes32, llvm_var, false)?;
+            self.build_store(llvm_var, content)?;
             return self.ok_result();
         }
 
@@ -1758,8 +1759,13 @@ impl<'a> Yul2IRContext<'a> {
         // Declare parameter variables
         for (i, param) in function.params.iter().enumerate() {
             let param_name = &param.identifier.name.clone();
-            let param_ty = infered_yul_func_ty.params_inkwell_type[i];
-            let param_low_level_value_type = infered_yul_func_ty.params[i];
+            let mut param_ty = infered_yul_func_ty.params_inkwell_type[i];
+            let mut param_low_level_value_type = infered_yul_func_ty.params[i];
+            if param_low_level_value_type == YulLowLevelValueType::Bytes32Pointer {
+                // The parameter variable has its own copy of the content
+                param_ty = self.bytes32_type().as_basic_type_enum();
+                param_low_level_value_type = YulLowLevelValueType::Bytes32;
+            }
             let param_var_pointer = self.fast_alloca(param_ty, param_name)?;
             // Store the parameter value in this variable
             let param_value = func_value.get_nth_param(i as u32).unwrap();
-- 
2.43.0


From 81736f86ba6dfee9358f4f97dab25ddbf530b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 17/52] fix: arguments are evaluated from right to left

---
 src/yul2ir/instruction.rs | 31 +++++++++++++------------------
 src/yul2ir/transform.rs   | 35 ++++++++++++-----------------------
 2 files changed, 25 insertions(+), 41 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f848a75..9dae0d7 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -441,7 +441,9 @@ impl<'a> Yul2IRContext<'a> {
         // In the fun_transfer function, the is_zero instruction is often used to check if an address is the zero address. Therefore, we prioritize parsing the argument as an address (bytes32) type to avoid unnecessary encoding and decoding.
         if yul_func_name.contains("fun_transfer") && matches!(instr, YulInstructionName::IsZero) {
             // Process the argument as expected bytes32 type and continue execution
-            let args = self.walk_args(yul_func_name, args_exprs, &[ExpectedType::Bytes32]);
+            let args = self
+                .walk_args(yul_func_name, args_exprs, &[ExpectedType::Bytes32])
+                .unwrap();
             return (None, Some(args));
         }
 
@@ -512,22 +514,15 @@ impl<'a> Yul2IRContext<'a> {
         yul_func_name: &str,
         args_exprs: &[Expression],
         arg_expected_types: &[ExpectedType],
-    ) -> Vec<YulLowLevelValue<'a>> {
-        // Evaluate each argument with its expected type
-        let args: Vec<YulLowLevelValue<'a>> = args_exprs
-            .iter()
-            .enumerate()
-            .map(|(i, arg)| {
-                let arg_expected_type = if i < arg_expected_types.len() {
-                    arg_expected_types[i]
-                } else {
-                    ExpectedType::Untyped
-                };
-                self.walk_expr_with_type(yul_func_name, arg, arg_expected_type)
-                    .unwrap()
-            })
-            .collect();
-        args
+    ) -> Result<Vec<YulLowLevelValue<'a>>, ASTLoweringError> {
+        // Yul evaluates the arguments from right to left
+        let mut args = vec![];
+        for (i, arg) in args_exprs.iter().enumerate().rev() {
+            let arg_expected_type = arg_expected_types.get(i).copied().unwrap_or_default();
+            args.push(self.walk_expr_with_type(yul_func_name, arg, arg_expected_type)?);
+        }
+        args.reverse();
+        Ok(args)
     }
 
     pub(crate) fn walk_yul_instruction(
@@ -563,7 +558,7 @@ impl<'a> Yul2IRContext<'a> {
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
         } else {
-            self.walk_args(yul_func_name, args_exprs, &arg_expected_types)
+            self.walk_args(yul_func_name, args_exprs, &arg_expected_types)?
         };
         let args = args_low_level
             .iter()
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index c14715d..14f8b91 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -816,28 +816,15 @@ impl<'a> Yul2IRContext<'a> {
             if (func_call.id.name == "fun_transfer" || func_call.id.name == "fun__transfer")
                 && func_call.arguments.len() == 3
             {
-                let from_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[0],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let from_arg = self.try_into_bytes32_pointer(&from_arg.get_value())?;
-                let to_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[1],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let to_arg = self.try_into_bytes32_pointer(&to_arg.get_value())?;
-                let value_arg = self.walk_expr_with_type(
-                    yul_func_name,
-                    &func_call.arguments[2],
-                    ExpectedType::Bytes32Pointer,
-                )?;
-                let value_arg = self.try_into_bytes32_pointer(&value_arg.get_value())?;
-                self.build_void_call(
-                    "wrapper_optimized_erc20_fun_transfer",
-                    &[from_arg, to_arg, value_arg],
-                )?;
+                // Yul evaluates the arguments from right to left
+                let mut transfer_args = vec![];
+                for arg in func_call.arguments.iter().rev() {
+                    let arg =
+                        self.walk_expr_with_type(yul_func_name, arg, ExpectedType::Bytes32Pointer)?;
+                    transfer_args.push(self.try_into_bytes32_pointer(&arg.get_value())?);
+                }
+                transfer_args.reverse();
+                self.build_void_call("wrapper_optimized_erc20_fun_transfer", &transfer_args)?;
                 return Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I32,
                     value: self.i32_type().const_zero().into(),
@@ -882,8 +869,9 @@ impl<'a> Yul2IRContext<'a> {
             })?
             .clone();
 
+        // Yul evaluates the arguments from right to left
         let mut call_args = vec![];
-        for (i, arg) in func_call.arguments.iter().enumerate() {
+        for (i, arg) in func_call.arguments.iter().enumerate().rev() {
             // Try to get the expected parameter type from function declaration
             let expected_param_type =
                 if let Some(func_decl) = self.current_func_decls.borrow().get(&func_name) {
@@ -911,6 +899,7 @@ impl<'a> Yul2IRContext<'a> {
                 e => return e,
             }
         }
+        call_args.reverse();
 
         let func_def = self.current_func_decls.borrow().get(&func_name).unwrap();
 
-- 
2.43.0


From e6cb36b2c1cbbaa5d2870bd510be3c2373934047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:54 +0000
Subject: [PATCH 18/52] fix: arguments of a function that only reverts are
 evaluated

---
 src/yul2ir/transform.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 14f8b91..0520ffc 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -786,6 +786,10 @@ impl<'a> Yul2IRContext<'a> {
             .borrow()
             .contains(&qualifier_func_name)
         {
+            // The arguments may end the call themselves, so they are evaluated first
+            for arg in func_call.arguments.iter().rev() {
+                self.walk_expr_with_type(yul_func_name, arg, ExpectedType::Untyped)?;
+            }
             self.build_void_call(UNIFIED_REVERT_ERROR_ZERO, &[])?;
             return Ok(YulLowLevelValue {
                 value_type: YulLowLevelValueType::I32,
-- 
2.43.0


From eece7d063e8bb584ba8feea89248c9392cee36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 19/52] fix: variables declared without a value and return
 variables start as zero

---
 src/yul2ir/transform.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 0520ffc..3f4eb64 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -604,6 +604,9 @@ impl<'a> Yul2IRContext<'a> {
                 .borrow_mut()
                 .build_store(llvm_var, init_val)
                 .unwrap();
+        } else {
+            // A variable declared without a value is zero
+            self.build_store(llvm_var, ty.const_zero())?;
         }
         self.ok_result()
     }
@@ -1793,7 +1796,12 @@ impl<'a> Yul2IRContext<'a> {
                     )
                 };
 
-            // TODO: Set initial value for the return variable
+            // Return variables are zero until they are assigned
+            if func_low_level_type.returns[i] == YulLowLevelValueType::Bytes32Pointer {
+                self.build_store(ret_var_pointer, self.bytes32_type().const_zero())?;
+            } else {
+                self.build_store(ret_var_pointer, ret_ty.const_zero())?;
+            }
             self.set_var(
                 ret_name,
                 ret_ty,
-- 
2.43.0


From a3baa090b045878439cadeeb51c12dd600f42fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 20/52] fix: a variable that is assigned again holds a full
 256-bit value

The variable's type was that of its initial value, so that a later value was
truncated to 32 or 64 bits (let n := calldatasize() n := not(0)), or to one bit
(let b := true b := 2).
---
 src/yul2ir/transform.rs | 15 +++++++++++++++
 src/yul2ir/usage.rs     |  7 +++++++
 2 files changed, 22 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 3f4eb64..0032d11 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -526,6 +526,21 @@ impl<'a> Yul2IRContext<'a> {
             return self.ok_result();
         }
 
+        // The type of the value is only good enough for a variable that keeps this value: a value
+        // that is assigned later may need all 256 bits.
+        let init_val_low_level = match init_val_low_level {
+            Some(init_val)
+                if init_val.value.is_int_value()
+                    && self.may_be_assigned_again(yul_func_name, &name) =>
+            {
+                Some(YulLowLevelValue {
+                    value_type: self.default_primitive_type_low_level(),
+                    value: self.try_into_u256(&init_val.value)?.into(),
+                })
+            }
+            other => other,
+        };
+
         // TODO: Simplify the following code
 
         // if init_val is bytes32 pointer, convert to bytes32 to store in variable pointer
diff --git a/src/yul2ir/usage.rs b/src/yul2ir/usage.rs
index 021500e..835fbff 100644
--- a/src/yul2ir/usage.rs
+++ b/src/yul2ir/usage.rs
@@ -134,4 +134,11 @@ impl<'a> Yul2IRContext<'a> {
             .and_then(|map| map.get(variable_name))
             .cloned()
     }
+
+    /// Whether a variable of the function may be written after its declaration, which itself counts
+    /// as one write. The top-level code of an object is not analyzed.
+    pub fn may_be_assigned_again(&self, func_qualifier: &str, variable_name: &str) -> bool {
+        self.get_variable_usage(func_qualifier, variable_name)
+            .map_or(true, |usage| usage.writes > 1)
+    }
 }
-- 
2.43.0


From 2e2cb1a0ca74bd1a197cb6e18fe28909446a5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 21/52] fix: div, sdiv, mod and smod by zero are zero, and MIN
 sdiv -1 is MIN

LLVM leaves these divisions undefined.
---
 src/yul2ir/instruction.rs | 124 +++++++++++++++++++++++++++-----------
 1 file changed, 89 insertions(+), 35 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 9dae0d7..6bf9ab5 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 use ethereum_types::U256;
 use inkwell::types::StringRadix;
-use inkwell::values::{BasicValue, BasicValueEnum, PointerValue};
+use inkwell::values::{BasicValue, BasicValueEnum, IntValue, PointerValue};
 use inkwell::IntPredicate;
 
 use super::yul_instruction::{YulLowLevelValue, YulLowLevelValueType};
@@ -525,6 +525,55 @@ impl<'a> Yul2IRContext<'a> {
         Ok(args)
     }
 
+    /// Division by zero is undefined in LLVM but gives zero in Yul: returns a divisor that is safe to
+    /// use, and whether the original one was zero.
+    fn nonzero_divisor(
+        &self,
+        divisor: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let is_zero = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::EQ,
+            divisor,
+            divisor.get_type().const_zero(),
+            "divisor_is_zero",
+        )?;
+        Ok((self.one_if(is_zero, divisor)?, is_zero))
+    }
+
+    fn is_minus_one(&self, value: IntValue<'a>) -> Result<IntValue<'a>, ASTLoweringError> {
+        Ok(self.builder.borrow_mut().build_int_compare(
+            IntPredicate::EQ,
+            value,
+            value.get_type().const_all_ones(),
+            "is_minus_one",
+        )?)
+    }
+
+    fn one_if(
+        &self,
+        condition: IntValue<'a>,
+        value: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let one = value.get_type().const_int(1, false);
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_select(condition, one, value, "")?
+            .into_int_value())
+    }
+
+    /// The value, or zero if the condition holds
+    fn zero_if(&self, condition: IntValue<'a>, value: IntValue<'a>) -> CompileResult<'a> {
+        let zero = value.get_type().const_zero();
+        Ok(YulLowLevelValue {
+            value_type: YulLowLevelValueType::from_int_type(value.get_type()),
+            value: self
+                .builder
+                .borrow_mut()
+                .build_select(condition, zero, value, "")?,
+        })
+    }
+
     pub(crate) fn walk_yul_instruction(
         &self,
         yul_func_name: &str,
@@ -705,15 +754,13 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_div(arg0, arg1, "div_result")?
-                        .into(),
-                })
+                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
+                let result = self.builder.borrow_mut().build_int_unsigned_div(
+                    arg0,
+                    divisor,
+                    "div_result",
+                )?;
+                self.zero_if(by_zero, result)
             }
             YulInstructionName::SDiv => {
                 check_args_count(&instr, &args, 2)?;
@@ -721,15 +768,25 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
+                // LLVM leaves MIN / -1 undefined, in Yul it is MIN
+                let by_minus_one = self.is_minus_one(arg1)?;
+                let negated = self.builder.borrow_mut().build_int_sub(
+                    arg0.get_type().const_zero(),
+                    arg0,
+                    "negated",
+                )?;
+                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
+                let divisor = self.one_if(by_minus_one, divisor)?;
+                let quotient =
+                    self.builder
                         .borrow_mut()
-                        .build_int_signed_div(arg0, arg1, "sdiv_result")?
-                        .into(),
-                })
+                        .build_int_signed_div(arg0, divisor, "sdiv_result")?;
+                let result = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(by_minus_one, negated, quotient, "")?
+                    .into_int_value();
+                self.zero_if(by_zero, result)
             }
             YulInstructionName::Mod => {
                 check_args_count(&instr, &args, 2)?;
@@ -737,15 +794,13 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
-                        .borrow_mut()
-                        .build_int_unsigned_rem(arg0, arg1, "mod_result")?
-                        .into(),
-                })
+                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
+                let result = self.builder.borrow_mut().build_int_unsigned_rem(
+                    arg0,
+                    divisor,
+                    "mod_result",
+                )?;
+                self.zero_if(by_zero, result)
             }
             YulInstructionName::SMod => {
                 check_args_count(&instr, &args, 2)?;
@@ -753,15 +808,14 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let ret_value_ty = YulLowLevelValueType::from_int_type(arg0.get_type());
-                Ok(YulLowLevelValue {
-                    value_type: ret_value_ty,
-                    value: self
-                        .builder
+                let by_minus_one = self.is_minus_one(arg1)?;
+                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
+                let divisor = self.one_if(by_minus_one, divisor)?;
+                let result =
+                    self.builder
                         .borrow_mut()
-                        .build_int_signed_rem(arg0, arg1, "smod_result")?
-                        .into(),
-                })
+                        .build_int_signed_rem(arg0, divisor, "smod_result")?;
+                self.zero_if(by_zero, result)
             }
             YulInstructionName::Exp => {
                 check_args_count(&instr, &args, 2)?;
-- 
2.43.0


From fd964b3bbc0ffcc0c5760f52fa55587a764eae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 22/52] fix: shift amounts and byte indices of 256 bits are not
 truncated

shl, shr, sar, byte and signextend cut their first operand to 32 bits before
looking at its size, so shl(2^32, x) was x. The amount is now clamped to the
width of the word first.
---
 src/yul2ir/instruction.rs | 99 +++++++++++++++++++++++++--------------
 1 file changed, 65 insertions(+), 34 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 6bf9ab5..70758d4 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -574,6 +574,36 @@ impl<'a> Yul2IRContext<'a> {
         })
     }
 
+    /// The value as i32, or the limit if the value is larger
+    fn saturating_i32(
+        &self,
+        value: &BasicValueEnum<'a>,
+        limit: u64,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let value = self.saturate(value, limit)?;
+        self.int_as_i32(value)
+    }
+
+    fn saturate(
+        &self,
+        value: &BasicValueEnum<'a>,
+        limit: u64,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let value = self.try_into_u256(value)?;
+        let limit = self.u256_type().const_int(limit, false);
+        let exceeds = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::UGT,
+            value,
+            limit,
+            "exceeds_limit",
+        )?;
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_select(exceeds, limit, value, "")?
+            .into_int_value())
+    }
+
     pub(crate) fn walk_yul_instruction(
         &self,
         yul_func_name: &str,
@@ -733,8 +763,8 @@ impl<'a> Yul2IRContext<'a> {
                 // signextend(b, x) extends a smaller signed integer x to 256 bits while preserving its sign bit.
                 // The bits before the specified byte count (b) are extended according to the sign of the most significant bit.
                 check_args_count(&instr, &args, 2)?;
-                let b = self.try_into_int(args.first().unwrap())?;
-                let b = self.int_as_i32(b)?;
+                // With 31 or more the value stays as it is
+                let b = self.saturating_i32(args.first().unwrap(), 31)?;
                 let x = self.try_into_u256(args.get(1).unwrap())?;
                 let x_ptr = self.get_value_pointer(x)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
@@ -1174,21 +1204,30 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::Byte => {
                 check_args_count(&instr, &args, 2)?;
-                let nth_byte_i32 =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
-                let value = self.try_into_int(args.get(1).unwrap())?;
-                let value = self.int_as_u256(value)?;
+                // Byte 0 is the most significant one, bytes from 32 on are zero
+                let nth_byte = self.saturate(args.first().unwrap(), 32)?;
+                let value = self.try_into_u256(args.get(1).unwrap())?;
+                let out_of_range = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::EQ,
+                    nth_byte,
+                    self.u256_type().const_int(32, false),
+                    "byte_out_of_range",
+                )?;
+                let nth_byte = self
+                    .builder
+                    .borrow_mut()
+                    .build_select(out_of_range, self.u256_type().const_zero(), nth_byte, "")?
+                    .into_int_value();
                 let shift_amount_tmp = self.builder.borrow_mut().build_int_sub(
-                    self.i32_type().const_int(31, false),
-                    nth_byte_i32,
+                    self.u256_type().const_int(31, false),
+                    nth_byte,
                     "shift_amount",
                 )?;
                 let shift_count = self.builder.borrow_mut().build_int_mul(
-                    self.i32_type().const_int(8, false),
+                    self.u256_type().const_int(8, false),
                     shift_amount_tmp,
                     "shift_amount_mul",
                 )?;
-                let (value, shift_count) = self.unify_ints(value, shift_count)?;
                 let shifted_value = self.builder.borrow_mut().build_right_shift(
                     value,
                     shift_count,
@@ -1196,19 +1235,12 @@ impl<'a> Yul2IRContext<'a> {
                     "shifted_value",
                 )?;
                 // get last byte
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_and(
-                        shifted_value,
-                        self.u256_type().const_int(0xff, false),
-                        "byte_result",
-                    )?
-                    .into();
-                Ok(YulLowLevelValue {
-                    value_type: YulLowLevelValueType::U256,
-                    value: result,
-                })
+                let result = self.builder.borrow_mut().build_and(
+                    shifted_value,
+                    self.u256_type().const_int(0xff, false),
+                    "byte_result",
+                )?;
+                self.zero_if(out_of_range, result)
             }
             YulInstructionName::Shl => {
                 check_args_count(&instr, &args, 2)?;
@@ -1219,7 +1251,7 @@ impl<'a> Yul2IRContext<'a> {
                 // so we use bytes32 version
                 if self.is_bytes32_value(value) {
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.saturating_i32(shift, 256)?;
                     let value = self.try_into_bytes32_pointer(value)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shl_result")?;
                     self.build_void_call(
@@ -1235,7 +1267,7 @@ impl<'a> Yul2IRContext<'a> {
                 // because llvm shl not work well for shift>=256, so we use c wrapper
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.saturating_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shl_result")?;
                 self.build_void_call(
@@ -1252,17 +1284,16 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Sar => {
                 // Signed Arithmetic Right Shift
                 check_args_count(&instr, &args, 2)?;
-                let (arg0, arg1) = self.unify_to_u256(
-                    self.try_into_int(args.first().unwrap())?,
-                    self.try_into_int(args.get(1).unwrap())?,
-                )?;
+                // A shift by the width or more is undefined in LLVM, in Yul only the sign remains
+                let shift = self.saturate(args.first().unwrap(), 255)?;
+                let value = self.try_into_u256(args.get(1).unwrap())?;
                 let result = self
                     .builder
                     .borrow_mut()
                     .build_right_shift(
-                        arg1,
-                        arg0, /* yul sar is arg1 >> arg0 */
-                        true, // signed shift
+                        value,
+                        shift, /* yul sar is arg1 >> arg0 */
+                        true,  // signed shift
                         "sar_result",
                     )?
                     .into();
@@ -1280,7 +1311,7 @@ impl<'a> Yul2IRContext<'a> {
                 if self.is_bytes32_value(value) {
                     let value = self.try_into_bytes32_pointer(value)?;
                     // Ensure shift is i32
-                    let shift_i32 = self.try_into_i32(shift)?;
+                    let shift_i32 = self.saturating_i32(shift, 256)?;
                     let result_ptr = self.fast_alloca(self.bytes32_type(), "shr_result")?;
                     self.build_void_call(
                         "wrapper_bytes32_shr",
@@ -1293,7 +1324,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
                 let value = self.try_into_u256(value)?;
                 let value_ptr = self.get_value_pointer(value)?;
-                let shift = self.try_into_i32(shift)?;
+                let shift = self.saturating_i32(shift, 256)?;
                 let ret_ty = self.u256_type();
                 let result_ptr = self.fast_alloca(ret_ty, "shr_result")?;
                 self.build_void_call(
-- 
2.43.0


From 4c3e65a37234cf0cf96ff4bb5beed454318a9d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 23/52] fix: slt and sgt compare the sign of the 256-bit value

Operands of the same smaller type (bool literals, 32-bit results such as the
selector) were compared as signed numbers of that type: slt(true, false) was 1.
---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 70758d4..c7c8ba5 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -995,7 +995,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // The sign is the highest of all 256 bits
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension,
                 // otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
@@ -1030,7 +1031,8 @@ impl<'a> Yul2IRContext<'a> {
 
                 let arg0 = self.try_into_int(arg0)?;
                 let arg1 = self.try_into_int(arg1)?;
-                let (arg0, arg1) = self.unify_ints(arg0, arg1)?;
+                // The sign is the highest of all 256 bits
+                let (arg0, arg1) = self.unify_to_u256(arg0, arg1)?;
                 // For u256 == u256 comparison, we need to convert the result from i1 to i32 type with zero extension, otherwise the higher bits will be incorrect
                 let cmp_result_i1 = self.builder.borrow_mut().build_int_compare(
                     IntPredicate::SGT,
-- 
2.43.0


From 87fd0acb5281290ff7515af34cd94770319a8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 24/52] fix: add(calldatasize(), not(3)) is negative in all 256
 bits for short call data

The specialised form gave a 32-bit result that was zero-extended, so the decoder's
slt(add(calldatasize(), not(3)), n) did not notice call data of less than 4 bytes.
---
 src/yul2ir/instruction.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index c7c8ba5..672e0bb 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -291,13 +291,20 @@ impl<'a> Yul2IRContext<'a> {
                         // else return negative result.
                         // Optimize by directly calling a specialized wrapper
                         if let Ok(result) = self.build_call("wrapper_calldata_size_minus_4", &[]) {
-                            return (
-                                Some(YulLowLevelValue {
-                                    value_type: YulLowLevelValueType::I32,
-                                    value: result,
-                                }),
-                                None,
-                            );
+                            // The result may be negative: all 256 bits take its sign
+                            if let Ok(result) = self.builder.borrow_mut().build_int_s_extend(
+                                result.into_int_value(),
+                                self.u256_type(),
+                                "",
+                            ) {
+                                return (
+                                    Some(YulLowLevelValue {
+                                        value_type: YulLowLevelValueType::U256,
+                                        value: result.into(),
+                                    }),
+                                    None,
+                                );
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 8e8f57647dfee00c253b71af07f1dedabb74a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 25/52] fix: a switch looks at all 256 bits of its condition
 and compiles with only a default case

The condition was evaluated as a 32-bit value where it is a memory word, and the
case values were cut to its type, so a switch could take the wrong case. Errors
in the case bodies were dropped, and a switch without cases made no valid code.
---
 src/yul2ir/transform.rs | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 0032d11..442eee8 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -93,19 +93,10 @@ impl<'a> Yul2IRContext<'a> {
         let cur_func = self.current_function.borrow().clone().unwrap();
         let cur_func_value = *cur_func.clone();
 
-        // For switch condition, we ideally want the type to match case values (typically u256)
+        // All 256 bits of the condition select the case
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::I32)?;
-        let cond_value = cond_value.get_value();
-        let cond_value = if cond_value.is_int_value() {
-            cond_value.into_int_value()
-        } else {
-            self.try_into_u256(&cond_value)?
-        };
-        let cond_value_ty = cond_value.get_type();
-
-        // Determine the expected type for case values based on the condition value type
-        let expected_type = self.type_to_expected(cond_value_ty.as_basic_type_enum());
+            self.walk_expr_with_type(yul_func_name, &switch.condition, ExpectedType::Untyped)?;
+        let cond_value = self.try_into_u256(&cond_value.get_value())?;
 
         let end_block = self
             .llvm_context
@@ -118,19 +109,13 @@ impl<'a> Yul2IRContext<'a> {
                     let case_int = match &case.case {
                         ast::Literal::HexNumberLiteral(hex, _) => self.hex_literal(&hex.hex),
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
-                            self.dec_literal(&dec.dec, expected_type)
+                            self.dec_literal(&dec.dec, ExpectedType::U256)
                         }
                         ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
-                    let case_int =
-                        self.try_cast(case_int.into(), cond_value_ty.as_basic_type_enum())?;
-                    let case_int = if case_int.is_int_value() {
-                        case_int.into_int_value()
-                    } else {
-                        self.try_into_u256(&case_int)?
-                    };
+                    let case_int = self.int_as_u256(case_int)?;
 
                     let case_block = self
                         .llvm_context
@@ -148,7 +133,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 for (_, bb) in jump_tbl {
                     self.builder.borrow_mut().position_at_end(bb.0);
-                    self.walk_block(yul_func_name, &bb.1);
+                    self.walk_block(yul_func_name, &bb.1)?;
                     self.builder
                         .borrow_mut()
                         .build_unconditional_branch(end_block);
@@ -156,7 +141,7 @@ impl<'a> Yul2IRContext<'a> {
 
                 self.builder.borrow_mut().position_at_end(otherwise_block);
                 if let Some(default) = default {
-                    self.walk_block(yul_func_name, &default.body);
+                    self.walk_block(yul_func_name, &default.body)?;
                 }
                 self.builder
                     .borrow_mut()
@@ -167,8 +152,11 @@ impl<'a> Yul2IRContext<'a> {
                 let otherwise_block = self
                     .llvm_context
                     .append_basic_block(cur_func_value, "switch_otherwise");
+                self.builder
+                    .borrow_mut()
+                    .build_unconditional_branch(otherwise_block);
                 self.builder.borrow_mut().position_at_end(otherwise_block);
-                self.walk_block(yul_func_name, &default.body);
+                self.walk_block(yul_func_name, &default.body)?;
                 self.builder
                     .borrow_mut()
                     .build_unconditional_branch(end_block);
-- 
2.43.0


From a4b30db633bdfa784bc64e9a4652d6141fecc377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 26/52] fix: a for condition that is a memory word is true if
 any bit is set

It was loaded as a 32-bit value, so for { } mload(p) { } { .. } ended at a word
whose low 32 bits are zero.
---
 src/yul2ir/transform.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 442eee8..8916935 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -215,9 +215,9 @@ impl<'a> Yul2IRContext<'a> {
             .build_unconditional_branch(cond_block);
 
         self.builder.borrow_mut().position_at_end(cond_block);
-        // For conditions, we prefer boolean (i32) results
+        // For conditions, we prefer boolean results, which any bit that is set makes true
         let cond_value =
-            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::I32)?;
+            self.walk_expr_with_type(yul_func_name, &r#for.condition, ExpectedType::Bool)?;
         let cond_value = cond_value.get_value();
         let cond_value = if cond_value.is_int_value() {
             cond_value.into_int_value()
-- 
2.43.0


From c8f45bd3aae6167ba938360fa9d99c68ab4adb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:59 +0000
Subject: [PATCH 27/52] fix: the body of an if is a scope of its own

Its variables stayed visible after the if, so a later declaration of the same
name in the enclosing block was rejected.
---
 src/yul2ir/transform.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 8916935..db63062 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -286,6 +286,7 @@ impl<'a> Yul2IRContext<'a> {
             self.i32_type().const_zero(),
             "nop",
         )?;
+        let _body_scope_guard = ScopeGuard::new(self);
         for stmt in &r#if.body.statements {
             self.walk_stmt(yul_func_name, stmt)?;
             unreachableflag = self.is_unreachable_node(stmt);
-- 
2.43.0


From 338a2add17160891cc3aa044c888be08df89aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 28/52] fix: the gas of a call and the number of blockhash are
 not truncated

Gas that does not fit the host's 64-bit parameter is passed as the largest value
instead of its low 64 bits (2^64 was 0), and blockhash(2^64 + n) is not that of n.
---
 src/yul2ir/instruction.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 672e0bb..8355668 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -133,7 +133,7 @@ impl<'a> Yul2IRContext<'a> {
 
             // For contract calls, use appropriate types for gas, address, value, and memory params
             YulInstructionName::Call => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::U256,    // value
                 ExpectedType::I32,     // in_offset
@@ -142,7 +142,7 @@ impl<'a> Yul2IRContext<'a> {
                 ExpectedType::I32,     // out_size
             ],
             YulInstructionName::DelegateCall | YulInstructionName::StaticCall => vec![
-                ExpectedType::I64,     // gas
+                ExpectedType::Untyped, // gas
                 ExpectedType::Bytes32, // address
                 ExpectedType::I32,     // in_offset
                 ExpectedType::I32,     // in_size
@@ -581,6 +581,12 @@ impl<'a> Yul2IRContext<'a> {
         })
     }
 
+    /// The value as i64, or the largest positive i64 if the value is larger
+    fn saturating_i64(&self, value: &BasicValueEnum<'a>) -> Result<IntValue<'a>, ASTLoweringError> {
+        let value = self.saturate(value, i64::MAX as u64)?;
+        self.int_as_i64(value)
+    }
+
     /// The value as i32, or the limit if the value is larger
     fn saturating_i32(
         &self,
@@ -2319,7 +2325,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::Call => {
                 check_args_count(&instr, &args, 7)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturating_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2361,7 +2367,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::DelegateCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturating_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2395,7 +2401,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::StaticCall => {
                 check_args_count(&instr, &args, 6)?;
                 let gas: &BasicValueEnum<'a> = args.first().unwrap();
-                let gas = self.try_into_i64(gas)?;
+                let gas = self.saturating_i64(gas)?;
 
                 let callee_addr: &BasicValueEnum<'a> = args.get(1).unwrap();
                 let callee_addr = self.try_into_bytes32_pointer(callee_addr)?;
@@ -2486,7 +2492,7 @@ impl<'a> Yul2IRContext<'a> {
             YulInstructionName::BlockHash => {
                 check_args_count(&instr, &args, 1)?;
                 let block_number: &BasicValueEnum<'a> = args.first().unwrap();
-                let block_number = self.try_into_i64(block_number)?;
+                let block_number = self.saturating_i64(block_number)?;
 
                 let ret_ty = self.bytes32_type();
                 let block_hash_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
-- 
2.43.0


From d98955cd0bea220a3b6dbda7022b849e2c3f4c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 29/52] fix: source offsets of calldataload, calldatacopy,
 returndatacopy and extcodecopy are not truncated

calldataload(2^32) read the call data at 0 instead of past its end.
---
 src/yul2ir/instruction.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 8355668..365c0d7 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -104,15 +104,15 @@ impl<'a> Yul2IRContext<'a> {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
             YulInstructionName::MStore8 => vec![ExpectedType::I32, ExpectedType::I32],
-            YulInstructionName::CallDataLoad => vec![ExpectedType::I32],
+            YulInstructionName::CallDataLoad => vec![ExpectedType::Untyped],
             YulInstructionName::CallDataCopy => {
-                vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
+                vec![ExpectedType::I32, ExpectedType::Untyped, ExpectedType::I32]
             }
             YulInstructionName::CodeCopy => {
                 vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
             }
             YulInstructionName::ReturnDataCopy => {
-                vec![ExpectedType::I32, ExpectedType::I32, ExpectedType::I32]
+                vec![ExpectedType::I32, ExpectedType::Untyped, ExpectedType::I32]
             }
             YulInstructionName::Return => vec![ExpectedType::I32, ExpectedType::I32],
             YulInstructionName::Revert => vec![ExpectedType::I32, ExpectedType::I32],
@@ -1817,8 +1817,7 @@ impl<'a> Yul2IRContext<'a> {
             }
             YulInstructionName::CallDataLoad => {
                 check_args_count(&instr, &args, 1)?;
-                let offset =
-                    self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
+                let offset = self.saturating_i32(args.first().unwrap(), i32::MAX as u64)?;
 
                 let ret_ty = self.bytes32_type();
                 let tmp_result = self.fast_alloca(ret_ty, "")?;
@@ -1855,8 +1854,7 @@ impl<'a> Yul2IRContext<'a> {
                 let dst_evm =
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
-                let calldata_offset =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                let calldata_offset = self.saturating_i32(args.get(1).unwrap(), i32::MAX as u64)?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
@@ -1974,7 +1972,7 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_i32_value(args.first().unwrap(), args_exprs.first().unwrap())?;
 
                 let return_data_offset =
-                    self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
+                    self.saturating_i32(args.get(1).unwrap(), i32::MAX as u64)?;
 
                 let len =
                     self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
@@ -2037,8 +2035,7 @@ impl<'a> Yul2IRContext<'a> {
                 let dst_evm =
                     self.try_into_i32_value(args.get(1).unwrap(), args_exprs.get(1).unwrap())?;
 
-                let src_offset =
-                    self.try_into_i32_value(args.get(2).unwrap(), args_exprs.get(2).unwrap())?;
+                let src_offset = self.saturating_i32(args.get(2).unwrap(), i32::MAX as u64)?;
 
                 let len =
                     self.try_into_i32_value(args.get(3).unwrap(), args_exprs.get(3).unwrap())?;
-- 
2.43.0


From cc0de3d0813082e7e23e2e84a440399286d5f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 30/52] fix: a variable that holds a linker symbol is only
 dropped if it is known to be unused

In the top-level code of an object, which has no usage information, and where it
is assigned again later, the declaration was dropped and the compiler panicked.
---
 src/yul2ir/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index db63062..b2f962e 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -481,7 +481,7 @@ impl<'a> Yul2IRContext<'a> {
                 .is_some()
             {
                 let usage_info = self.get_variable_usage(yul_func_name, &name);
-                if usage_info.is_none() || usage_info.unwrap().reads == 0 {
+                if usage_info.is_some_and(|usage| usage.reads == 0 && usage.writes <= 1) {
                     // the variable not used, so we can optimize this variable declaration
                     return self.ok_result();
                 }
-- 
2.43.0


From 5121da9b36b3a89b037f2d42e3262c5cc66a27f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:35 +0000
Subject: [PATCH 31/52] fix: a Yul function may be called init

The name of the function generated for the top-level code was that of a Yul function.
---
 src/yul2ir/transform.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index b2f962e..b60a112 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1667,7 +1667,8 @@ impl<'a> Yul2IRContext<'a> {
     fn transform_init_func(&self, object: &Object) -> (CompileFunctionResult<'a>, String) {
         let module_name = self.current_module_name.borrow().clone();
         let contract_name = self.current_contract_name.borrow().clone();
-        let qualifier_func_name = format!("{}.{}.init", module_name, contract_name,);
+        // No Yul function can have this name
+        let qualifier_func_name = format!("{}.{}.:init", module_name, contract_name,);
 
         let params_meta_types: Vec<BasicMetadataTypeEnum<'a>> = vec![];
         let func_ty: FunctionType<'a> = self
-- 
2.43.0


From 78be24401cb12e67bd8c96f68c472f1ec89f5a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 32/52] fix: immutables whose names share their first 22 bytes
 are different immutables

The key was made of the first 32 bytes of "immutable_" and the name.
---
 src/yul2ir/instruction.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 365c0d7..a13c106 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -1614,7 +1614,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // Every byte of the name counts, short names are padded
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
@@ -1697,7 +1698,8 @@ impl<'a> Yul2IRContext<'a> {
                     .expect("immutable name is empty");
                 let key_name = format!("{}_{}", "immutable", name);
                 let mut data = key_name.as_bytes().to_vec();
-                data.resize(32, 0u8);
+                // Every byte of the name counts, short names are padded
+                data.resize(data.len().max(32), 0u8);
                 keccak_hash::keccak256(&mut data);
                 let hash = &data[0..32];
                 let hash_hex = hex::encode(hash);
-- 
2.43.0


From 17f16456c5d51e57f95baa960cfc0f8ff2a1b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 33/52] fix: a string literal of more than 32 bytes is not a
 value

It silently became zero. Names of linker symbols, immutables and data may be longer.
---
 src/yul2ir/context.rs     | 14 +++++++-------
 src/yul2ir/instruction.rs | 29 +++++++++++++++++++++++++++++
 src/yul2ir/transform.rs   |  6 ++++--
 3 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index cf739e0..4266810 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -509,13 +509,13 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    pub fn string_literal(&self, value: &str) -> IntValue<'ctx> {
+    pub fn string_literal(&self, value: &str) -> Result<IntValue<'ctx>, ASTLoweringError> {
+        // The names that linkersymbol, dataoffset, datasize, loadimmutable and setimmutable take
+        // may be longer, but they are not values
         if value.len() > 32 {
-            // panic!("String literal length exceeds 32 bytes: {}", value);
-            // String literals used in linker symbol, data offset, and data size instructions
-            // don't need to be processed by string_literal function
-            // After modifying the logic in instruction.rs, we can restore the panic here
-            return self.u256_type().const_zero();
+            return Err(ASTLoweringError::BuilderError(format!(
+                "String literal length exceeds 32 bytes: {value}"
+            )));
         }
         // Convert string to bytes and pad to 32 bytes
         let mut bytes = value.as_bytes().to_vec();
@@ -529,7 +529,7 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .u256_type()
             .const_int_from_string(&be_bytes_hex, StringRadix::Hexadecimal)
             .unwrap();
-        int_value
+        Ok(int_value)
     }
 
     #[allow(unused)]
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index a13c106..d8ae8f1 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -532,6 +532,33 @@ impl<'a> Yul2IRContext<'a> {
         Ok(args)
     }
 
+    /// The index of the argument that is a name instead of a value
+    fn name_argument(instr: &YulInstructionName) -> Option<usize> {
+        match instr {
+            YulInstructionName::DataOffset
+            | YulInstructionName::DataSize
+            | YulInstructionName::LinkerSymbol
+            | YulInstructionName::LoadImmutable => Some(0),
+            YulInstructionName::SetImmutable => Some(1),
+            _ => None,
+        }
+    }
+
+    /// The arguments of an instruction that takes a name, with a placeholder for the name
+    fn walk_args_with_name(
+        &self,
+        yul_func_name: &str,
+        args_exprs: &[Expression],
+        arg_expected_types: &[ExpectedType],
+        name_index: usize,
+    ) -> Result<Vec<YulLowLevelValue<'a>>, ASTLoweringError> {
+        let mut values_exprs = args_exprs.to_vec();
+        if let Some(name) = values_exprs.get_mut(name_index) {
+            *name = Expression::Literal(Literal::FalseLiteral(None));
+        }
+        self.walk_args(yul_func_name, &values_exprs, arg_expected_types)
+    }
+
     /// Division by zero is undefined in LLVM but gives zero in Yul: returns a divisor that is safe to
     /// use, and whether the original one was zero.
     fn nonzero_divisor(
@@ -649,6 +676,8 @@ impl<'a> Yul2IRContext<'a> {
 
         let args_low_level = if let Some(optimized_args) = optimized_args {
             optimized_args
+        } else if let Some(name_index) = Self::name_argument(&instr) {
+            self.walk_args_with_name(yul_func_name, args_exprs, &arg_expected_types, name_index)?
         } else {
             self.walk_args(yul_func_name, args_exprs, &arg_expected_types)?
         };
diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index b60a112..ece3f8f 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -111,7 +111,9 @@ impl<'a> Yul2IRContext<'a> {
                         ast::Literal::DecimalNumberLiteral(dec, _) => {
                             self.dec_literal(&dec.dec, ExpectedType::U256)
                         }
-                        ast::Literal::StringLiteral(string, _) => self.string_literal(&string.str),
+                        ast::Literal::StringLiteral(string, _) => {
+                            self.string_literal(&string.str)?
+                        }
                         ast::Literal::TrueLiteral(_) => self.bool_literal(true),
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
@@ -1073,7 +1075,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             ast::Literal::StringLiteral(s, ty_name) => {
-                let value = self.string_literal(&s.str);
+                let value = self.string_literal(&s.str)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::from_int_type(value.get_type()),
                     value: value.into(),
-- 
2.43.0


From 320627172a9327182887b075bc60ff364949f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 34/52] fix: a data segment holds all of its literals

Each literal replaced the ones before, and a segment without any could not be used.
---
 src/yul2ir/transform.rs | 59 +++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index ece3f8f..2a176b2 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -1494,7 +1494,9 @@ impl<'a> Yul2IRContext<'a> {
                     }
                 }
                 InnerSegment::Data(data_segment_name, data_literals) => {
-                    // Compile data segments from object inner_segments into LLVM global constants
+                    // Compile data segments from object inner_segments into LLVM global constants.
+                    // The data are all literals of the segment, one after the other
+                    let mut data_bytes = vec![];
                     for data_literal in data_literals {
                         match data_literal {
                             ast::DataLiteral::HexLiteral(hex_literal) => {
@@ -1502,47 +1504,30 @@ impl<'a> Yul2IRContext<'a> {
                                 if hex_literal.len() % 2 != 0 {
                                     bytes.push('0');
                                 }
-                                let data_bytes = hex::decode(bytes).unwrap();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(&data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(hex::decode(bytes).unwrap());
                             }
                             ast::DataLiteral::StringLiteral(string_literal) => {
-                                let data_bytes = string_literal.as_bytes();
-                                let data_bytes_with_length_prefix =
-                                    merge_sub_wasm_with_length_prefix(data_bytes);
-
-                                let data_segment_qualified_name =
-                                    &format!("{}.{}", object.name, data_segment_name);
-                                let global_var = self.add_global_constant_bytes32(
-                                    &data_bytes_with_length_prefix,
-                                    data_segment_qualified_name,
-                                );
-
-                                self.global_bytes_lengths.borrow_mut().insert(
-                                    data_segment_qualified_name.to_string(),
-                                    data_bytes_with_length_prefix.len(),
-                                );
-                                self.global_bytes_values
-                                    .borrow_mut()
-                                    .insert(data_segment_qualified_name.to_string(), global_var);
+                                data_bytes.extend(string_literal.as_bytes());
                             }
                         }
                     }
+                    let data_bytes_with_length_prefix =
+                        merge_sub_wasm_with_length_prefix(&data_bytes);
+
+                    let data_segment_qualified_name =
+                        &format!("{}.{}", object.name, data_segment_name);
+                    let global_var = self.add_global_constant_bytes32(
+                        &data_bytes_with_length_prefix,
+                        data_segment_qualified_name,
+                    );
+
+                    self.global_bytes_lengths.borrow_mut().insert(
+                        data_segment_qualified_name.to_string(),
+                        data_bytes_with_length_prefix.len(),
+                    );
+                    self.global_bytes_values
+                        .borrow_mut()
+                        .insert(data_segment_qualified_name.to_string(), global_var);
                 }
             }
         }
-- 
2.43.0


From 9fbe5f900f682864bb9ed4251b01c552c3ca4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:00 +0000
Subject: [PATCH 35/52] fix: create the output directory before resolving it

The compiler panicked when the directory of --output did not exist.
---
 src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a7c5bd4..d0fec44 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,10 +146,10 @@ fn main() {
     } else {
         output_dir
     };
-    let output_dir = output_dir.canonicalize().unwrap();
     if !output_dir.exists() {
-        fs::create_dir_all(&output_dir).unwrap();
+        fs::create_dir_all(output_dir).unwrap();
     }
+    let output_dir = output_dir.canonicalize().unwrap();
 
     opts.output_dir = output_dir.to_str().unwrap_or(".").to_string();
 
-- 
2.43.0


From 082ceab5e7da42f2d401ce3f6dd8567e601bd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:51 +0000
Subject: [PATCH 36/52] fix: sdiv and smod by a constant power of two compile

The WebAssembly backend of LLVM leaves signed 256-bit divisions by a power of
two to a library call that does not exist; magnitudes are divided instead.
---
 src/yul2ir/instruction.rs | 83 +++++++++++++++++++++++++--------------
 1 file changed, 53 insertions(+), 30 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index d8ae8f1..f7def47 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -574,13 +574,37 @@ impl<'a> Yul2IRContext<'a> {
         Ok((self.one_if(is_zero, divisor)?, is_zero))
     }
 
-    fn is_minus_one(&self, value: IntValue<'a>) -> Result<IntValue<'a>, ASTLoweringError> {
-        Ok(self.builder.borrow_mut().build_int_compare(
-            IntPredicate::EQ,
+    /// Whether the value is negative, and its magnitude. Signed division is done on magnitudes: the
+    /// backend can not divide a signed 256-bit value by a constant power of two, and LLVM leaves
+    /// MIN / -1 undefined.
+    fn sign_and_magnitude(
+        &self,
+        value: IntValue<'a>,
+    ) -> Result<(IntValue<'a>, IntValue<'a>), ASTLoweringError> {
+        let is_negative = self.builder.borrow_mut().build_int_compare(
+            IntPredicate::SLT,
             value,
-            value.get_type().const_all_ones(),
-            "is_minus_one",
-        )?)
+            value.get_type().const_zero(),
+            "is_negative",
+        )?;
+        Ok((is_negative, self.negated_if(is_negative, value)?))
+    }
+
+    fn negated_if(
+        &self,
+        condition: IntValue<'a>,
+        value: IntValue<'a>,
+    ) -> Result<IntValue<'a>, ASTLoweringError> {
+        let negated = self.builder.borrow_mut().build_int_sub(
+            value.get_type().const_zero(),
+            value,
+            "negated",
+        )?;
+        Ok(self
+            .builder
+            .borrow_mut()
+            .build_select(condition, negated, value, "")?
+            .into_int_value())
     }
 
     fn one_if(
@@ -840,24 +864,21 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                // LLVM leaves MIN / -1 undefined, in Yul it is MIN
-                let by_minus_one = self.is_minus_one(arg1)?;
-                let negated = self.builder.borrow_mut().build_int_sub(
-                    arg0.get_type().const_zero(),
-                    arg0,
-                    "negated",
+                let (dividend_negative, dividend) = self.sign_and_magnitude(arg0)?;
+                let (divisor_negative, divisor) = self.sign_and_magnitude(arg1)?;
+                let (divisor, by_zero) = self.nonzero_divisor(divisor)?;
+                let quotient = self.builder.borrow_mut().build_int_unsigned_div(
+                    dividend,
+                    divisor,
+                    "sdiv_result",
                 )?;
-                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
-                let divisor = self.one_if(by_minus_one, divisor)?;
-                let quotient =
-                    self.builder
-                        .borrow_mut()
-                        .build_int_signed_div(arg0, divisor, "sdiv_result")?;
-                let result = self
-                    .builder
-                    .borrow_mut()
-                    .build_select(by_minus_one, negated, quotient, "")?
-                    .into_int_value();
+                let quotient_negative = self.builder.borrow_mut().build_int_compare(
+                    IntPredicate::NE,
+                    dividend_negative,
+                    divisor_negative,
+                    "",
+                )?;
+                let result = self.negated_if(quotient_negative, quotient)?;
                 self.zero_if(by_zero, result)
             }
             YulInstructionName::Mod => {
@@ -880,13 +901,15 @@ impl<'a> Yul2IRContext<'a> {
                     self.try_into_int(args.first().unwrap())?,
                     self.try_into_int(args.get(1).unwrap())?,
                 )?;
-                let by_minus_one = self.is_minus_one(arg1)?;
-                let (divisor, by_zero) = self.nonzero_divisor(arg1)?;
-                let divisor = self.one_if(by_minus_one, divisor)?;
-                let result =
-                    self.builder
-                        .borrow_mut()
-                        .build_int_signed_rem(arg0, divisor, "smod_result")?;
+                let (dividend_negative, dividend) = self.sign_and_magnitude(arg0)?;
+                let (_, divisor) = self.sign_and_magnitude(arg1)?;
+                let (divisor, by_zero) = self.nonzero_divisor(divisor)?;
+                let remainder = self.builder.borrow_mut().build_int_unsigned_rem(
+                    dividend,
+                    divisor,
+                    "smod_result",
+                )?;
+                let result = self.negated_if(dividend_negative, remainder)?;
                 self.zero_if(by_zero, result)
             }
             YulInstructionName::Exp => {
-- 
2.43.0


From 89f1e375a25f8998c91a755ea4cabe1d1c11006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:48 +0000
Subject: [PATCH 37/52] fix: the address of a created contract has no stray
 upper bytes

---
 stdlib/chain.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index ea19471..5dec62f 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -613,6 +613,7 @@ void wrapper_create(uint256_t *value, int32_t code_evm_mem, int32_t code_length,
                      wasm_code_length + 4, (ADDRESS_UINT)calldata_mem,
                      calldata_length, 0, 0, 12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create contract failed", 22);
@@ -644,6 +645,7 @@ void wrapper_create2(uint256_t *value, int32_t code_evm_mem,
       (ADDRESS_UINT)calldata_mem, calldata_length, (ADDRESS_UINT)&salt_bytes, 1,
       12 + (ADDRESS_UINT)result);
   if (ret_code == 0) {
+    clear_first_12_bytes(result);
     return;
   }
   revert((ADDRESS_UINT) "create2 contract failed", 23);
-- 
2.43.0


From 01802adffa77655bef1e38af985519aee8f95e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:19 +0000
Subject: [PATCH 38/52] fix: iszero keeps its meaning in functions that decode
 an address

---
 src/yul2ir/instruction.rs | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index f7def47..62fd555 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -365,23 +365,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        //  Optimize iszero(eq(value, and(value, sub(shl(160, 1), 1)))) by checking if the first 12 bytes of u256/bytes32 are zero
-
-        if yul_func_name.contains("abi_decode_address")
-            || yul_func_name.contains("abi_decode_t_address")
-        {
-            // TODO: Since abi_decode_address only uses the last 20 bytes of the address, we can simply return false for the iszero check
-            if let YulInstructionName::IsZero = instr {
-                return (
-                    Some(YulLowLevelValue {
-                        value_type: YulLowLevelValueType::I32,
-                        value: self.i32_type().const_zero().into(),
-                    }),
-                    None,
-                );
-            }
-        }
-
         // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
         // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
         if self.opts.enable_all_optimizers {
-- 
2.43.0


From 65c0a10b9bc9146872cfd928e57405f024a084b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 39/52] fix: an address mask clears the upper bytes with all
 optimizers too

---
 src/yul2ir/context.rs     | 20 --------------------
 src/yul2ir/instruction.rs | 23 -----------------------
 2 files changed, 43 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 4266810..9bcee20 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -655,26 +655,6 @@ impl<'ctx> Yul2IRContext<'ctx> {
         }
     }
 
-    /// Helper function to match the address masking pattern: and(addr, sub(shl(160, 1), 1))
-    /// return the addr expression
-    pub fn matches_address_mask_pattern(&self, expr: &Expression) -> Option<Expression> {
-        // Pattern: and(addr, sub(shl(160, 1), 1))
-        if let Some(and_args) = self.matches_yul_instruction(expr, "and", 2) {
-            if let Some(sub_args) = self.matches_yul_instruction(&and_args[1], "sub", 2) {
-                if let Some(shl_args) = self.matches_yul_instruction(&sub_args[0], "shl", 2) {
-                    // Check if shl(160, 1) and sub(..., 1)
-                    if self.matches_constant_literal(&shl_args[0], U256::from(160))
-                        && self.matches_constant_literal(&shl_args[1], U256::from(1))
-                        && self.matches_constant_literal(&sub_args[1], U256::from(1))
-                    {
-                        return Some(and_args[0].clone());
-                    }
-                }
-            }
-        }
-        None
-    }
-
     pub fn add_global_constant_bytes32(
         &self,
         value: &[u8],
diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 62fd555..0029562 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -365,29 +365,6 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        // TODO: and(addr, sub(shl(160, 1), 1)) can be optimized to clear the first 12 bytes of the address
-        // TODO: However, since only the last 20 bytes of the address are used, we can implement a special optimization
-        if self.opts.enable_all_optimizers {
-            if let YulInstructionName::And = instr {
-                let lhs = args_exprs.first().unwrap();
-                let rhs = args_exprs.get(1).unwrap();
-
-                // Use simplified address mask pattern matching
-                if let Some(Expression::Identifier(addr_iden)) = self.matches_address_mask_pattern(
-                    &Expression::FunctionCall(Box::new(FunctionCall {
-                        id: Identifier {
-                            name: "and".to_string(),
-                        },
-                        arguments: vec![lhs.clone(), rhs.clone()],
-                    })),
-                ) {
-                    // Optimize by directly returning the address since only the last 20 bytes will be used
-                    let result = self.walk_identifier(&addr_iden).unwrap();
-                    return (Some(result), None);
-                }
-            }
-        }
-
         if yul_func_name.contains("abi_decode_address")
             || yul_func_name.contains("abi_decode_t_address")
         {
-- 
2.43.0


From d93f1e48c53cb96f2c8cbe67716d002f6fc94463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 40/52] fix: mstore(64, constant) reaches mload(64) with all
 optimizers

---
 src/yul2ir/instruction.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 0029562..58662e9 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -311,8 +311,18 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
+        // With all optimizers, mstore(64, value) sets the global variable that mload(64) reads
+        let stores_memptr_global = self.opts.enable_all_optimizers
+            && matches!(instr, YulInstructionName::MStore)
+            && args_exprs.first().is_some_and(|offset| {
+                self.fetch_not_string_literal_constant(offset) == Some(U256::from(64))
+            });
+
         // optimize for mstore(offset, constant_value)
-        if matches!(instr, YulInstructionName::MStore) && args_exprs.len() == 2 {
+        if matches!(instr, YulInstructionName::MStore)
+            && args_exprs.len() == 2
+            && !stores_memptr_global
+        {
             let offset = &args_exprs[0].clone();
             let value = &args_exprs[1].clone();
 
-- 
2.43.0


From 5c9f3941941d1b0026cc9b8c7bd1189f69292f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:53 +0000
Subject: [PATCH 41/52] fix: memoryguard does not hand out guarded memory

---
 stdlib/chain.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/stdlib/chain.c b/stdlib/chain.c
index 5dec62f..168da49 100644
--- a/stdlib/chain.c
+++ b/stdlib/chain.c
@@ -288,13 +288,10 @@ void wrapper_codecopy(int32_t target_evm_mem_offset, int32_t evm_memory_offset,
 }
 uint32_t wrapper_memory_guard(uint32_t size) {
   evm_make_sure_memory(size);
-  // Returns EVM memory address fixed at 96 (corresponding to linear memory
-  // address evm_memory_begin + 96) The value 96 is used because in Solidity
-  // EVM:
-  // - Address range [0,64) is reserved for internal use
-  // - Range 64-96 is used for the free memory pointer
-  // - Actual usable memory starts from EVM memory address 96
-  return 96;
+  // Memory below size is in use by the contract (in Solidity [0,64) is scratch
+  // space, [64,96) the free memory pointer and [96,128) the zero slot), so what
+  // may be allocated starts at size.
+  return size;
 }
 
 void wrapper_mstore_bytes32(int32_t evm_mem, bytes32 *value_ptr) {
-- 
2.43.0


From c8b3e63d8f86330c505a35ee5293c616b4432042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 42/52] fix: a revert-only function may have return values

---
 src/yul2ir/function_deduplicator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yul2ir/function_deduplicator.rs b/src/yul2ir/function_deduplicator.rs
index e99c334..7d6c5e5 100644
--- a/src/yul2ir/function_deduplicator.rs
+++ b/src/yul2ir/function_deduplicator.rs
@@ -14,6 +14,10 @@ impl<'a> Yul2IRContext<'a> {
         if function.body.statements.len() != 1 {
             return false;
         }
+        // A call of a function with return values is still typed as giving these values
+        if !function.returns.is_empty() {
+            return false;
+        }
 
         let stmt = &function.body.statements[0];
         let revert_params = self.matches_function_call(stmt, "revert", 2);
-- 
2.43.0


From 6b4c2201e963e3b8b129572e90bae8019966a4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:45 +0000
Subject: [PATCH 43/52] fix: an address given without 0x keeps its first two
 digits

---
 src/yul2ir/context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index 9bcee20..c9d439d 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -436,9 +436,12 @@ impl<'ctx> Yul2IRContext<'ctx> {
     #[allow(unused)]
     pub fn hex_literal(&self, value: &str) -> IntValue<'ctx> {
         // TODO: Need to generate based on whether the type is u256 or some other type
-        let value_without_prefix: String = value.chars().skip(2).collect();
+        let value_without_prefix = value
+            .strip_prefix("0x")
+            .or_else(|| value.strip_prefix("0X"))
+            .unwrap_or(value);
         self.u256_type()
-            .const_int_from_string(&value_without_prefix, StringRadix::Hexadecimal)
+            .const_int_from_string(value_without_prefix, StringRadix::Hexadecimal)
             .unwrap()
     }
 
-- 
2.43.0


From a9251470933d75236b1136a444e285533b679fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 44/52] fix: a literal of more than 256 bits is rejected, not
 cut

---
 src/yul2ir/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yul2ir/context.rs b/src/yul2ir/context.rs
index c9d439d..16c12c4 100644
--- a/src/yul2ir/context.rs
+++ b/src/yul2ir/context.rs
@@ -440,6 +440,8 @@ impl<'ctx> Yul2IRContext<'ctx> {
             .strip_prefix("0x")
             .or_else(|| value.strip_prefix("0X"))
             .unwrap_or(value);
+        // a value of more than 256 bits is not cut
+        U256::from_str_radix(value_without_prefix, 16).unwrap();
         self.u256_type()
             .const_int_from_string(value_without_prefix, StringRadix::Hexadecimal)
             .unwrap()
@@ -471,6 +473,9 @@ impl<'ctx> Yul2IRContext<'ctx> {
     }
 
     pub fn dec_literal(&self, value: &str, expected_type: ExpectedType) -> IntValue<'ctx> {
+        // a value of more than 256 bits is not cut
+        U256::from_str_radix(value, 10).unwrap();
+
         // Unless there's a clear expected type from context, or the variable is not used as u256 type,
         // always use u256 type. Otherwise, in cases like `let i := 0` followed by `i = add(i, 1)`,
         // overflow might occur within the i32 value range.
-- 
2.43.0


From a869887ce2d460746047e2259fceb803e34ac0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 45/52] fix: arguments of builtins that take none, and of pop,
 are counted

---
 src/yul2ir/instruction.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/yul2ir/instruction.rs b/src/yul2ir/instruction.rs
index 58662e9..6f11a38 100644
--- a/src/yul2ir/instruction.rs
+++ b/src/yul2ir/instruction.rs
@@ -682,6 +682,7 @@ impl<'a> Yul2IRContext<'a> {
 
         match instr {
             YulInstructionName::Stop => {
+                check_args_count(&instr, &args, 0)?;
                 self.build_void_call("wrapper_stop", &args)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I32,
@@ -1745,6 +1746,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::MSize => {
+                check_args_count(&instr, &args, 0)?;
                 let msize_i64 = self
                     .build_call("wrapper_memory_size", &[])?
                     .into_int_value();
@@ -1755,6 +1757,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Gas => {
+                check_args_count(&instr, &args, 0)?;
                 let gas_i64 = self.build_call("wrapper_gas", &[])?.into_int_value();
                 // Return i64 value directly, let the caller handle type conversion as needed
                 Ok(YulLowLevelValue {
@@ -1763,6 +1766,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::GasPrice => {
+                check_args_count(&instr, &args, 0)?;
                 let tmp_result = self.fast_alloca(self.u256_type(), "")?;
                 self.build_void_call("wrapper_gas_price", &[tmp_result.into()])?;
                 let result = self.build_load(self.u256_type(), tmp_result, "")?;
@@ -1772,6 +1776,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::GasLimit => {
+                check_args_count(&instr, &args, 0)?;
                 let gas_limit_i64 = self.build_call("wrapper_gas_limit", &[])?.into_int_value();
                 // Return i64 value directly, let the caller handle type conversion as needed
                 Ok(YulLowLevelValue {
@@ -1780,6 +1785,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Address => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_current_contract", &[result_ptr.into()])?;
@@ -1803,6 +1809,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::SelfBalance => {
+                check_args_count(&instr, &args, 0)?;
                 let result_ptr: PointerValue<'a> = self.fast_alloca(self.u256_type(), "")?;
                 self.build_void_call("wrapper_self_balance", &[result_ptr.into()])?;
                 let result = self.build_load(self.u256_type(), result_ptr, "")?;
@@ -1812,6 +1819,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Caller => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let tmp_result = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_caller", &[tmp_result.into()])?;
@@ -1822,6 +1830,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::CallValue => {
+                check_args_count(&instr, &args, 0)?;
                 // Check if we're expecting a boolean result (for callvalue != 0 check)
                 // This is an optimization for the common pattern in require(msg.value == 0)
                 if matches!(expected_type, ExpectedType::Bool) {
@@ -1867,6 +1876,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::CallDataSize => {
+                check_args_count(&instr, &args, 0)?;
                 let result = self.build_call("wrapper_calldata_size", &[])?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I32,
@@ -1982,6 +1992,7 @@ impl<'a> Yul2IRContext<'a> {
                 }
             }
             YulInstructionName::ReturnDataSize => {
+                check_args_count(&instr, &args, 0)?;
                 let size_i32 = self
                     .build_call("wrapper_returndata_size", &[])?
                     .into_int_value();
@@ -2025,6 +2036,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::CodeSize => {
+                check_args_count(&instr, &args, 0)?;
                 let size_i32 = self
                     .build_call("wrapper_current_contract_code_size", &[])?
                     .into_int_value();
@@ -2276,6 +2288,7 @@ impl<'a> Yul2IRContext<'a> {
             }
 
             YulInstructionName::Pop => {
+                check_args_count(&instr, &args, 1)?;
                 // pop removes a value from the EVM stack, but when compiling to LLVM IR, no operation is needed
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I32,
@@ -2465,6 +2478,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Invalid => {
+                check_args_count(&instr, &args, 0)?;
                 self.build_void_call("wrapper_invalid", &args)?;
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I32,
@@ -2472,6 +2486,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::ChainID => {
+                check_args_count(&instr, &args, 0)?;
                 let chain_id_ptr: PointerValue<'a> = self.fast_alloca(self.u256_type(), "")?;
                 self.build_void_call("wrapper_current_chainid", &[chain_id_ptr.into()])?;
                 let chain_id: BasicValueEnum<'a> =
@@ -2482,6 +2497,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::BaseFee => {
+                check_args_count(&instr, &args, 0)?;
                 let base_fee_ptr: PointerValue<'a> = self.fast_alloca(self.u256_type(), "")?;
                 self.build_void_call("wrapper_current_base_fee", &[base_fee_ptr.into()])?;
                 let base_fee: BasicValueEnum<'a> =
@@ -2492,6 +2508,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::BlobBaseFee => {
+                check_args_count(&instr, &args, 0)?;
                 let base_fee_ptr: PointerValue<'a> = self.fast_alloca(self.u256_type(), "")?;
                 self.build_void_call("wrapper_current_blob_base_fee", &[base_fee_ptr.into()])?;
                 let base_fee: BasicValueEnum<'a> =
@@ -2502,6 +2519,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Origin => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_origin", &[result_ptr.into()])?;
@@ -2530,6 +2548,7 @@ impl<'a> Yul2IRContext<'a> {
                 unreachable!("blobhash not supported in this chain")
             }
             YulInstructionName::CoinBase => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_block_coin_base", &[result_ptr.into()])?;
@@ -2540,6 +2559,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::TimeStamp => {
+                check_args_count(&instr, &args, 0)?;
                 let time_stamp_i64 = self.build_call("wrapper_time_stamp", &[])?.into_int_value();
                 Ok(YulLowLevelValue {
                     value_type: YulLowLevelValueType::I64,
@@ -2547,6 +2567,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Number => {
+                check_args_count(&instr, &args, 0)?;
                 let block_number_i64 = self
                     .build_call("wrapper_block_number", &[])?
                     .into_int_value();
@@ -2556,6 +2577,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Difficulty => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_block_prevRandao", &[result_ptr.into()])?;
@@ -2565,6 +2587,7 @@ impl<'a> Yul2IRContext<'a> {
                 })
             }
             YulInstructionName::Prevrandao => {
+                check_args_count(&instr, &args, 0)?;
                 let ret_ty = self.bytes32_type();
                 let result_ptr: PointerValue<'a> = self.fast_alloca(ret_ty, "")?;
                 self.build_void_call("wrapper_block_prevRandao", &[result_ptr.into()])?;
-- 
2.43.0


From f0126b4a5a29269d59e72fa06218c50d430a63ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 46/52] fix: a repeated case of a switch is an error, not a
 crash of the compiler

---
 src/yul2ir/transform.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 2a176b2..34d8096 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -118,6 +118,11 @@ impl<'a> Yul2IRContext<'a> {
                         ast::Literal::FalseLiteral(_) => self.bool_literal(false),
                     };
                     let case_int = self.int_as_u256(case_int)?;
+                    if jump_tbl.contains_key(&case_int) {
+                        return Err(ASTLoweringError::BuilderError(format!(
+                            "Case {case_int} is given twice in a switch"
+                        )));
+                    }
 
                     let case_block = self
                         .llvm_context
-- 
2.43.0


From a667e6b4e1bc84da23f9b888034e8babac628d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 47/52] fix: a second function of the same name is an error

---
 src/yul2ir/transform.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 34d8096..68232ff 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -2,6 +2,7 @@
 // Copyright (c) The Smart Intermediate Representation Contributors
 // SPDX-License-Identifier: Apache-2.0
 
+use std::collections::HashSet;
 use std::rc::Rc;
 
 use crate::yul2ir::context::CompileFunctionResult;
@@ -1383,6 +1384,7 @@ impl<'a> Yul2IRContext<'a> {
         *self.current_contract_name.borrow_mut() = object.name.clone();
 
         // Scan function declarations in current object
+        let mut declared_names = HashSet::new();
         for func in object
             .code
             .statements
@@ -1390,6 +1392,12 @@ impl<'a> Yul2IRContext<'a> {
             .filter(|stmt| matches!(stmt, ast::Statement::FunctionDefinition(_)))
         {
             if let ast::Statement::FunctionDefinition(func_def) = func {
+                if !declared_names.insert(&func_def.name.name) {
+                    return Err(ASTLoweringError::BuilderError(format!(
+                        "Function '{}' is already defined in object '{}'",
+                        func_def.name.name, object.name
+                    )));
+                }
                 let qualifier_func_name = self.get_func_decl_qualifier_name(func_def);
                 let (func_ty, func_low_level_type) = self.transform_func_llvm_ty(func_def);
 
-- 
2.43.0


From ec195767a510b095eaa5e34d4f4113c1f97ce2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 48/52] fix: a call is only used where it gives as many values
 as are needed

---
 src/yul2ir/transform.rs | 63 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 68232ff..01b1446 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -13,7 +13,7 @@ use crate::{
     yul2ir::context::{CompileResult, Yul2IRContext},
     yul2ir::errors::ASTLoweringError,
     yul2ir::infer::ExpectedType,
-    yul2ir::yul_instruction::parse_intrinsic_func_name,
+    yul2ir::yul_instruction::{parse_intrinsic_func_name, YulInstructionName},
 };
 use ast::FunctionDeclaration;
 use indexmap::IndexMap;
@@ -348,9 +348,13 @@ impl<'a> Yul2IRContext<'a> {
         let tmp_value = self.fast_alloca(ty, "")?;
 
         let val = &assign.value;
-        // For tuple returns, we still want to evaluate the function call with appropriate expected type
-        // The function call will handle the return type properly
-        let to_set_value = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
+        let to_set_value = match val {
+            Expression::FunctionCall(func_call) => {
+                self.check_values_count(&func_call.id.name, assign.identifiers.len())?;
+                self.walk_function_call(yul_func_name, func_call)?
+            }
+            _ => unreachable!("only a function call gives several values"),
+        };
         self.builder
             .borrow_mut()
             .build_store(tmp_value, to_set_value.get_value());
@@ -670,8 +674,13 @@ impl<'a> Yul2IRContext<'a> {
         let tmp_value = self.fast_alloca(tmp_value_ty, "")?;
 
         if let Some(val) = &var_decl.value {
-            // For tuple returns, use an appropriate expected type
-            let init_val = self.walk_expr_with_type(yul_func_name, val, ExpectedType::Untyped)?;
+            let init_val = match val {
+                Expression::FunctionCall(func_call) => {
+                    self.check_values_count(&func_call.id.name, var_decl.identifiers.len())?;
+                    self.walk_function_call(yul_func_name, func_call)?
+                }
+                _ => unreachable!("only a function call gives several values"),
+            };
             self.builder
                 .borrow_mut()
                 .build_store(tmp_value, init_val.get_value());
@@ -773,6 +782,7 @@ impl<'a> Yul2IRContext<'a> {
             ast::Expression::FunctionCall(func_call) => {
                 // Use expected type for function calls
                 let func_name = func_call.id.name.clone();
+                self.check_values_count(&func_name, 1)?;
                 if let Some(instr) = parse_intrinsic_func_name(&func_name) {
                     self.walk_yul_instruction(
                         yul_func_name,
@@ -788,6 +798,47 @@ impl<'a> Yul2IRContext<'a> {
         }
     }
 
+    /// Check that a call of the function gives as many values as its place needs
+    fn check_values_count(&self, func_name: &str, needed: usize) -> Result<(), ASTLoweringError> {
+        let values = match parse_intrinsic_func_name(func_name) {
+            Some(
+                YulInstructionName::Stop
+                | YulInstructionName::Pop
+                | YulInstructionName::MStore
+                | YulInstructionName::MStore8
+                | YulInstructionName::MCopy
+                | YulInstructionName::SStore
+                | YulInstructionName::TStore
+                | YulInstructionName::SetImmutable
+                | YulInstructionName::CallDataCopy
+                | YulInstructionName::CodeCopy
+                | YulInstructionName::ExtCodeCopy
+                | YulInstructionName::DataCopy
+                | YulInstructionName::ReturnDataCopy
+                | YulInstructionName::Return
+                | YulInstructionName::Revert
+                | YulInstructionName::SelfDestruct
+                | YulInstructionName::Invalid
+                | YulInstructionName::Log0
+                | YulInstructionName::Log1
+                | YulInstructionName::Log2
+                | YulInstructionName::Log3
+                | YulInstructionName::Log4,
+            ) => 0,
+            Some(_) => 1,
+            None => match self.current_func_decls.borrow().get(func_name) {
+                Some(func) => func.returns.len(),
+                None => return Ok(()),
+            },
+        };
+        if values != needed {
+            return Err(ASTLoweringError::FunctionReturnValueNotFound(format!(
+                "{func_name} gives {values} values where {needed} are needed"
+            )));
+        }
+        Ok(())
+    }
+
     fn walk_function_call(
         &self,
         yul_func_name: &str,
-- 
2.43.0


From 7a8d7d2f99894297bbea8fb29704ac370c5dee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 49/52] fix: a slash before a quote does not hide the start of
 a string

---
 src/yul2ir/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yul2ir/utils.rs b/src/yul2ir/utils.rs
index 544b72d..05bd15f 100644
--- a/src/yul2ir/utils.rs
+++ b/src/yul2ir/utils.rs
@@ -392,7 +392,8 @@ pub fn remove_comments(code: &str) -> String {
                 }
             }
             '/' if !in_string => {
-                if let Some(next) = chars.next() {
+                // The next character may begin a string, so it is only taken if it begins a comment
+                if let Some(next) = chars.clone().next() {
                     match next {
                         '/' => {
                             // Skip until end of line and replace with empty line
@@ -404,6 +405,7 @@ pub fn remove_comments(code: &str) -> String {
                             }
                         }
                         '*' => {
+                            chars.next();
                             in_multiline = true;
                             // Skip until matching */
                             let mut after_star = false;
@@ -417,7 +419,6 @@ pub fn remove_comments(code: &str) -> String {
                         }
                         _ => {
                             result.push(c);
-                            result.push(next);
                         }
                     }
                 } else {
-- 
2.43.0


From d0c22ec4874d987f487b0759ef05c42e74d519a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 50/52] fix: parameters written with type bool or u8 do not
 crash the compiler

---
 src/yul2ir/yul_instruction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yul2ir/yul_instruction.rs b/src/yul2ir/yul_instruction.rs
index f63aa02..1f45be6 100644
--- a/src/yul2ir/yul_instruction.rs
+++ b/src/yul2ir/yul_instruction.rs
@@ -22,7 +22,7 @@ pub enum YulLowLevelValueType {
 impl YulLowLevelValueType {
     pub fn from_int_type(ty: IntType<'_>) -> Self {
         match ty.get_bit_width() {
-            32 => YulLowLevelValueType::I32,
+            1 | 8 | 32 => YulLowLevelValueType::I32,
             64 => YulLowLevelValueType::I64,
             256 => YulLowLevelValueType::U256,
             _ => {
-- 
2.43.0


From f4af039abd8adeaef68bd39049f1e87bd9952b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:02 +0000
Subject: [PATCH 51/52] fix: types written on the results of a function with
 several do not change their form

---
 src/yul2ir/transform.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 01b1446..3da4870 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -328,12 +328,8 @@ impl<'a> Yul2IRContext<'a> {
                     .returns
                     .clone()
                     .into_iter()
-                    .map(|x| {
-                        self.parse_ty_name_or_default(
-                            &x.type_name,
-                            self.default_func_return_element_type(),
-                        )
-                    })
+                    // a function gives its values in the same form whatever types are written
+                    .map(|_x| self.default_func_return_element_type())
                     .collect::<Vec<BasicTypeEnum<'a>>>()
             }
             _ => {
@@ -644,12 +640,8 @@ impl<'a> Yul2IRContext<'a> {
                         .returns
                         .clone()
                         .into_iter()
-                        .map(|x| {
-                            self.parse_ty_name_or_default(
-                                &x.type_name,
-                                self.default_func_return_element_type(),
-                            )
-                        })
+                        // a function gives its values in the same form whatever types are written
+                        .map(|_x| self.default_func_return_element_type())
                         .collect::<Vec<BasicTypeEnum<'a>>>()
                 }
                 _ => {
-- 
2.43.0


From 831d3a7e29d80cc68ed5ce16ac2ac8e8f66edf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 52/52] fix: scan only the functions of objects compiled in the
 same module

The functions of every nested object were declared in the module of the outermost
one, under names built from the name of their object alone. Where an object lies,
more than one level down, in one of the same name, the functions of the inner one
replaced those of the outer one: a call with other numbers of arguments and results
crashed the compiler, and a function was taken for reverting without being one.
---
 src/yul2ir/transform.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/yul2ir/transform.rs b/src/yul2ir/transform.rs
index 3da4870..70ba019 100644
--- a/src/yul2ir/transform.rs
+++ b/src/yul2ir/transform.rs
@@ -48,6 +48,11 @@ pub fn has_sub_contract(object: &Object) -> bool {
     false
 }
 
+/// Whether a nested object is compiled into the same module as the object it is nested in.
+fn is_compiled_with(object: &Object, inner_object: &Object) -> bool {
+    object.name == inner_object.name || inner_object.name == format!("{}_deployed", &object.name)
+}
+
 #[allow(unused)]
 impl<'a> Yul2IRContext<'a> {
     pub(crate) fn walk_block(&self, yul_func_name: &str, block: &Block) -> CompileResult<'a> {
@@ -1473,10 +1478,13 @@ impl<'a> Yul2IRContext<'a> {
             }
         }
 
-        // Recursively scan nested objects in inner_segments
+        // Scan the nested objects compiled in this context as well. Any other nested object has a
+        // context of its own, and its functions may have the same qualified names
         for inner_segment in object.inner_segments.iter() {
             if let InnerSegment::Object(inner_object) = inner_segment {
-                self.scan_func_decls(inner_object)?;
+                if is_compiled_with(object, inner_object) {
+                    self.scan_func_decls(inner_object)?;
+                }
             }
         }
 
@@ -1543,9 +1551,7 @@ impl<'a> Yul2IRContext<'a> {
                         .insert(data_segment_qualified_name.to_string(), global_var);
 
                     // If it's a deployed child contract, we need to compile it in this context as well to get the call function
-                    if object.name == inner_object.name
-                        || inner_object.name == format!("{}_deployed", &object.name)
-                    {
+                    if is_compiled_with(object, inner_object) {
                         self.transform_object(inner_object, false)?;
                     }
                 }
-- 
2.43.0

