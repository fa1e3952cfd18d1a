From c83258e60e8ae180b9c8c28b859d6af384235ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 01/25] fix: skip empty nodes inside forks when looking up hash
 tree labels

An empty tree next to a labeled tree hides labels from lookups: in
fork(fork(x, empty), y), which is part of the interface specification's own
example, y was reported absent, and fork(pruned, empty) was reported absent
instead of unknown.
---
 packages/ic-certification/src/hash_tree/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..600e2dc 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -296,6 +296,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// The label is not part of this node's tree.
     Absent,
 
+    /// This node does not contain any labels, the label could still be to the left or to the right.
+    Empty,
+
     /// Same as absent, but some leaves were pruned and so it's impossible to know.
     Unknown,
 
@@ -441,18 +444,22 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             HashTreeNode::Fork(nodes) => {
                 let left_label = nodes.0.lookup_label(label);
                 match left_label {
-                    // On greater or unknown, look on the right side of the fork.
+                    // On empty, greater or unknown, look on the right side of the fork.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     LookupLabelResult::Greater => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
@@ -460,6 +467,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +499,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less), _) => Absent,
         }
     }
 }
@@ -517,7 +525,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From 27528002803939936ac975b3257a9f5a46a0a367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 02/25] fix: reject truncated cbor maps and do not trust their
 claimed size

A map that ended before its claimed number of entries was accepted, and the
claimed number of entries was used as the capacity of the resulting map, so a
few bytes could request an arbitrary amount of memory and abort the process.
---
 packages/ic-cbor/src/cbor_parser.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..c8af5a7 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -4,7 +4,7 @@ use nom::{
     bytes::complete::take,
     combinator::{eof, map, peek},
     error::{Error, ErrorKind},
-    multi::{count, fold_many_m_n},
+    multi::count,
     number::complete::{be_u16, be_u32, be_u64, be_u8},
     sequence::terminated,
     Err, IResult,
@@ -176,18 +176,9 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         5 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = fold_many_m_n(
-                0,
-                data_len,
-                extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
-                |mut acc, (key, val)| {
-                    acc.insert(key, val);
-                    acc
-                },
-            )(i)?;
+            let (i, data) = count(extract_key_val_pair, data_len)(i)?;
 
-            Ok((i, CborValue::Map(data)))
+            Ok((i, CborValue::Map(data.into_iter().collect())))
         }
 
         // ignore custom data tags and floats, we don't currently need them
-- 
2.43.0


From 9f5e7764377b49818aa85a46392c2bda542979a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 03/25] fix: limit the nesting depth of parsed cbor

Nested data items are parsed recursively without a limit, so a few kilobytes of
nested arrays, maps or tags overflow the stack and abort the process.
---
 packages/ic-cbor/src/cbor_parser.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index c8af5a7..1d8a35a 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -121,8 +121,8 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -132,12 +132,22 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+/// The maximum number of data items that can be nested inside of each other.
+///
+/// Data items are parsed recursively, so without a limit the nesting of untrusted data
+/// could exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 256;
+
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    let Some(nested_depth) = depth.checked_sub(1) else {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    };
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -169,28 +179,28 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, nested_depth), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
 
         5 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(extract_key_val_pair, data_len)(i)?;
+            let (i, data) = count(|i| extract_key_val_pair(i, nested_depth), data_len)(i)?;
 
             Ok((i, CborValue::Map(data.into_iter().collect())))
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, nested_depth),
+        7 => parser(i, nested_depth),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, MAX_NESTING_DEPTH), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From a06681e1a660665314064550f8259f1edd4904d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 04/25] fix: decode cbor negative integers that do not fit the
 width of their encoding

-1 - n was computed after truncating n to a signed integer of the same width, so
for example the encoding of -129 (0x3880) was decoded as 127.
---
 packages/ic-cbor/src/cbor_parser.rs | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 1d8a35a..f36ffc8 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -42,13 +42,24 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    // If the decoded value does not fit into a signed int of the same width, then the next wider signed int is used.
+    // There is no wider signed int for 64 bit values, so in that case None is returned.
+    fn to_negative(self) -> Option<CborNegativeInt> {
+        Some(match self {
+            CborUnsignedInt::UInt8(n) => match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - (n as i16)),
+            },
+            CborUnsignedInt::UInt16(n) => match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - (n as i32)),
+            },
+            CborUnsignedInt::UInt32(n) => match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - (n as i64)),
+            },
+            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - i64::try_from(n).ok()?),
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -168,7 +179,10 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Some(negative) => Ok((i, CborValue::Signed(negative))),
+            None => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0


From 77bd14b8669b4f81c9794875edb7a370d080166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 05/25] fix: return an error for canister ranges with oversized
 principals

Principal::from_slice panics when it is given more than 29 bytes.
---
 packages/ic-cbor/src/cbor_parser.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index f36ffc8..a5e5255 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -238,10 +238,14 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
                 _ => return Err(CborError::MalformedCborCanisterRanges),
             };
 
-            Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
-            ))
+            let (Ok(first_principal), Ok(second_principal)) = (
+                Principal::try_from_slice(first_principal),
+                Principal::try_from_slice(second_principal),
+            ) else {
+                return Err(CborError::MalformedCborCanisterRanges);
+            };
+
+            Ok((first_principal, second_principal))
         })
         .collect::<Result<_, _>>()
 }
-- 
2.43.0


From 7e21162383f794dd53f2e931b3269c1ad6083443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 06/25] fix: do not overflow when computing the accepted
 certificate time window

An offset larger than the current time made the subtraction panic, or wrap
around and refuse every certificate in builds without overflow checks.
---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From c8440c23c4e3c1f1730b1ca8f35bf54dbb6e8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 07/25] fix: return an error when verifying a delegation for an
 oversized canister id

Principal::from_slice panics when it is given more than 29 bytes.
---
 .../src/certificate_verification.rs                        | 6 +++++-
 packages/ic-certificate-verification/src/error.rs          | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index f31096d..b858f5a 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -95,7 +95,11 @@ fn verify_delegation(
         );
     };
 
-    let canister_id = Principal::from_slice(canister_id);
+    let canister_id = Principal::try_from_slice(canister_id).map_err(|_| {
+        CertificateVerificationError::MalformedCanisterId {
+            canister_id: canister_id.to_vec(),
+        }
+    })?;
     let canister_ranges: Vec<(Principal, Principal)> = parse_cbor_principals_array(canister_range)?;
     if !principal_is_within_ranges(&canister_id, &canister_ranges[..]) {
         // the certificate is not authorized to answer calls for this canister
diff --git a/packages/ic-certificate-verification/src/error.rs b/packages/ic-certificate-verification/src/error.rs
index a7c014e..73a15ca 100644
--- a/packages/ic-certificate-verification/src/error.rs
+++ b/packages/ic-certificate-verification/src/error.rs
@@ -43,6 +43,13 @@ pub enum CertificateVerificationError {
         min_certificate_time: u128,
     },
 
+    /// The canister ID is not a valid principal
+    #[error("Canister ID {canister_id:?} is not a valid principal")]
+    MalformedCanisterId {
+        /// The canister ID that was provided
+        canister_id: Vec<u8>,
+    },
+
     /// Certificate is for a different subnet
     #[error(
         "Canister ID {canister_id} is not within the certificate's range: {canister_ranges:?}"
-- 
2.43.0


From 83f84683a87cdb873ec7d1ac8b493326edcca522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 08/25] fix: refuse signatures and public keys that are not the
 encoding of a compressed point

The BLS library panics on inputs that are too short and ignores trailing bytes
and the infinity flag, so altered signatures were still accepted.
---
 .../src/signature_verification/mod.rs         | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..dd972dd 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -10,11 +10,30 @@ mod reproducible_rng;
 #[cfg(test)]
 mod tests;
 
+/// The length of a compressed point on the G1 curve
+const SIGNATURE_LENGTH: usize = 48;
+
+/// The length of a compressed point on the G2 curve
+const PUBLIC_KEY_LENGTH: usize = 96;
+
+/// Check that the bytes are the encoding of a compressed point that is not the point at infinity.
+///
+/// The highest bit of the encoding of a compressed point is set, the second highest bit is set
+/// for the point at infinity. The BLS library does not check the length of its inputs, it will
+/// panic if they are shorter than what it expects, and ignore any additional bytes.
+fn is_compressed_point(bytes: &[u8], expected_length: usize) -> bool {
+    bytes.len() == expected_length && bytes[0] & 0b1100_0000 == 0b1000_0000
+}
+
 pub fn verify_signature(
     pk: &[u8],
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    if !is_compressed_point(sig, SIGNATURE_LENGTH) || !is_compressed_point(pk, PUBLIC_KEY_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From c6fc0e005057ff2e11185890575ccf267b7aa37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 09/25] fix: accept all names of headers and query parameters
 when parsing a cel expression

Names with characters such as underscores and dots are legal, and are printed by
the certification library, but responses certified with them did not verify.
---
 .../ic-response-verification/src/cel/parser.rs     | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..504d0b0 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -1,7 +1,7 @@
 use crate::cel::error::{CelParserError, CelParserResult};
 use nom::branch::alt;
-use nom::bytes::complete::{escaped, take_while};
-use nom::character::complete::{char, multispace0, one_of};
+use nom::bytes::complete::take_while;
+use nom::character::complete::{char, multispace0};
 use nom::character::is_alphanumeric;
 use nom::combinator::{cut, map};
 use nom::error::{context, ContextError, ParseError};
@@ -65,15 +65,11 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
-
+    // The names of headers and query parameters may contain many more characters than
+    // alphanumerical ones. Escape sequences are not supported.
     context(
         "parse_str",
-        escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
-            '\\',
-            one_of("\"n\\"),
-        ),
+        take_while(|e: char| e != '"' && e != '\\' && !e.is_whitespace()),
     )(i)
 }
 
-- 
2.43.0


From c6a72ddc4f8c8d6dd804f6ccd6f07ad59bce2cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 10/25] fix: limit the nesting depth of parsed cel expressions

The parser is recursive, so a response with a deeply nested expression overflowed
the stack of the verifier.
---
 .../src/cel/parser.rs                         | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 504d0b0..7697e57 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -11,6 +11,9 @@ use nom::{IResult, Parser};
 use std::collections::HashMap;
 use std::fmt;
 
+/// The maximum nesting depth of a CEL expression. Valid expressions do not nest deeper than 6 levels.
+const MAX_NESTING_DEPTH: usize = 32;
+
 #[derive(Debug, Eq, PartialEq)]
 pub(crate) enum CelValue<'a> {
     String(&'a str),
@@ -157,7 +160,30 @@ fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     )(i)
 }
 
+fn exceeds_max_nesting_depth(i: &str) -> bool {
+    let mut depth = 0usize;
+    let mut is_string = false;
+
+    i.chars().any(|e| {
+        match e {
+            '"' => is_string = !is_string,
+            '(' | '[' | '{' if !is_string => depth += 1,
+            ')' | ']' | '}' if !is_string => depth = depth.saturating_sub(1),
+            _ => {}
+        };
+
+        depth > MAX_NESTING_DEPTH
+    })
+}
+
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
+    // The parser is recursive, a deeply nested expression would overflow the stack.
+    if exceeds_max_nesting_depth(i) {
+        return Err(CelParserError::CelSyntaxException(format!(
+            "The expression exceeds the maximum nesting depth of {MAX_NESTING_DEPTH}"
+        )));
+    }
+
     let result = cel_value::<nom::error::Error<&str>>(i);
 
     match result {
-- 
2.43.0


From 47ae0dfc1b889cba167c371170af198d1dc68714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 11/25] fix: prove the absence of more specific wildcards for
 request paths below http_expr

---
 .../src/tree/certification_tree.rs             | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..42a2ed4 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -99,11 +99,19 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // The paths are given their prefix here so that a leading `http_expr` segment of the
+                // request URL is not mistaken for it.
+                let prefixed = |path: &[CertificationTreePathSegment]| {
+                    [&[PATH_PREFIX_BYTES.to_vec()], path].concat()
+                };
+                more_specific_wildcards_for(
+                    &prefixed(&requested_tree_path),
+                    &prefixed(&responding_tree_path),
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
-- 
2.43.0


From 66ceae45af3cee5cce2722d027da151f1a2c9de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 12/25] fix: do not accept data after the end of a certified
 compressed body

---
 .../src/verification/body.rs                  | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/ic-response-verification/src/verification/body.rs b/packages/ic-response-verification/src/verification/body.rs
index 211d8a0..b12b4a2 100644
--- a/packages/ic-response-verification/src/verification/body.rs
+++ b/packages/ic-response-verification/src/verification/body.rs
@@ -1,18 +1,29 @@
 use crate::error::ResponseVerificationResult;
-use flate2::read::{DeflateDecoder, GzDecoder};
-use std::io::Read;
+use flate2::read::{DeflateDecoder, MultiGzDecoder};
+use std::io::{self, Read};
 
 const MAX_CHUNK_SIZE_TO_DECOMPRESS: usize = 1_024;
 
 pub fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
     match encoding {
-        Some("gzip") => body_from_decoder(GzDecoder::new(body)),
-        Some("deflate") => body_from_decoder(DeflateDecoder::new(body)),
+        // a gzip body can have several members, clients decode all of them
+        Some("gzip") => body_from_decoder(&mut MultiGzDecoder::new(body)),
+        Some("deflate") => {
+            let mut decoder = DeflateDecoder::new(body);
+            let decoded = body_from_decoder(&mut decoder)?;
+
+            // data after the end of the stream is not part of what is certified
+            if decoder.total_in() != body.len() as u64 {
+                return Err(io::Error::from(io::ErrorKind::InvalidData).into());
+            }
+
+            Ok(decoded)
+        }
         _ => Ok(body.to_owned()),
     }
 }
 
-fn body_from_decoder<D: Read>(mut decoder: D) -> ResponseVerificationResult<Vec<u8>> {
+fn body_from_decoder<D: Read>(decoder: &mut D) -> ResponseVerificationResult<Vec<u8>> {
     let mut decoded = Vec::new();
     let mut buffer = [0u8; MAX_CHUNK_SIZE_TO_DECOMPRESS];
 
-- 
2.43.0


From ded272e11420ce2a1be7a738040effbb2b4edcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 13/25] fix: require proof that a path is absent before falling
 back to /index.html

---
 .../src/validation/v1_validation.rs                         | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v1_validation.rs b/packages/ic-response-verification/src/validation/v1_validation.rs
index ab86c21..52594d3 100644
--- a/packages/ic-response-verification/src/validation/v1_validation.rs
+++ b/packages/ic-response-verification/src/validation/v1_validation.rs
@@ -11,12 +11,16 @@ pub fn validate_body(tree: &HashTree, request_path: &str, body_sha: &Hash) -> bo
         // https://internetcomputer.org/docs/current/references/ic-interface-spec/#http-gateway-certification
         //
         // It may be possible to remove this with a combination of asset canister redirect rules and v2 response verification.
-        _ => match tree.lookup_path(&index_fallback_path) {
+        //
+        // It may only be used if the tree proves that the path does not exist.
+        LookupResult::Absent => match tree.lookup_path(&index_fallback_path) {
             LookupResult::Found(v) => v,
             _ => {
                 return false;
             }
         },
+
+        _ => return false,
     };
 
     body_sha == tree_sha
-- 
2.43.0


From 1e440dbc099e2db0ed36c9a37f7ca09d328f0b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 14/25] fix: certify assets whose paths are not valid in a URL

---
 packages/ic-asset-certification/src/asset_router.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..f9a1fb1 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -790,7 +790,6 @@ impl<'content> AssetRouter<'content> {
         let headers = vec![("location".to_string(), to)];
 
         let (response, certification) = Self::prepare_response_and_certification(
-            from.clone(),
             status_code,
             Cow::Owned(vec![]),
             headers,
@@ -841,7 +840,6 @@ impl<'content> AssetRouter<'content> {
         };
 
         Self::prepare_response_and_certification(
-            asset.url.to_string(),
             status_code,
             content,
             headers,
@@ -850,7 +848,6 @@ impl<'content> AssetRouter<'content> {
     }
 
     fn prepare_response_and_certification(
-        url: String,
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
@@ -873,7 +870,9 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        // The path of a request is not part of its certification, and paths of assets may contain
+        // characters that are not allowed in a URL.
+        let request = HttpRequest::get("/").build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 4876d70d230e7cd62dee480ce3d27fe125732240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 15/25] fix: serve a fallback for the very path of its scope

---
 packages/ic-asset-certification/src/asset_router.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9a1fb1..3965170 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -419,6 +419,18 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // A fallback for the requested path itself is the most specific one.
+        if let Some(response) = self.get_encoded_fallback_asset(&preferred_encodings, req_path) {
+            return Ok(response);
+        }
+
+        if let Some(response) = self
+            .fallback_responses
+            .get(&RequestKey::new(req_path, None, None))
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From b94a13aaf6a81e2bed97c83ddbc1a6ad04990e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 16/25] fix: respect refused and differently cased encodings of
 a request

---
 .../src/asset_router.rs                       | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 3965170..8b6d386 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -906,13 +906,13 @@ impl<'content> AssetRouter<'content> {
         for encoding in preferred_encodings {
             if let Some(response) = self.responses.get(&RequestKey::new(
                 url,
-                Some(encoding.to_string()),
+                Some(encoding.to_ascii_lowercase()),
                 maybe_range_begin,
             )) {
                 if response.response.body().len() > ASSET_CHUNK_SIZE {
                     if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
                         url,
-                        Some(encoding.to_string()),
+                        Some(encoding.to_ascii_lowercase()),
                         Some(0),
                     )) {
                         return Some(first_chunk_response);
@@ -936,7 +936,7 @@ impl<'content> AssetRouter<'content> {
         for encoding in preferred_encodings {
             if let Some(response) = self.fallback_responses.get(&RequestKey::new(
                 scope,
-                Some(encoding.to_string()),
+                Some(encoding.to_ascii_lowercase()),
                 None,
             )) {
                 return Some(response);
@@ -972,12 +972,21 @@ impl<'content> AssetRouter<'content> {
         let mut encodings = encodings
             .split(',')
             .filter_map(|encoding| {
-                encoding
-                    .split(';')
-                    .collect::<Vec<_>>()
-                    .first()
-                    .map(|s| s.trim())
-                    .map(|s| (s, Self::default_encoding_quality(s)))
+                let mut parts = encoding.split(';').map(|s| s.trim());
+                let encoding = parts.next()?;
+
+                // encodings with a quality of zero are not acceptable to the client
+                let is_refused = parts.any(|param| {
+                    param
+                        .strip_prefix("q=")
+                        .or_else(|| param.strip_prefix("Q="))
+                        .is_some_and(|quality| quality.parse::<f32>() == Ok(0.0))
+                });
+                if is_refused {
+                    return None;
+                }
+
+                Some((encoding, Self::default_encoding_quality(encoding)))
             })
             .collect::<Vec<_>>();
 
-- 
2.43.0


From ddafa2385163ada3beede95c2bf0e4be1c6a4933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 17/25] fix: remove replaced responses and deleted chunks from
 the certification tree

---
 .../src/asset_router.rs                       | 65 +++++++++++++------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 8b6d386..68283c6 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -595,6 +595,8 @@ impl<'content> AssetRouter<'content> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
 
+        self.remove_response(&asset_url, encoding);
+
         if total_length > ASSET_CHUNK_SIZE {
             let mut range_begin = 0;
             while range_begin < asset.content.len() {
@@ -637,25 +639,34 @@ impl<'content> AssetRouter<'content> {
             Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
-
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
-            let mut range_begin: usize = 0;
-            while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
-                    &asset_url,
-                    encoding_str(encoding),
-                    Some(range_begin),
-                ));
-                range_begin += ASSET_CHUNK_SIZE;
-            }
-        }
+        self.remove_response(&asset_url, encoding);
 
         Ok(())
     }
 
+    /// Removes the response for the provided URL and encoding, along with its chunks and
+    /// the certification of all of them.
+    fn remove_response(&mut self, url: &str, encoding: Option<AssetEncoding>) {
+        let mut tree = self.tree.borrow_mut();
+
+        if let Some(removed) =
+            self.responses
+                .remove(&RequestKey::new(url, encoding_str(encoding), None))
+        {
+            tree.delete(&removed.tree_entry);
+        }
+
+        let mut range_begin = 0;
+        while let Some(removed) = self.responses.remove(&RequestKey::new(
+            url,
+            encoding_str(encoding),
+            Some(range_begin),
+        )) {
+            tree.delete(&removed.tree_entry);
+            range_begin += ASSET_CHUNK_SIZE;
+        }
+    }
+
     fn prepare_static_asset<'path>(
         asset: Asset<'content, 'path>,
         content_type: Option<String>,
@@ -699,6 +710,8 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        self.remove_fallback_response(&fallback_for.scope, encoding);
+
         self.tree.borrow_mut().insert(&response.tree_entry);
         self.fallback_responses.insert(
             RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
@@ -724,14 +737,22 @@ impl<'content> AssetRouter<'content> {
         )?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
-            &fallback_for.scope,
-            encoding_str(encoding),
-            None,
-        ));
+        self.remove_fallback_response(&fallback_for.scope, encoding);
+
         Ok(())
     }
 
+    /// Removes the fallback response for the provided scope and encoding, along with its
+    /// certification.
+    fn remove_fallback_response(&mut self, scope: &str, encoding: Option<AssetEncoding>) {
+        if let Some(removed) =
+            self.fallback_responses
+                .remove(&RequestKey::new(scope, encoding_str(encoding), None))
+        {
+            self.tree.borrow_mut().delete(&removed.tree_entry);
+        }
+    }
+
     fn prepare_fallback_asset<'path>(
         asset: Asset<'content, 'path>,
         additional_headers: Vec<(String, String)>,
@@ -767,6 +788,8 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        self.remove_response(&from, None);
+
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
@@ -784,7 +807,7 @@ impl<'content> AssetRouter<'content> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
+        self.remove_response(&from, None);
 
         Ok(())
     }
-- 
2.43.0


From 60f70b0f2ca7490e5f0a5490a5fed8269d17dcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 18/25] fix: do not answer range requests for an asset with
 another one

---
 .../src/asset_router.rs                       | 74 +++++++------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 68283c6..80c02f9 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -397,26 +397,33 @@ impl<'content> AssetRouter<'content> {
         preferred_encodings: Vec<&'a str>,
         maybe_range_begin: Option<usize>,
     ) -> AssetCertificationResult<&CertifiedAssetResponse<'content>> {
-        if let Some(response) =
-            self.get_encoded_asset(&preferred_encodings, req_path, maybe_range_begin)
-        {
-            return Ok(response);
-        }
-
-        if let Some(response) =
-            self.responses
-                .get(&RequestKey::new(req_path, None, maybe_range_begin))
-        {
-            if response.response.body().len() > ASSET_CHUNK_SIZE {
-                if let Some(first_chunk_response) =
-                    self.responses
-                        .get(&RequestKey::new(req_path, None, Some(0)))
-                {
-                    return Ok(first_chunk_response);
-                }
-            } else {
+        let encodings = preferred_encodings
+            .iter()
+            .map(|encoding| Some(encoding.to_ascii_lowercase()))
+            .chain([None]);
+
+        for encoding in encodings {
+            let Some(response) =
+                self.responses
+                    .get(&RequestKey::new(req_path, encoding.clone(), None))
+            else {
+                continue;
+            };
+
+            // The ranges of assets that are not split into chunks are answered by the entire asset.
+            if response.response.body().len() <= ASSET_CHUNK_SIZE {
                 return Ok(response);
             }
+
+            let range_begin = maybe_range_begin.unwrap_or(0);
+            return self
+                .responses
+                .get(&RequestKey::new(req_path, encoding, Some(range_begin)))
+                .ok_or_else(|| {
+                    AssetCertificationError::RequestError(format!(
+                        "The asset for \"{req_path}\" has no chunk that starts at {range_begin}"
+                    ))
+                });
         }
 
         // A fallback for the requested path itself is the most specific one.
@@ -920,37 +927,6 @@ impl<'content> AssetRouter<'content> {
         Ok((response, certification))
     }
 
-    fn get_encoded_asset(
-        &self,
-        preferred_encodings: &[&str],
-        url: &str,
-        maybe_range_begin: Option<usize>,
-    ) -> Option<&CertifiedAssetResponse<'content>> {
-        for encoding in preferred_encodings {
-            if let Some(response) = self.responses.get(&RequestKey::new(
-                url,
-                Some(encoding.to_ascii_lowercase()),
-                maybe_range_begin,
-            )) {
-                if response.response.body().len() > ASSET_CHUNK_SIZE {
-                    if let Some(first_chunk_response) = self.responses.get(&RequestKey::new(
-                        url,
-                        Some(encoding.to_ascii_lowercase()),
-                        Some(0),
-                    )) {
-                        return Some(first_chunk_response);
-                    } else {
-                        return None;
-                    }
-                } else {
-                    return Some(response);
-                }
-            }
-        }
-
-        None
-    }
-
     fn get_encoded_fallback_asset(
         &self,
         preferred_encodings: &[&str],
-- 
2.43.0


From 0f4f95026634cbcc10cc3071e7f684aa22172187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 19/25] fix: certify the chunks of an asset for requests of
 their range

---
 .../src/asset_router.rs                       | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 80c02f9..c10c848 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -836,6 +836,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -868,6 +869,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -878,13 +880,23 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+
+            // The first chunk is the response to requests for the entire asset, all others
+            // need to be requested by their range.
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
             status_code,
             content,
             headers,
+            certified_request_headers,
             request_headers,
         )
     }
@@ -894,6 +906,7 @@ impl<'content> AssetRouter<'content> {
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
+        request_headers: Vec<(String, String)>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
 
@@ -914,7 +927,9 @@ impl<'content> AssetRouter<'content> {
 
         // The path of a request is not part of its certification, and paths of assets may contain
         // characters that are not allowed in a URL.
-        let request = HttpRequest::get("/").build();
+        let request = HttpRequest::get("/")
+            .with_headers(request_headers)
+            .build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From f2d898c1a23873dc43f22d9e73651a12c681ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 20/25] fix: JS bindings return an error for a response with an
 invalid status code instead of trapping

---
 .../ic-response-verification-wasm/src/lib.rs  |  8 +++++---
 .../src/response.rs                           | 19 ++++++++++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/packages/ic-response-verification-wasm/src/lib.rs b/packages/ic-response-verification-wasm/src/lib.rs
index 6c19790..c7e3d4b 100644
--- a/packages/ic-response-verification-wasm/src/lib.rs
+++ b/packages/ic-response-verification-wasm/src/lib.rs
@@ -1,10 +1,11 @@
 #![deny(clippy::all)]
 
 use crate::request::request_from_js;
-use crate::response::response_from_js;
+use crate::response::try_response_from_js;
 use ic_response_verification::{
     types::VerificationInfo, verify_request_response_pair as verify_request_response_pair_impl,
-    ResponseVerificationJsError, MAX_VERIFICATION_VERSION, MIN_VERIFICATION_VERSION,
+    ResponseVerificationError, ResponseVerificationJsError, MAX_VERIFICATION_VERSION,
+    MIN_VERIFICATION_VERSION,
 };
 use wasm_bindgen::{prelude::*, JsCast};
 
@@ -53,7 +54,8 @@ pub fn verify_request_response_pair(
     min_requested_verification_version: u8,
 ) -> Result<JsVerificationInfo, ic_response_verification::ResponseVerificationJsError> {
     let request = request_from_js(JsValue::from(request));
-    let response = response_from_js(JsValue::from(response));
+    let response = try_response_from_js(JsValue::from(response))
+        .map_err(|e| ResponseVerificationJsError::from(ResponseVerificationError::from(e)))?;
 
     verify_request_response_pair_impl(
         request.into(),
diff --git a/packages/ic-response-verification-wasm/src/response.rs b/packages/ic-response-verification-wasm/src/response.rs
index 172c78e..9610f1c 100644
--- a/packages/ic-response-verification-wasm/src/response.rs
+++ b/packages/ic-response-verification-wasm/src/response.rs
@@ -1,4 +1,4 @@
-use ic_http_certification::HttpResponse;
+use ic_http_certification::{HttpCertificationError, HttpCertificationResult, HttpResponse};
 use wasm_bindgen::{prelude::*, JsCast};
 
 #[wasm_bindgen(typescript_custom_section)]
@@ -10,7 +10,7 @@ interface Response {
 }
 "#;
 
-pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+pub fn try_response_from_js(resp: JsValue) -> HttpCertificationResult<HttpResponse<'static>> {
     use js_sys::{Array, JsString, Number, Object, Uint8Array};
 
     let status_code_str = JsString::from("status_code");
@@ -47,11 +47,20 @@ pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
         }
     }
 
-    HttpResponse::builder()
-        .with_status_code(status_code.try_into().unwrap())
+    let status_code = status_code
+        .try_into()
+        .map_err(|_| HttpCertificationError::InvalidHttpStatusCode { status_code })?;
+
+    Ok(HttpResponse::builder()
+        .with_status_code(status_code)
         .with_headers(headers)
         .with_body(body)
-        .build()
+        .build())
+}
+
+#[cfg(test)]
+fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+    try_response_from_js(resp).unwrap()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7657530be3180792e59b7c7829498949cf1dd239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 21/25] fix: reject CEL expressions followed by other text

---
 packages/ic-response-verification/src/cel/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 7697e57..bfce324 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -3,7 +3,7 @@ use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::character::complete::{char, multispace0};
 use nom::character::is_alphanumeric;
-use nom::combinator::{cut, map};
+use nom::combinator::{all_consuming, cut, map};
 use nom::error::{context, ContextError, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
@@ -184,10 +184,14 @@ pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
         )));
     }
 
-    let result = cel_value::<nom::error::Error<&str>>(i);
+    // Anything but whitespace that follows the expression makes it invalid.
+    let result = all_consuming(terminated(
+        cel_value::<nom::error::Error<&str>>,
+        multispace0,
+    ))(i);
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-        Ok((_remaining, result)) => Ok(result),
+        Ok((_, result)) => Ok(result),
     }
 }
-- 
2.43.0


From 9d95dc959765d4e19f6000e1e71d0a404fdd819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:35 +0000
Subject: [PATCH 22/25] fix: reject CEL objects that set a field more than once

---
 packages/ic-response-verification/src/cel/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index bfce324..8bf23bf 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -3,7 +3,7 @@ use nom::branch::alt;
 use nom::bytes::complete::take_while;
 use nom::character::complete::{char, multispace0};
 use nom::character::is_alphanumeric;
-use nom::combinator::{all_consuming, cut, map};
+use nom::combinator::{all_consuming, cut, map, map_opt};
 use nom::error::{context, ContextError, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
@@ -118,9 +118,15 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
             drop_separators(
                 '{',
                 '}',
-                map(
+                // An object that sets the same field more than once is ambiguous.
+                map_opt(
                     separated_list0(trim_whitespace(char(',')), key_value),
-                    |tuple_vec| tuple_vec.into_iter().collect(),
+                    |tuple_vec| {
+                        let field_count = tuple_vec.len();
+                        let fields: HashMap<_, _> = tuple_vec.into_iter().collect();
+
+                        (fields.len() == field_count).then_some(fields)
+                    },
                 ),
             ),
         )),
-- 
2.43.0


From 0832b1f2d5c9ca9496ef4404997a00fa3af5158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:36 +0000
Subject: [PATCH 23/25] fix: reject a CEL response header list without headers

---
 .../ic-response-verification/src/cel/ast_mapping.rs    | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/cel/ast_mapping.rs b/packages/ic-response-verification/src/cel/ast_mapping.rs
index cbba636..207cf07 100644
--- a/packages/ic-response-verification/src/cel/ast_mapping.rs
+++ b/packages/ic-response-verification/src/cel/ast_mapping.rs
@@ -148,7 +148,15 @@ fn validate_response_certification<'a>(
                     validate_object(certified_response_headers, "ResponseHeaderList")
                 })
                 .transpose()?
-                .and_then(|certified_response_headers| certified_response_headers.get("headers"))
+                .map(|certified_response_headers| {
+                    certified_response_headers.get("headers").ok_or_else(|| {
+                        CelParserError::MissingObjectProperty {
+                            object_name: "ResponseHeaderList".into(),
+                            expected_property_name: "headers".into(),
+                        }
+                    })
+                })
+                .transpose()?
                 .map(|headers| validate_string_array(headers, property_name))
                 .transpose()
         };
-- 
2.43.0


From b27162e3481fe5c1e0c1a155b92489479adc81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:47 +0000
Subject: [PATCH 24/25] fix: delete only the router's own entries from a shared
 tree in delete_all_assets

---
 packages/ic-asset-certification/src/asset_router.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index c10c848..efb4464 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -380,9 +380,14 @@ impl<'content> AssetRouter<'content> {
     /// After performing this operation, one must set the canister's certified data (`ic_cdk::api::set_certified_data()`)
     /// to the new [root hash](AssetRouter::root_hash) of the tree.
     pub fn delete_all_assets(&mut self) {
-        self.responses.clear();
-        self.fallback_responses.clear();
-        self.tree.borrow_mut().clear();
+        // the tree can be shared, so only the entries of this router's own responses are removed
+        let mut tree = self.tree.borrow_mut();
+        for (_, response) in self.responses.drain() {
+            tree.delete(&response.tree_entry);
+        }
+        for (_, response) in self.fallback_responses.drain() {
+            tree.delete(&response.tree_entry);
+        }
     }
 
     /// Returns the root hash of the underlying
-- 
2.43.0


From c42b4a8580e43ec472be7b709108030e82dd5291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:25 +0000
Subject: [PATCH 25/25] fix: exclude all more specific wildcards for request
 paths that end in a reserved name

---
 .../src/validation/v2_validation.rs                        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..48030d3 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -100,6 +100,11 @@ pub fn validate_expr_path(
             },
         );
     }
+
+    // determined while the path still has its suffix, so that a last segment of the request
+    // that looks like a suffix is not taken for it
+    let mut more_specific_wildcards =
+        more_specific_wildcards_for(&request_url_path, &original_path);
     request_url_path.pop(); // pop "<$>"
 
     let mut potential_path = original_path.clone();
@@ -116,7 +121,7 @@ pub fn validate_expr_path(
     }
 
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
+    for wildcard_path in more_specific_wildcards.iter_mut() {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
         if path_might_exist_in_tree(wildcard_path, tree) {
-- 
2.43.0

