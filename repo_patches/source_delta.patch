From 2365fb485f899ad463d2967da1a5102807bce34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 01/26] fix: treat empty hash tree nodes as containing no
 labels during lookup

An empty sibling inside a fork made lookups report Absent for labels that are
present (empty on the left) or unknown (pruned sibling, empty on the right).
---
 packages/ic-certification/src/hash_tree/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packages/ic-certification/src/hash_tree/mod.rs b/packages/ic-certification/src/hash_tree/mod.rs
index efb8d41..18b2101 100644
--- a/packages/ic-certification/src/hash_tree/mod.rs
+++ b/packages/ic-certification/src/hash_tree/mod.rs
@@ -305,6 +305,9 @@ enum LookupLabelResult<'node, Storage: AsRef<[u8]>> {
     /// The label was not found, but could still be to the right.
     Greater,
 
+    /// The node is empty, so it says nothing about where the label could be.
+    Empty,
+
     /// The label was found. Contains a reference to the [HashTreeNode].
     Found(&'node HashTreeNode<Storage>),
 }
@@ -446,20 +449,26 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
                             LookupLabelResult::Less => LookupLabelResult::Absent,
+                            LookupLabelResult::Empty => LookupLabelResult::Greater,
                             result => result,
                         }
                     }
                     LookupLabelResult::Unknown => {
                         let right_label = nodes.1.lookup_label(label);
                         match right_label {
-                            LookupLabelResult::Less => LookupLabelResult::Unknown,
+                            LookupLabelResult::Less | LookupLabelResult::Empty => {
+                                LookupLabelResult::Unknown
+                            }
                             result => result,
                         }
                     }
+                    // An empty left side contains no labels, only the right side matters.
+                    LookupLabelResult::Empty => nodes.1.lookup_label(label),
                     result => result,
                 }
             }
             HashTreeNode::Pruned(_) => LookupLabelResult::Unknown,
+            HashTreeNode::Empty() => LookupLabelResult::Empty,
             // Any other type of node and we need to look for more forks.
             _ => LookupLabelResult::Absent,
         }
@@ -491,7 +500,7 @@ impl<Storage: AsRef<[u8]>> HashTreeNode<Storage> {
             (None, Labeled(_, _) | Fork(_)) => Error,
 
             (Some(LLR::Unknown), _) => Unknown,
-            (Some(LLR::Absent | LLR::Greater | LLR::Less), _) => Absent,
+            (Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less), _) => Absent,
         }
     }
 }
@@ -517,7 +526,7 @@ impl<Storage: Clone + AsRef<[u8]>> HashTreeNode<Storage> {
         {
             Some(LLR::Found(node)) => node.lookup_subtree(path),
             Some(LLR::Unknown) => Unknown,
-            Some(LLR::Absent | LLR::Greater | LLR::Less) => Absent,
+            Some(LLR::Absent | LLR::Empty | LLR::Greater | LLR::Less) => Absent,
             None => Found(HashTree {
                 root: self.to_owned(),
             }),
-- 
2.43.0


From 2054bb0c8d0372b60244a643adbed1f7b35ebdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 02/26] fix: saturate the certificate time window instead of
 over- or underflowing

A current time smaller than the allowed offset panicked in debug builds and
rejected every certificate in release builds.
---
 .../src/certificate_verification.rs                           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-certificate-verification/src/certificate_verification.rs b/packages/ic-certificate-verification/src/certificate_verification.rs
index e305ef2..f31096d 100644
--- a/packages/ic-certificate-verification/src/certificate_verification.rs
+++ b/packages/ic-certificate-verification/src/certificate_verification.rs
@@ -139,8 +139,8 @@ fn verify_certificate_time(
             timestamp: encoded_certificate_time.to_vec(),
         }
     })? as u128;
-    let max_certificate_time = current_time_ns + allowed_certificate_time_offset;
-    let min_certificate_time = current_time_ns - allowed_certificate_time_offset;
+    let max_certificate_time = current_time_ns.saturating_add(*allowed_certificate_time_offset);
+    let min_certificate_time = current_time_ns.saturating_sub(*allowed_certificate_time_offset);
 
     if certificate_time > max_certificate_time {
         return Err(CertificateVerificationError::TimeTooFarInTheFuture {
-- 
2.43.0


From 434c6532e5b2a50a56ebf385ba79a7a5caeb11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 03/26] fix: reject malformed BLS signatures and keys instead
 of panicking

A signature shorter than 48 bytes, or one whose flag bits announce an
uncompressed point, made core_verify panic on attacker controlled input, and
trailing bytes after a valid signature were ignored.
---
 .../src/signature_verification/mod.rs            | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/packages/ic-certificate-verification/src/signature_verification/mod.rs b/packages/ic-certificate-verification/src/signature_verification/mod.rs
index 250a675..921b1df 100644
--- a/packages/ic-certificate-verification/src/signature_verification/mod.rs
+++ b/packages/ic-certificate-verification/src/signature_verification/mod.rs
@@ -10,11 +10,27 @@ mod reproducible_rng;
 #[cfg(test)]
 mod tests;
 
+/// Length of a compressed BLS12-381 G1 point, ie. a signature, in bytes.
+const SIGNATURE_LENGTH: usize = 48;
+/// Length of a compressed BLS12-381 G2 point, ie. a public key, in bytes.
+const PUBLIC_KEY_LENGTH: usize = 96;
+
+/// Checks that the point has the expected length and that its flag bits announce a compressed
+/// point that is not the point at infinity. `core_verify` panics on inputs that are too short for
+/// the encoding announced by the flag bits and ignores trailing bytes.
+fn is_compressed_point(point: &[u8], length: usize) -> bool {
+    point.len() == length && point[0] & 0xc0 == 0x80
+}
+
 pub fn verify_signature(
     pk: &[u8],
     sig: &[u8],
     msg: &[u8],
 ) -> Result<(), CertificateVerificationError> {
+    if !is_compressed_point(sig, SIGNATURE_LENGTH) || !is_compressed_point(pk, PUBLIC_KEY_LENGTH) {
+        return Err(CertificateVerificationError::SignatureVerificationFailed);
+    }
+
     let entry = SignatureCacheEntry::new(pk, sig, msg);
 
     if SignatureCache::global().contains(&entry) {
-- 
2.43.0


From 8848b340bf0c371267debfae15ff8443db0469d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 04/26] fix: do not trust the declared length of CBOR maps

The declared length was used to preallocate the map, which panics or aborts for
large lengths, and a map with fewer entries than declared was accepted.
---
 packages/ic-cbor/src/cbor_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index bd34304..86e59cc 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -177,10 +177,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         5 => {
             let data_len = cbor_value.to_usize();
             let (i, data) = fold_many_m_n(
-                0,
+                data_len,
                 data_len,
                 extract_key_val_pair,
-                || HashMap::with_capacity(data_len),
+                HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
                     acc
-- 
2.43.0


From adaf91073bdac36c74ebc65b66e7e747a0e9e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 05/26] fix: report overlong principals in canister ranges as
 an error

Principal::from_slice panics on more than 29 bytes.
---
 packages/ic-cbor/src/cbor_parser.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 86e59cc..f015509 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -224,8 +224,10 @@ pub fn parse_cbor_principals_array(i: &[u8]) -> CborResult<Vec<(Principal, Princ
             };
 
             Ok((
-                Principal::from_slice(first_principal),
-                Principal::from_slice(second_principal),
+                Principal::try_from_slice(first_principal)
+                    .map_err(|_| CborError::MalformedCborCanisterRanges)?,
+                Principal::try_from_slice(second_principal)
+                    .map_err(|_| CborError::MalformedCborCanisterRanges)?,
             ))
         })
         .collect::<Result<_, _>>()
-- 
2.43.0


From 47170d7f10e6d811dae017a7f3750bb4f1886cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 06/26] fix: decode CBOR negative integers that exceed their
 signed width

For example -129 (0x3880) was decoded as 127.
---
 packages/ic-cbor/src/cbor_parser.rs | 30 +++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index f015509..5d45ccd 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -42,13 +42,24 @@ impl CborUnsignedInt {
     // For example: -5 is encoded as 4
     // So to decode the value we take -1 - n where n is the encoded value
     // For example: -1 - 4 = -5
-    fn to_negative(self) -> CborNegativeInt {
-        match self {
-            CborUnsignedInt::UInt8(n) => CborNegativeInt::Int8(-1 - (n as i8)),
-            CborUnsignedInt::UInt16(n) => CborNegativeInt::Int16(-1 - (n as i16)),
-            CborUnsignedInt::UInt32(n) => CborNegativeInt::Int32(-1 - (n as i32)),
-            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - (n as i64)),
-        }
+    // If the result does not fit in the signed counterpart of the encoded width, then the next
+    // larger width is used. Values that do not fit in 64 bits are not supported.
+    fn to_negative(self) -> Option<CborNegativeInt> {
+        Some(match self {
+            CborUnsignedInt::UInt8(n) => match i8::try_from(n) {
+                Ok(n) => CborNegativeInt::Int8(-1 - n),
+                Err(_) => CborNegativeInt::Int16(-1 - i16::from(n)),
+            },
+            CborUnsignedInt::UInt16(n) => match i16::try_from(n) {
+                Ok(n) => CborNegativeInt::Int16(-1 - n),
+                Err(_) => CborNegativeInt::Int32(-1 - i32::from(n)),
+            },
+            CborUnsignedInt::UInt32(n) => match i32::try_from(n) {
+                Ok(n) => CborNegativeInt::Int32(-1 - n),
+                Err(_) => CborNegativeInt::Int64(-1 - i64::from(n)),
+            },
+            CborUnsignedInt::UInt64(n) => CborNegativeInt::Int64(-1 - i64::try_from(n).ok()?),
+        })
     }
 
     fn to_u8(self) -> Result<u8, String> {
@@ -158,7 +169,10 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             ))
         }
 
-        1 => Ok((i, CborValue::Signed(cbor_value.to_negative()))),
+        1 => match cbor_value.to_negative() {
+            Some(value) => Ok((i, CborValue::Signed(value))),
+            None => Err(Err::Error(Error::new(i, ErrorKind::TooLarge))),
+        },
 
         2 | 3 => {
             let data_len = cbor_value.to_usize();
-- 
2.43.0


From a2e76d8f06f574d07ffa974e0c1dc4a1265d6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 07/26] fix: bound the nesting depth of parsed CBOR

Deeply nested arrays, maps or tags overflowed the stack and aborted the
process on attacker controlled certificates and trees.
---
 packages/ic-cbor/src/cbor_parser.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index 5d45ccd..eb5657e 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -132,8 +132,12 @@ fn extract_cbor_value(i: &[u8]) -> IResult<&[u8], CborUnsignedInt> {
     }
 }
 
-fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
-    let (i, key) = parser(i)?;
+/// Maximum number of data items that may be nested in each other. Every level of nesting uses some
+/// stack space in the parser and in the consumers of the parsed value, so this has to be bounded.
+const MAX_NESTING_DEPTH: usize = 512;
+
+fn extract_key_val_pair(i: &[u8], depth: usize) -> IResult<&[u8], (String, CborValue)> {
+    let (i, key) = parser(i, depth)?;
 
     let key = match key {
         CborValue::ByteString(byte_string) => match String::from_utf8(byte_string) {
@@ -143,12 +147,16 @@ fn extract_key_val_pair(i: &[u8]) -> IResult<&[u8], (String, CborValue)> {
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     }?;
 
-    let (i, val) = parser(i)?;
+    let (i, val) = parser(i, depth)?;
 
     Ok((i, (key, val)))
 }
 
-fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
+fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(Err::Failure(Error::new(i, ErrorKind::TooLarge)));
+    }
+
     let (i, cbor_type) = peek_cbor_type(i)?;
     let (i, cbor_value) = extract_cbor_value(i)?;
 
@@ -183,7 +191,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
 
         4 => {
             let data_len = cbor_value.to_usize();
-            let (i, data) = count(parser, data_len)(i)?;
+            let (i, data) = count(|i| parser(i, depth + 1), data_len)(i)?;
 
             Ok((i, CborValue::Array(data)))
         }
@@ -193,7 +201,7 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
             let (i, data) = fold_many_m_n(
                 data_len,
                 data_len,
-                extract_key_val_pair,
+                |i| extract_key_val_pair(i, depth + 1),
                 HashMap::new,
                 |mut acc, (key, val)| {
                     acc.insert(key, val);
@@ -205,15 +213,15 @@ fn parser(i: &[u8]) -> IResult<&[u8], CborValue> {
         }
 
         // ignore custom data tags and floats, we don't currently need them
-        6 => parser(i),
-        7 => parser(i),
+        6 => parser(i, depth + 1),
+        7 => parser(i, depth + 1),
 
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
 
 pub fn parse_cbor(i: &[u8]) -> Result<CborValue, nom::Err<Error<&[u8]>>> {
-    let (_remaining, result) = terminated(parser, eof)(i)?;
+    let (_remaining, result) = terminated(|i| parser(i, 0), eof)(i)?;
 
     Ok(result)
 }
-- 
2.43.0


From 4f771b5c64114a3552c9e1ca4d6df07a296e191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 08/26] fix: parse every header and query parameter name in CEL
 expressions

The CEL parser only accepted alphanumeric characters and dashes in strings, so
responses certified by ic-http-certification with other valid names, such as
"foo_bar", could never be verified.
---
 packages/ic-response-verification/src/cel/parser.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index 80ec809..cd5c186 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -65,15 +65,9 @@ fn ident<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 fn parse_str<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
 ) -> IResult<&'a str, &'a str, E> {
-    let acceptable_special_chars = "-";
-
     context(
         "parse_str",
-        escaped(
-            take_while(move |e| acceptable_special_chars.contains(e) || is_alphanumeric(e as u8)),
-            '\\',
-            one_of("\"n\\"),
-        ),
+        escaped(take_while(|e| e != '"' && e != '\\'), '\\', one_of("\"n\\")),
     )(i)
 }
 
-- 
2.43.0


From 2fe7cd65e6a35797e4749e202e8482642bb6ebbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 09/26] fix: bound the nesting depth of CEL expressions

Deeply nested expressions overflowed the stack of the verifier.
---
 .../src/cel/parser.rs                         | 46 +++++++++++++------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/packages/ic-response-verification/src/cel/parser.rs b/packages/ic-response-verification/src/cel/parser.rs
index cd5c186..b56b964 100644
--- a/packages/ic-response-verification/src/cel/parser.rs
+++ b/packages/ic-response-verification/src/cel/parser.rs
@@ -4,13 +4,17 @@ use nom::bytes::complete::{escaped, take_while};
 use nom::character::complete::{char, multispace0, one_of};
 use nom::character::is_alphanumeric;
 use nom::combinator::{cut, map};
-use nom::error::{context, ContextError, ParseError};
+use nom::error::{context, ContextError, ErrorKind, ParseError};
 use nom::multi::separated_list0;
 use nom::sequence::{preceded, separated_pair, terminated, tuple};
 use nom::{IResult, Parser};
 use std::collections::HashMap;
 use std::fmt;
 
+/// Maximum number of values that may be nested in each other. This is far more than any valid
+/// expression needs and makes sure that malicious expressions cannot overflow the stack.
+const MAX_NESTING_DEPTH: usize = 64;
+
 #[derive(Debug, Eq, PartialEq)]
 pub(crate) enum CelValue<'a> {
     String(&'a str),
@@ -79,32 +83,33 @@ fn string<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
 fn array<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, Vec<CelValue<'a>>, E> {
     context(
         "array",
         drop_separators(
             '[',
             ']',
-            separated_list0(trim_whitespace(char(',')), cel_value),
+            separated_list0(trim_whitespace(char(',')), |i| cel_value(i, depth + 1)),
         ),
     )(i)
 }
 
 fn key_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, CelValue<'a>), E> {
     context(
         "key_value",
-        separated_pair(
-            trim_whitespace(ident),
-            trim_whitespace(char(':')),
-            cel_value,
-        ),
+        separated_pair(trim_whitespace(ident), trim_whitespace(char(':')), |i| {
+            cel_value(i, depth + 1)
+        }),
     )(i)
 }
 
 fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, HashMap<&'a str, CelValue<'a>>), E> {
     context(
         "object",
@@ -114,7 +119,7 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 '{',
                 '}',
                 map(
-                    separated_list0(trim_whitespace(char(',')), key_value),
+                    separated_list0(trim_whitespace(char(',')), |i| key_value(i, depth)),
                     |tuple_vec| tuple_vec.into_iter().collect(),
                 ),
             ),
@@ -124,6 +129,7 @@ fn object<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
 fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, (&'a str, Vec<CelValue<'a>>), E> {
     context(
         "function",
@@ -133,7 +139,7 @@ fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
                 '(',
                 ')',
                 map(
-                    separated_list0(trim_whitespace(char(',')), cel_value),
+                    separated_list0(trim_whitespace(char(',')), |i| cel_value(i, depth + 1)),
                     |tuple_vec| tuple_vec.into_iter().collect(),
                 ),
             ),
@@ -143,20 +149,34 @@ fn function<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
 
 fn cel_value<'a, E: ParseError<&'a str> + ContextError<&'a str>>(
     i: &'a str,
+    depth: usize,
 ) -> IResult<&'a str, CelValue<'a>, E> {
+    if depth > MAX_NESTING_DEPTH {
+        return Err(nom::Err::Failure(E::from_error_kind(
+            i,
+            ErrorKind::TooLarge,
+        )));
+    }
+
     context(
         "cel_value",
         trim_whitespace(alt((
-            map(object, |(name, value)| CelValue::Object(name, value)),
-            map(function, |(name, value)| CelValue::Function(name, value)),
-            map(array, CelValue::Array),
+            map(
+                |i| object(i, depth),
+                |(name, value)| CelValue::Object(name, value),
+            ),
+            map(
+                |i| function(i, depth),
+                |(name, value)| CelValue::Function(name, value),
+            ),
+            map(|i| array(i, depth), CelValue::Array),
             map(string, CelValue::String),
         ))),
     )(i)
 }
 
 pub(crate) fn parse_cel_expression(i: &str) -> CelParserResult<CelValue> {
-    let result = cel_value::<nom::error::Error<&str>>(i);
+    let result = cel_value::<nom::error::Error<&str>>(i, 0);
 
     match result {
         Err(e) => Err(CelParserError::CelSyntaxException(e.to_string())),
-- 
2.43.0


From 310a152f873784d84676e49c0a4ae3249c601c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 10/26] fix: strip path affixes by position when looking for
 more specific wildcards

Request paths that contain segments equal to the prefix or a terminator, such as
/http_expr/a, had those stripped. The verifier then skipped wildcards that are
more specific than the certified path and witnesses lacked the proof for them.
---
 .../src/tree/certification_tree.rs                | 15 ++++++++++-----
 .../src/validation/v2_validation.rs               |  8 ++++----
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/packages/ic-http-certification/src/tree/certification_tree.rs b/packages/ic-http-certification/src/tree/certification_tree.rs
index b888850..9a10ce6 100644
--- a/packages/ic-http-certification/src/tree/certification_tree.rs
+++ b/packages/ic-http-certification/src/tree/certification_tree.rs
@@ -99,11 +99,16 @@ impl HttpCertificationTree {
 
                 // Then we need to prove that there is not a more specific wildcard in the tree that
                 // matches the request URL.
-                more_specific_wildcards_for(&requested_tree_path, &responding_tree_path)
-                    .iter()
-                    .fold(witness, |acc, path| {
-                        merge_hash_trees(acc, self.tree.witness(path))
-                    })
+                // The prefix is included because the paths themselves can start with an equal segment.
+                let with_prefix = |path| [vec![PATH_PREFIX_BYTES.to_vec()], path].concat();
+                more_specific_wildcards_for(
+                    &with_prefix(requested_tree_path),
+                    &with_prefix(responding_tree_path),
+                )
+                .iter()
+                .fold(witness, |acc, path| {
+                    merge_hash_trees(acc, self.tree.witness(path))
+                })
             }
         };
 
diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index c3fb75b..a802fe3 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -100,12 +100,12 @@ pub fn validate_expr_path(
             },
         );
     }
-    request_url_path.pop(); // pop "<$>"
+    let request_url_segments = &request_url_path[..request_url_path.len() - 1]; // without "<$>"
 
     let mut potential_path = original_path.clone();
     potential_path.pop(); // pop "<*>"
 
-    if !is_wildcard_path_valid_for_request_path(&potential_path, &request_url_path) {
+    if !is_wildcard_path_valid_for_request_path(&potential_path, request_url_segments) {
         return Err(ResponseVerificationError::WildcardExpressionPathMismatch {
             provided_expr_path: potential_path
                 .iter()
@@ -116,10 +116,10 @@ pub fn validate_expr_path(
     }
 
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path).iter_mut() {
+    for mut wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path) {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
-        if path_might_exist_in_tree(wildcard_path, tree) {
+        if path_might_exist_in_tree(&wildcard_path, tree) {
             return Err(
                 ResponseVerificationError::MoreSpecificWildcardExpressionMightExistInTree {
                     provided_expr_path: expr_path.to_vec(),
-- 
2.43.0


From 3b4eb97f1e456bb7d285ee4588b01fb3918d04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 11/26] fix: do not ignore data after the compressed stream of
 a v1 response body

The decoders stop after the first gzip member or deflate stream, so a response
with arbitrary data appended to a certified compressed body was accepted.
---
 .../src/verification/body.rs                  | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/packages/ic-response-verification/src/verification/body.rs b/packages/ic-response-verification/src/verification/body.rs
index 211d8a0..6d3c2ae 100644
--- a/packages/ic-response-verification/src/verification/body.rs
+++ b/packages/ic-response-verification/src/verification/body.rs
@@ -1,17 +1,35 @@
 use crate::error::ResponseVerificationResult;
-use flate2::read::{DeflateDecoder, GzDecoder};
+use flate2::bufread::{DeflateDecoder, GzDecoder};
 use std::io::Read;
 
 const MAX_CHUNK_SIZE_TO_DECOMPRESS: usize = 1_024;
 
 pub fn decode_body(body: &[u8], encoding: Option<&str>) -> ResponseVerificationResult<Vec<u8>> {
     match encoding {
-        Some("gzip") => body_from_decoder(GzDecoder::new(body)),
-        Some("deflate") => body_from_decoder(DeflateDecoder::new(body)),
+        Some("gzip") => {
+            let mut decoder = GzDecoder::new(body);
+            let decoded = body_from_decoder(&mut decoder)?;
+            Ok(decoded_or_original(decoded, decoder.into_inner(), body))
+        }
+        Some("deflate") => {
+            let mut decoder = DeflateDecoder::new(body);
+            let decoded = body_from_decoder(&mut decoder)?;
+            Ok(decoded_or_original(decoded, decoder.into_inner(), body))
+        }
         _ => Ok(body.to_owned()),
     }
 }
 
+/// The decoders stop at the end of the first compressed stream. If there is any data left after
+/// that, then the decoded data does not represent the whole body, so use the original body instead.
+fn decoded_or_original(decoded: Vec<u8>, remaining: &[u8], body: &[u8]) -> Vec<u8> {
+    if remaining.is_empty() {
+        decoded
+    } else {
+        body.to_owned()
+    }
+}
+
 fn body_from_decoder<D: Read>(mut decoder: D) -> ResponseVerificationResult<Vec<u8>> {
     let mut decoded = Vec::new();
     let mut buffer = [0u8; MAX_CHUNK_SIZE_TO_DECOMPRESS];
-- 
2.43.0


From edf46386d828a54351901fe64856dd6cf1cf5325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 12/26] fix: delete the certification of the chunks of a
 deleted asset

Deleting an asset that is split into chunks left the certification of every
chunk in the tree, so chunks of deleted assets could still be verified.
---
 .../src/asset_router.rs                       | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index f9468fd..5b73e91 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -625,25 +625,25 @@ impl<'content> AssetRouter<'content> {
             Self::prepare_static_asset(asset, content_type, additional_headers, encoding, None)?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses
-            .remove(&RequestKey::new(&asset_url, encoding_str(encoding), None));
-
-        if response.response.body().len() > ASSET_CHUNK_SIZE {
-            // Delete also chunks.
-            let mut range_begin: usize = 0;
-            while range_begin < response.response.body().len() {
-                self.responses.remove(&RequestKey::new(
-                    &asset_url,
-                    encoding_str(encoding),
-                    Some(range_begin),
-                ));
-                range_begin += ASSET_CHUNK_SIZE;
-            }
-        }
+        self.remove_static_responses(&asset_url, encoding);
 
         Ok(())
     }
 
+    /// Removes the full response for the given URL and encoding and the responses for all of its
+    /// chunks, including their certification.
+    fn remove_static_responses(&mut self, url: &str, encoding: Option<AssetEncoding>) {
+        let mut range_begin: Option<usize> = None;
+
+        while let Some(response) =
+            self.responses
+                .remove(&RequestKey::new(url, encoding_str(encoding), range_begin))
+        {
+            self.tree.borrow_mut().delete(&response.tree_entry);
+            range_begin = Some(range_begin.map_or(0, |begin| begin + ASSET_CHUNK_SIZE));
+        }
+    }
+
     fn prepare_static_asset<'path>(
         asset: Asset<'content, 'path>,
         content_type: Option<String>,
-- 
2.43.0


From 25c972c3cd535914e366afcb9e7b259e8d3c4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 13/26] fix: drop the certification of responses that are
 replaced in the asset router

Certifying new content for a URL, fallback scope or redirect kept the previous
response certified with no way to ever remove it, so stale content could still
be verified.
---
 .../ic-asset-certification/src/asset_router.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 5b73e91..fa5ba5a 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -583,6 +583,9 @@ impl<'content> AssetRouter<'content> {
         let asset_url = asset.url.to_string();
         let total_length = asset.content.len();
 
+        // Responses that are replaced must not stay certified.
+        self.remove_static_responses(&asset_url, encoding);
+
         if total_length > ASSET_CHUNK_SIZE {
             let mut range_begin = 0;
             while range_begin < asset.content.len() {
@@ -687,11 +690,15 @@ impl<'content> AssetRouter<'content> {
             encoding,
         )?;
 
+        let request_key = RequestKey::new(&fallback_for.scope, encoding_str(encoding), None);
+
+        // A response that is replaced must not stay certified.
+        if let Some(replaced) = self.fallback_responses.remove(&request_key) {
+            self.tree.borrow_mut().delete(&replaced.tree_entry);
+        }
+
         self.tree.borrow_mut().insert(&response.tree_entry);
-        self.fallback_responses.insert(
-            RequestKey::new(&fallback_for.scope, encoding_str(encoding), None),
-            response,
-        );
+        self.fallback_responses.insert(request_key, response);
         Ok(())
     }
 
@@ -755,6 +762,9 @@ impl<'content> AssetRouter<'content> {
     ) -> AssetCertificationResult<()> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
+        // Responses that are replaced must not stay certified.
+        self.remove_static_responses(&from, None);
+
         self.tree.borrow_mut().insert(&response.tree_entry);
 
         self.responses
-- 
2.43.0


From 0db131e5887b9c7fe5570b7c2311fd973a688b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 14/26] fix: certify chunks for the range request that they are
 served for

All chunks certify the Range request header, but were certified for a request
without it, so only the first chunk could ever be verified.
---
 .../ic-asset-certification/src/asset_router.rs  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index fa5ba5a..97f1a8b 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -805,6 +805,7 @@ impl<'content> AssetRouter<'content> {
             Cow::Owned(vec![]),
             headers,
             vec![],
+            vec![],
         )?;
 
         Ok(CertifiedAssetResponse {
@@ -837,6 +838,7 @@ impl<'content> AssetRouter<'content> {
             headers.push(("content-encoding".to_string(), encoding.to_string()));
         }
 
+        let mut certified_request_headers = vec![];
         let mut request_headers = vec![];
         if let Some(range_begin) = range_begin {
             let total_length = content.len();
@@ -847,7 +849,16 @@ impl<'content> AssetRouter<'content> {
                 http::header::CONTENT_RANGE.to_string(),
                 format!("bytes {range_begin}-{range_end}/{total_length}"),
             ));
-            request_headers.push(http::header::RANGE.to_string());
+            certified_request_headers.push(http::header::RANGE.to_string());
+
+            // The first chunk is served for requests without a range,
+            // all other chunks have to be requested explicitly.
+            if range_begin > 0 {
+                request_headers.push((
+                    http::header::RANGE.to_string(),
+                    format!("bytes={range_begin}-"),
+                ));
+            }
         };
 
         Self::prepare_response_and_certification(
@@ -856,6 +867,7 @@ impl<'content> AssetRouter<'content> {
             content,
             headers,
             request_headers,
+            certified_request_headers,
         )
     }
 
@@ -864,6 +876,7 @@ impl<'content> AssetRouter<'content> {
         status_code: StatusCode,
         body: Cow<'content, [u8]>,
         additional_response_headers: Vec<(String, String)>,
+        request_headers: Vec<(String, String)>,
         certified_request_headers: Vec<String>,
     ) -> AssetCertificationResult<(HttpResponse<'content>, HttpCertification)> {
         let mut headers = vec![("content-length".to_string(), body.len().to_string())];
@@ -883,7 +896,7 @@ impl<'content> AssetRouter<'content> {
         let cel_expr_str = cel_expr.to_string();
         headers.push((CERTIFICATE_EXPRESSION_HEADER_NAME.to_string(), cel_expr_str));
 
-        let request = HttpRequest::get(url).build();
+        let request = HttpRequest::get(url).with_headers(request_headers).build();
 
         let response = HttpResponse::builder()
             .with_status_code(status_code)
-- 
2.43.0


From 518ed8a4b8a1f1c1ee2883c53244036e62df9e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 15/26] fix: never serve a fallback for a range request to an
 existing asset

Requests with a Range header for assets that are not split into chunks, or for a
range that does not start at a chunk, were answered with a fallback response
that cannot be verified, or not at all.
---
 .../src/asset_router.rs                       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 97f1a8b..d611d86 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -419,6 +419,26 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // If an asset exists at the requested path then a fallback response for it cannot be verified.
+        // The `Range` header is ignored for assets that are not split into chunks.
+        if maybe_range_begin.is_some() {
+            let response = self
+                .get_encoded_asset(&preferred_encodings, req_path, None)
+                .or_else(|| self.responses.get(&RequestKey::new(req_path, None, None)));
+
+            if let Some(response) = response {
+                if response.response.status_code() == StatusCode::PARTIAL_CONTENT
+                    || response.response.body().len() > ASSET_CHUNK_SIZE
+                {
+                    return Err(AssetCertificationError::NoAssetMatchingRequestUrl {
+                        request_url: req_path.to_string(),
+                    });
+                }
+
+                return Ok(response);
+            }
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From b227772dff92f4cff60ba8e975d86b72a5813ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 16/26] fix: drop the certification of whatever fallback or
 redirect is deleted

---
 packages/ic-asset-certification/src/asset_router.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index d611d86..488b7d5 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -739,11 +739,15 @@ impl<'content> AssetRouter<'content> {
         )?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.fallback_responses.remove(&RequestKey::new(
+
+        // A response that differs from the deleted one must not stay certified.
+        if let Some(removed) = self.fallback_responses.remove(&RequestKey::new(
             &fallback_for.scope,
             encoding_str(encoding),
             None,
-        ));
+        )) {
+            self.tree.borrow_mut().delete(&removed.tree_entry);
+        }
         Ok(())
     }
 
@@ -802,7 +806,9 @@ impl<'content> AssetRouter<'content> {
         let response = Self::prepare_redirect(from.clone(), to, kind)?;
 
         self.tree.borrow_mut().delete(&response.tree_entry);
-        self.responses.remove(&RequestKey::new(&from, None, None));
+
+        // Responses that differ from the deleted one must not stay certified.
+        self.remove_static_responses(&from, None);
 
         Ok(())
     }
-- 
2.43.0


From 719815b8fdbb22f83a89d92e6893c859d2e65437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 17/26] fix: serve the fallback whose scope is the requested
 path

---
 packages/ic-asset-certification/src/asset_router.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index 488b7d5..de634cb 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -439,6 +439,17 @@ impl<'content> AssetRouter<'content> {
             }
         }
 
+        // The requested path itself is the closest possible scope.
+        if let Some(response) = self
+            .get_encoded_fallback_asset(&preferred_encodings, req_path)
+            .or_else(|| {
+                self.fallback_responses
+                    .get(&RequestKey::new(req_path, None, None))
+            })
+        {
+            return Ok(response);
+        }
+
         let mut url_scopes = req_path.split('/').collect::<Vec<_>>();
         url_scopes.pop();
 
-- 
2.43.0


From 4e298beb664c77bbf02af1878b4342e17d3d1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:23 +0000
Subject: [PATCH 18/26] fix: only fall back to index.html in version 1 if the
 requested asset is proven absent

---
 .../src/validation/v1_validation.rs                       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/ic-response-verification/src/validation/v1_validation.rs b/packages/ic-response-verification/src/validation/v1_validation.rs
index ab86c21..9fb2442 100644
--- a/packages/ic-response-verification/src/validation/v1_validation.rs
+++ b/packages/ic-response-verification/src/validation/v1_validation.rs
@@ -11,12 +11,18 @@ pub fn validate_body(tree: &HashTree, request_path: &str, body_sha: &Hash) -> bo
         // https://internetcomputer.org/docs/current/references/ic-interface-spec/#http-gateway-certification
         //
         // It may be possible to remove this with a combination of asset canister redirect rules and v2 response verification.
-        _ => match tree.lookup_path(&index_fallback_path) {
+        //
+        // The fallback only applies if the tree proves that there is nothing at the requested path,
+        // otherwise it could be served instead of an existing asset by pruning that asset's entry.
+        LookupResult::Absent => match tree.lookup_path(&index_fallback_path) {
             LookupResult::Found(v) => v,
             _ => {
                 return false;
             }
         },
+        _ => {
+            return false;
+        }
     };
 
     body_sha == tree_sha
-- 
2.43.0


From c0d744e3f6afdcbfdb100df7b41e135bb52afe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 19/26] fix: look for more specific wildcards only as deep as
 the tree reaches

---
 .../src/validation/v2_validation.rs             | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/packages/ic-response-verification/src/validation/v2_validation.rs b/packages/ic-response-verification/src/validation/v2_validation.rs
index a802fe3..97847a7 100644
--- a/packages/ic-response-verification/src/validation/v2_validation.rs
+++ b/packages/ic-response-verification/src/validation/v2_validation.rs
@@ -1,6 +1,6 @@
 use crate::{ResponseVerificationError, ResponseVerificationResult};
 use ic_certification::hash_tree::HashTreeNode;
-use ic_certification::{hash_tree::Hash, HashTree, Label, SubtreeLookupResult};
+use ic_certification::{hash_tree::Hash, HashTree, Label, LookupResult, SubtreeLookupResult};
 use ic_http_certification::cel::DefaultCelExpression;
 use ic_http_certification::utils::{
     is_wildcard_path_valid_for_request_path, more_specific_wildcards_for,
@@ -115,8 +115,21 @@ pub fn validate_expr_path(
         });
     }
 
+    // nothing can exist below a path that does not exist itself, so only look for more specific
+    // wildcards up to there, regardless of how many more segments the URL has
+    let existing_depth = (potential_path.len()..request_url_segments.len())
+        .find(|depth| {
+            matches!(
+                tree.lookup_path(&request_url_segments[..*depth]),
+                LookupResult::Absent | LookupResult::Unknown
+            )
+        })
+        .unwrap_or(request_url_segments.len());
+    let mut existing_url_path = request_url_segments[..existing_depth].to_vec();
+    existing_url_path.push(EXACT_PATH_TERMINATOR_BYTES.to_vec());
+
     // recursively check for partial URL matches with wildcards that are more precise than the expr_path
-    for mut wildcard_path in more_specific_wildcards_for(&request_url_path, &original_path) {
+    for mut wildcard_path in more_specific_wildcards_for(&existing_url_path, &original_path) {
         wildcard_path.insert(0, PATH_PREFIX_BYTES.to_vec());
 
         if path_might_exist_in_tree(&wildcard_path, tree) {
-- 
2.43.0


From aca239227b53c37a9f367ad5e89c51cb6e028530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 20/26] fix: do not copy every subtree on each level while
 decoding hash trees

---
 packages/ic-cbor/src/cbor_parse_hash_tree.rs | 25 ++++++++++----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parse_hash_tree.rs b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
index 19df10c..3f70500 100644
--- a/packages/ic-cbor/src/cbor_parse_hash_tree.rs
+++ b/packages/ic-cbor/src/cbor_parse_hash_tree.rs
@@ -17,16 +17,16 @@ impl HashTreeToCbor for HashTree {
 }
 
 pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
-    if let CborValue::Array(mut cbor_tags) = parsed_cbor.to_owned() {
-        cbor_tags.reverse();
+    if let CborValue::Array(cbor_tags) = parsed_cbor {
+        let mut cbor_tags = cbor_tags.iter();
 
-        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.pop() {
+        if let Some(CborValue::HashTree(hash_tree_tag)) = cbor_tags.next() {
             match hash_tree_tag {
                 CborHashTree::Empty => Ok(empty()),
 
                 CborHashTree::Leaf => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
-                        Ok(leaf(data))
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.next() {
+                        Ok(leaf(data.to_owned()))
                     } else {
                         Err(CborError::MalformedHashTree(String::from(
                             "Missing ByteString for Leaf node",
@@ -35,7 +35,7 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Pruned => {
-                    if let Some(CborValue::ByteString(data)) = cbor_tags.pop() {
+                    if let Some(CborValue::ByteString(data)) = cbor_tags.next() {
                         let digest: Hash = TryFrom::<&[u8]>::try_from(data.as_ref())
                             .map_err(CborError::IncorrectPrunedDataLength)?;
 
@@ -49,10 +49,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
 
                 CborHashTree::Labelled => {
                     if let (Some(CborValue::ByteString(data)), Some(child_tag)) =
-                        (cbor_tags.pop(), cbor_tags.pop())
+                        (cbor_tags.next(), cbor_tags.next())
                     {
-                        let node_label = Label::from(data);
-                        let child_node = parsed_cbor_to_tree(&child_tag)?;
+                        let node_label = Label::from(data.to_owned());
+                        let child_node = parsed_cbor_to_tree(child_tag)?;
 
                         Ok(label(node_label, child_node))
                     } else {
@@ -63,9 +63,10 @@ pub fn parsed_cbor_to_tree(parsed_cbor: &CborValue) -> CborResult<HashTree> {
                 }
 
                 CborHashTree::Fork => {
-                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.pop(), cbor_tags.pop()) {
-                        let left = parsed_cbor_to_tree(&left_tag)?;
-                        let right = parsed_cbor_to_tree(&right_tag)?;
+                    if let (Some(left_tag), Some(right_tag)) = (cbor_tags.next(), cbor_tags.next())
+                    {
+                        let left = parsed_cbor_to_tree(left_tag)?;
+                        let right = parsed_cbor_to_tree(right_tag)?;
 
                         Ok(fork(left, right))
                     } else {
-- 
2.43.0


From e491bba16141a39f2a398e30749aaa8d3c2a9a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 21/26] fix: filter headers and query parameters in time linear
 in their number

---
 .../ic-http-certification/src/hash/mod.rs     |  7 +++++++
 .../src/hash/request_hash.rs                  | 21 +++++++------------
 .../src/hash/response_hash.rs                 | 12 +++++------
 3 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/packages/ic-http-certification/src/hash/mod.rs b/packages/ic-http-certification/src/hash/mod.rs
index 6532c66..3d2b551 100644
--- a/packages/ic-http-certification/src/hash/mod.rs
+++ b/packages/ic-http-certification/src/hash/mod.rs
@@ -2,6 +2,8 @@
 //! [Representation Independent Hashes](https://internetcomputer.org/docs/current/references/ic-interface-spec/#hash-of-map)
 //! of [HttpRequest](crate::HttpRequest) and [HttpResponse](crate::HttpRequest) objects.
 
+use std::collections::HashSet;
+
 mod request_hash;
 pub use request_hash::*;
 
@@ -10,3 +12,8 @@ pub use response_hash::*;
 
 /// Sha256 Digest: 32 bytes
 pub type Hash = [u8; 32];
+
+/// The names as they are compared, which is without regard to ASCII case.
+fn lowercase_names(names: &[&str]) -> HashSet<String> {
+    names.iter().map(|name| name.to_ascii_lowercase()).collect()
+}
diff --git a/packages/ic-http-certification/src/hash/request_hash.rs b/packages/ic-http-certification/src/hash/request_hash.rs
index 6a85f90..9025a81 100644
--- a/packages/ic-http-certification/src/hash/request_hash.rs
+++ b/packages/ic-http-certification/src/hash/request_hash.rs
@@ -1,4 +1,4 @@
-use super::Hash;
+use super::{lowercase_names, Hash};
 use crate::{cel::DefaultRequestCertification, HttpCertificationResult, HttpRequest};
 use ic_representation_independent_hash::{hash, representation_independent_hash, Value};
 
@@ -36,16 +36,12 @@ fn get_filtered_headers(
     headers: &[(String, String)],
     request_certification: &DefaultRequestCertification,
 ) -> Vec<(String, Value)> {
+    let headers_to_include = lowercase_names(&request_certification.headers);
+
     headers
         .iter()
         .filter_map(|(header_name, header_value)| {
-            let is_header_included =
-                request_certification
-                    .headers
-                    .iter()
-                    .any(|header_to_include| {
-                        header_to_include.eq_ignore_ascii_case(&header_name.to_string())
-                    });
+            let is_header_included = headers_to_include.contains(&header_name.to_ascii_lowercase());
 
             if !is_header_included {
                 return None;
@@ -60,6 +56,8 @@ fn get_filtered_headers(
 }
 
 fn get_filtered_query(query: &str, request_certification: &DefaultRequestCertification) -> String {
+    let query_params_to_include = lowercase_names(&request_certification.query_parameters);
+
     let filtered_query_string = query
         .split('&')
         .filter(|query_fragment| {
@@ -68,12 +66,7 @@ fn get_filtered_query(query: &str, request_certification: &DefaultRequestCertifi
 
             query_param_name
                 .map(|query_param_name| {
-                    request_certification
-                        .query_parameters
-                        .iter()
-                        .any(|query_param_to_include| {
-                            query_param_to_include.eq_ignore_ascii_case(query_param_name)
-                        })
+                    query_params_to_include.contains(&query_param_name.to_ascii_lowercase())
                 })
                 .unwrap_or(false)
         })
diff --git a/packages/ic-http-certification/src/hash/response_hash.rs b/packages/ic-http-certification/src/hash/response_hash.rs
index 861158e..a8f0766 100644
--- a/packages/ic-http-certification/src/hash/response_hash.rs
+++ b/packages/ic-http-certification/src/hash/response_hash.rs
@@ -1,4 +1,4 @@
-use super::Hash;
+use super::{lowercase_names, Hash};
 use crate::{cel::DefaultResponseCertificationType, DefaultResponseCertification, HttpResponse};
 use ic_representation_independent_hash::{hash, representation_independent_hash, Value};
 
@@ -27,17 +27,15 @@ pub fn filter_response_headers(
 ) -> ResponseHeaders {
     let headers_filter: Box<dyn Fn(_) -> _> = match response_certification.get_type() {
         DefaultResponseCertificationType::CertifiedResponseHeaders(headers_to_include) => {
+            let headers_to_include = lowercase_names(headers_to_include);
             Box::new(move |header_name: &String| {
-                headers_to_include.iter().any(|header_to_include| {
-                    header_to_include.eq_ignore_ascii_case(&header_name.to_string())
-                })
+                headers_to_include.contains(&header_name.to_ascii_lowercase())
             })
         }
         DefaultResponseCertificationType::ResponseHeaderExclusions(headers_to_exclude) => {
+            let headers_to_exclude = lowercase_names(headers_to_exclude);
             Box::new(move |header_name: &String| {
-                !headers_to_exclude.iter().any(|header_to_exclude| {
-                    header_to_exclude.eq_ignore_ascii_case(&header_name.to_string())
-                })
+                !headers_to_exclude.contains(&header_name.to_ascii_lowercase())
             })
         }
     };
-- 
2.43.0


From 3e07695425de2a7458c97495cae231b9c5ba37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 22/26] fix: reject CBOR lengths beyond usize on 32-bit targets
 instead of truncating them

---
 packages/ic-cbor/src/cbor_parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index eb5657e..f977adf 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -33,7 +33,8 @@ impl CborUnsignedInt {
             CborUnsignedInt::UInt8(v) => v as usize,
             CborUnsignedInt::UInt16(v) => v as usize,
             CborUnsignedInt::UInt32(v) => v as usize,
-            CborUnsignedInt::UInt64(v) => v as usize,
+            // more than any input can hold on 32-bit targets
+            CborUnsignedInt::UInt64(v) => usize::try_from(v).unwrap_or(usize::MAX),
         }
     }
 
-- 
2.43.0


From d2ee97c2c58429641f0175d84c1c6bc15759bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:12 +0000
Subject: [PATCH 23/26] fix: return an error from the JavaScript bindings for
 status codes that are not valid instead of trapping

---
 .../ic-response-verification-wasm/src/lib.rs  |  8 +++++---
 .../src/response.rs                           | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/packages/ic-response-verification-wasm/src/lib.rs b/packages/ic-response-verification-wasm/src/lib.rs
index 6c19790..c7e3d4b 100644
--- a/packages/ic-response-verification-wasm/src/lib.rs
+++ b/packages/ic-response-verification-wasm/src/lib.rs
@@ -1,10 +1,11 @@
 #![deny(clippy::all)]
 
 use crate::request::request_from_js;
-use crate::response::response_from_js;
+use crate::response::try_response_from_js;
 use ic_response_verification::{
     types::VerificationInfo, verify_request_response_pair as verify_request_response_pair_impl,
-    ResponseVerificationJsError, MAX_VERIFICATION_VERSION, MIN_VERIFICATION_VERSION,
+    ResponseVerificationError, ResponseVerificationJsError, MAX_VERIFICATION_VERSION,
+    MIN_VERIFICATION_VERSION,
 };
 use wasm_bindgen::{prelude::*, JsCast};
 
@@ -53,7 +54,8 @@ pub fn verify_request_response_pair(
     min_requested_verification_version: u8,
 ) -> Result<JsVerificationInfo, ic_response_verification::ResponseVerificationJsError> {
     let request = request_from_js(JsValue::from(request));
-    let response = response_from_js(JsValue::from(response));
+    let response = try_response_from_js(JsValue::from(response))
+        .map_err(|e| ResponseVerificationJsError::from(ResponseVerificationError::from(e)))?;
 
     verify_request_response_pair_impl(
         request.into(),
diff --git a/packages/ic-response-verification-wasm/src/response.rs b/packages/ic-response-verification-wasm/src/response.rs
index 172c78e..4d93d0b 100644
--- a/packages/ic-response-verification-wasm/src/response.rs
+++ b/packages/ic-response-verification-wasm/src/response.rs
@@ -1,4 +1,4 @@
-use ic_http_certification::HttpResponse;
+use ic_http_certification::{HttpCertificationError, HttpResponse, StatusCode};
 use wasm_bindgen::{prelude::*, JsCast};
 
 #[wasm_bindgen(typescript_custom_section)]
@@ -10,7 +10,15 @@ interface Response {
 }
 "#;
 
+#[cfg(test)]
 pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
+    try_response_from_js(resp).unwrap()
+}
+
+/// Fails if the status code, which is chosen by the canister, is not a valid HTTP status code.
+pub fn try_response_from_js(
+    resp: JsValue,
+) -> Result<HttpResponse<'static>, HttpCertificationError> {
     use js_sys::{Array, JsString, Number, Object, Uint8Array};
 
     let status_code_str = JsString::from("status_code");
@@ -47,11 +55,14 @@ pub fn response_from_js(resp: JsValue) -> HttpResponse<'static> {
         }
     }
 
-    HttpResponse::builder()
-        .with_status_code(status_code.try_into().unwrap())
+    let status_code = StatusCode::from_u16(status_code)
+        .map_err(|_| HttpCertificationError::InvalidHttpStatusCode { status_code })?;
+
+    Ok(HttpResponse::builder()
+        .with_status_code(status_code)
         .with_headers(headers)
         .with_body(body)
-        .build()
+        .build())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 19a4b730ce9bfcada6203bb1691fd4655aef350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:05 +0000
Subject: [PATCH 24/26] fix: deleting all assets of a router keeps other
 entries of a shared tree

AssetRouter::delete_all_assets cleared the whole certification tree, including
entries that the canister or another router had certified in a tree passed to
AssetRouter::with_tree. It now deletes the entries that the router certified.
---
 packages/ic-asset-certification/src/asset_router.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/packages/ic-asset-certification/src/asset_router.rs b/packages/ic-asset-certification/src/asset_router.rs
index de634cb..712af5d 100644
--- a/packages/ic-asset-certification/src/asset_router.rs
+++ b/packages/ic-asset-certification/src/asset_router.rs
@@ -380,9 +380,16 @@ impl<'content> AssetRouter<'content> {
     /// After performing this operation, one must set the canister's certified data (`ic_cdk::api::set_certified_data()`)
     /// to the new [root hash](AssetRouter::root_hash) of the tree.
     pub fn delete_all_assets(&mut self) {
-        self.responses.clear();
-        self.fallback_responses.clear();
-        self.tree.borrow_mut().clear();
+        let mut tree = self.tree.borrow_mut();
+
+        // The tree can be shared, so only delete what this router has certified.
+        for (_, response) in self
+            .responses
+            .drain()
+            .chain(self.fallback_responses.drain())
+        {
+            tree.delete(&response.tree_entry);
+        }
     }
 
     /// Returns the root hash of the underlying
-- 
2.43.0


From 17c0b0d5964f42daa8cb5198c4799a9a7fada41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:54 +0000
Subject: [PATCH 25/26] fix: return an error from the JavaScript bindings for
 methods that are not valid instead of trapping

---
 packages/ic-http-certification/src/error.rs     |  7 +++++++
 .../ic-response-verification-wasm/src/lib.rs    |  5 +++--
 .../src/request.rs                              | 17 +++++++++++++----
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/packages/ic-http-certification/src/error.rs b/packages/ic-http-certification/src/error.rs
index ec372e1..daaa561 100644
--- a/packages/ic-http-certification/src/error.rs
+++ b/packages/ic-http-certification/src/error.rs
@@ -49,6 +49,13 @@ pub enum HttpCertificationError {
         expected: String,
     },
 
+    /// Error converting a string into an HTTP method.
+    #[error(r#"Error converting string into HTTP method: "{method}""#)]
+    InvalidHttpMethod {
+        /// The HTTP method that was not recognized.
+        method: String,
+    },
+
     /// Error converting a number into an HTTP status code.
     #[error(r#"Error converting number into HTTP status code: "{status_code}""#)]
     InvalidHttpStatusCode {
diff --git a/packages/ic-response-verification-wasm/src/lib.rs b/packages/ic-response-verification-wasm/src/lib.rs
index c7e3d4b..4d11c49 100644
--- a/packages/ic-response-verification-wasm/src/lib.rs
+++ b/packages/ic-response-verification-wasm/src/lib.rs
@@ -1,6 +1,6 @@
 #![deny(clippy::all)]
 
-use crate::request::request_from_js;
+use crate::request::try_request_from_js;
 use crate::response::try_response_from_js;
 use ic_response_verification::{
     types::VerificationInfo, verify_request_response_pair as verify_request_response_pair_impl,
@@ -53,7 +53,8 @@ pub fn verify_request_response_pair(
     ic_public_key: &[u8],
     min_requested_verification_version: u8,
 ) -> Result<JsVerificationInfo, ic_response_verification::ResponseVerificationJsError> {
-    let request = request_from_js(JsValue::from(request));
+    let request = try_request_from_js(JsValue::from(request))
+        .map_err(|e| ResponseVerificationJsError::from(ResponseVerificationError::from(e)))?;
     let response = try_response_from_js(JsValue::from(response))
         .map_err(|e| ResponseVerificationJsError::from(ResponseVerificationError::from(e)))?;
 
diff --git a/packages/ic-response-verification-wasm/src/request.rs b/packages/ic-response-verification-wasm/src/request.rs
index f6d26f6..bd9ff6a 100644
--- a/packages/ic-response-verification-wasm/src/request.rs
+++ b/packages/ic-response-verification-wasm/src/request.rs
@@ -1,4 +1,4 @@
-use ic_http_certification::{HttpRequest, Method};
+use ic_http_certification::{HttpCertificationError, HttpRequest, Method};
 use std::str::FromStr;
 use wasm_bindgen::{prelude::*, JsCast};
 
@@ -13,7 +13,13 @@ interface Request {
 }
 "#;
 
+#[cfg(test)]
 pub fn request_from_js(req: JsValue) -> HttpRequest<'static> {
+    try_request_from_js(req).unwrap()
+}
+
+/// Fails if the method, which is any string for JavaScript callers, is not a valid HTTP method.
+pub fn try_request_from_js(req: JsValue) -> Result<HttpRequest<'static>, HttpCertificationError> {
     use js_sys::{Array, JsString, Object, Uint8Array};
 
     let method_str = JsString::from("method");
@@ -60,12 +66,15 @@ pub fn request_from_js(req: JsValue) -> HttpRequest<'static> {
         }
     }
 
-    HttpRequest::builder()
-        .with_method(Method::from_str(&method).unwrap())
+    let method = Method::from_str(&method)
+        .map_err(|_| HttpCertificationError::InvalidHttpMethod { method })?;
+
+    Ok(HttpRequest::builder()
+        .with_method(method)
         .with_url(url)
         .with_headers(headers)
         .with_body(body)
-        .build()
+        .build())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1737f82eb34c35bc72546d469406c6f6b99e29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:06 +0000
Subject: [PATCH 26/26] fix: floats and simple values in CBOR are an error
 instead of being skipped

---
 packages/ic-cbor/src/cbor_parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/ic-cbor/src/cbor_parser.rs b/packages/ic-cbor/src/cbor_parser.rs
index f977adf..847a7e6 100644
--- a/packages/ic-cbor/src/cbor_parser.rs
+++ b/packages/ic-cbor/src/cbor_parser.rs
@@ -213,10 +213,11 @@ fn parser(i: &[u8], depth: usize) -> IResult<&[u8], CborValue> {
             Ok((i, CborValue::Map(data)))
         }
 
-        // ignore custom data tags and floats, we don't currently need them
+        // ignore custom data tags, we don't currently need them
         6 => parser(i, depth + 1),
-        7 => parser(i, depth + 1),
 
+        // floats and simple values, such as null, are not supported, they must not be skipped
+        // because they are data items of their own
         _ => Err(Err::Error(Error::new(i, ErrorKind::Alt))),
     };
 }
-- 
2.43.0

