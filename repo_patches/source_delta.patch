From 2f38254d0411e0b293fd8f04920c9e09d899fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 01/59] fix: bin-prot: write floats and polyvar tags completely

A single write() call may accept only some of the bytes (or be interrupted);
the rest of the value was dropped and success reported.
---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From f2b4be09c491df52cfaeb0d14cdb38fdea22d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 02/59] fix: bin-prot: reject chars that do not fit in the one
 byte encoding

A char above U+00FF was truncated to its low byte and success reported.
---
 protocol/bin-prot/src/write_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..32c1a0b 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,9 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let c = u8::try_from(u32::from(c))
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
+        self.write_u8(c)?;
         Ok(1)
     }
 
-- 
2.43.0


From 51adf112d5c7627e68444c8def3b57d2d94b81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:12 +0000
Subject: [PATCH 03/59] fix: bin-prot: 0x80 is not a valid first byte of an
 integer

Values below 0x80 are encoded in one byte; 0x80 itself is neither a value nor a code.
---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From af07f47cd1e2bd9fbec115b5e7314df67aec1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 04/59] fix: bin-prot: do not allocate for a length that has
 only been claimed

Reading a string or byte sequence allocated (and zeroed) the length announced by
the input before any of it had arrived: nine bytes could panic the process with a
capacity overflow or abort it on allocation failure.
---
 protocol/bin-prot/src/read_ext.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..aa92e7b 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,12 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // the length is untrusted: only reserve memory for bytes that do arrive
+        let mut buf = Vec::new();
+        if Read::take(&mut *self, len).read_to_end(&mut buf)? as u64 != len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From 404881af4b911deb0cb783324c28ad2bcc263808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 05/59] fix: bin-prot: from_reader_strict must look past its
 buffer

Only the bytes already buffered were considered: trailing bytes the reader had not
yet delivered when the value was complete were accepted.
---
 protocol/bin-prot/src/de.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..9291c3d 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,9 +68,14 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
-        0 => Ok(value),
-        unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
+    // the buffer may be empty although more bytes follow, ask the reader for them
+    loop {
+        match de.rdr.fill_buf() {
+            Ok(unconsumed) if unconsumed.is_empty() => return Ok(value),
+            Ok(unconsumed) => return Err(Error::StreamNotFullyConsumed(unconsumed.len())),
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
     }
 }
 
-- 
2.43.0


From 865dcf8db9bb9f7407fa2ed3114ea692df87cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 06/59] fix: bin-prot: keep the variant position of polyvars
 with non-ASCII labels

Skipping non-ASCII labels before numbering the variants shifted the index of every
later variant, so another variant than the encoded one was decoded.
---
 protocol/bin-prot/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 9291c3d..4399bd8 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -401,8 +401,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
-- 
2.43.0


From 48b4fd34ee6e88881311c2c082bc8229d5a7287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 07/59] fix: bin-prot: do not copy the element rule for a
 claimed list length

The loose deserializer pushed one copy of the element rule per announced list element
before reading any of them: a few bytes exhausted the memory of the process.
---
 .../bin-prot/src/value/layout/traverse.rs     | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..08f251c 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,7 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    stack: Vec<(BinProtRule, usize)>, // stack to implement the DFS, each rule with how many times it remains to be visited
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +31,7 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = self.pop();
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -41,11 +41,10 @@ impl Iterator for BinProtRuleIterator {
                         // then call repeat the required number of times
                     }
                     BinProtRule::Record(mut rules) => {
-                        self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                        self.push(rules.drain(0..).map(|field| field.field_rule).rev().collect());
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.push(rules.drain(0..).rev().collect());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -59,7 +58,7 @@ impl Iterator for BinProtRuleIterator {
                             unimplemented!();
                         }
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.push(vec![*payload.ref_rule]);
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -91,12 +90,25 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
+    }
+
+    // Take the next rule from the stack
+    fn pop(&mut self) -> Option<BinProtRule> {
+        match self.stack.last_mut() {
+            Some((rule, n)) if *n > 1 => {
+                *n -= 1;
+                Some(rule.clone())
+            }
+            _ => self.stack.pop().map(|(rule, _)| rule),
+        }
     }
 }
 
@@ -106,7 +118,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 01774dbac420b99145ab01736f9275572562968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 08/59] fix: bin-prot: a variant index outside the layout is an
 error, not a panic

---
 protocol/bin-prot/src/loose_deserializer.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..ef5685e 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,16 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .into_iter()
+                            .nth(index as usize)
+                            .ok_or(Error::VariantIndexTooLarge {
+                                index: index as u32,
+                            })?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 6e625fbd3895937d9447dd454ae69755c99899ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 09/59] fix: bin-prot: report unsupported layout rules as
 errors

Rules the loose deserializer documents as Error::UnimplementedRule panicked in the
layout traversal before that error could be returned.
---
 protocol/bin-prot/src/loose_deserializer.rs   | 30 +++++++++++--------
 .../bin-prot/src/value/layout/traverse.rs     |  4 +--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index ef5685e..d04ee66 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -67,15 +67,15 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                     Polyvar::Tagged(t) => {
                                         // return the first tagged variant where the tag matches
                                         if t.hash == tag {
-                                            Some((i, t))
+                                            Some(Ok((i, t)))
                                         } else {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => Some(Err(Error::UnimplementedRule)), // don't know how to handle these yet
                                 }
                             })
-                            .ok_or(Error::UnknownPolyvarTag(tag))?;
+                            .ok_or(Error::UnknownPolyvarTag(tag))??;
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant.clone().polyvar_args)]);
@@ -136,7 +136,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule = rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
@@ -221,14 +221,20 @@ impl<'de, 'a, R: Read> serde::de::EnumAccess<'de> for ValueEnum<'a, R, LooselyTy
         // and then return the deserializer to be handled by visit_enum
 
         let (index, enum_data) = match self.variant {
-            VariantType::Sum(summand) => (
-                summand.index as u8,
-                EnumData::Sum {
-                    index: summand.index.try_into().unwrap(),
-                    name: summand.ctor_name,
-                    len: summand.ctor_args.len(),
-                },
-            ),
+            VariantType::Sum(summand) => {
+                let index = summand
+                    .index
+                    .try_into()
+                    .map_err(|_| Error::LayoutIteratorError)?;
+                (
+                    index,
+                    EnumData::Sum {
+                        index,
+                        name: summand.ctor_name,
+                        len: summand.ctor_args.len(),
+                    },
+                )
+            }
             VariantType::Polyvar(index, polyvar) => (
                 index,
                 EnumData::Polyvar {
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 08f251c..eef170f 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -55,7 +55,7 @@ impl Iterator for BinProtRuleIterator {
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
+                            // left to the driving code to reject
                         }
                         RuleRef::Resolved(payload) => {
                             self.push(vec![*payload.ref_rule]);
@@ -78,7 +78,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported, left to the driving code to reject
                 };
                 r
             }
-- 
2.43.0


From bab0870b7618758773f049f23901bd063515617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:28 +0000
Subject: [PATCH 10/59] fix: bin-prot: always write the tag of a Value::Polyvar
 as four bytes

The tag of a single letter polyvar fits in a byte and was written as a one byte
variant index, so re-encoding a decoded value gave different bytes.
---
 protocol/bin-prot/src/ser.rs       | 5 +++++
 protocol/bin-prot/src/value/ser.rs | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 2fabc4c..4f9a1a5 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -9,6 +9,9 @@ use crate::WriteBinProtExt;
 use serde::ser;
 use serde::Serialize;
 
+/// Enum name under which the variant index is always written as a polyvar tag, however small
+pub(crate) const POLYVAR_TAG: &str = "PolyvarTag";
+
 /// Serializer for writing BinProt bytes to a writer
 pub struct Serializer<W> {
     writer: W,
@@ -43,6 +46,8 @@ where
         if name == "Polyvar" {
             self.writer
                 .bin_write_polyvar_tag(caml_hash_variant(variant))?;
+        } else if name == POLYVAR_TAG {
+            self.writer.bin_write_polyvar_tag(index)?;
         } else if let Ok(b) = check_variant_index(index) {
             // it is a sum variant
             self.writer.bin_write_variant_index(b)?;
diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..55306c5 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::ser::POLYVAR_TAG;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -53,7 +54,7 @@ impl Serialize for Value {
                 name: _,
                 ref tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => serializer.serialize_newtype_variant(POLYVAR_TAG, *tag as u32, "", value), // sum types/enums
             Value::List(ref v) => v.serialize(serializer),
         }
     }
-- 
2.43.0


From 5c831ee80920b68544a11415dfca7ceac43fad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:57 +0000
Subject: [PATCH 11/59] fix: bin_prot_checker: report a failure to write the
 value to stdout

The value stays in stdout's buffer until the process exits, where a failing
write is ignored: the tool exited with 0 although nothing had been written.
---
 protocol/bin_prot_checker/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protocol/bin_prot_checker/src/main.rs b/protocol/bin_prot_checker/src/main.rs
index 09e0399..f98dbca 100644
--- a/protocol/bin_prot_checker/src/main.rs
+++ b/protocol/bin_prot_checker/src/main.rs
@@ -4,7 +4,7 @@
 use core::str::FromStr;
 use std::fs::File;
 use std::io::Seek;
-use std::io::{stdin, stdout, Read};
+use std::io::{stdin, stdout, Read, Write};
 use std::path::PathBuf;
 
 use bin_prot::{error::Error, from_reader, integers::integer, to_writer};
@@ -148,7 +148,8 @@ fn main() {
                     println!("Wrote {} bytes", pos);
                 })
             } else {
-                to_writer(&mut stdout(), &opt.test)
+                // stdout is buffered and errors are lost when it is flushed at exit
+                to_writer(&mut stdout(), &opt.test).and_then(|_| Ok(stdout().flush()?))
             }
             .map_err(|e| eprintln!("Failed with: {}", e))
             .unwrap();
-- 
2.43.0


From 922acc1372d1a347ece2c998f14a401036bef2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 12/59] fix: retry and report an HTTP error status instead of
 returning its body as the block

---
 network/js/graphql_v1_utils.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network/js/graphql_v1_utils.js b/network/js/graphql_v1_utils.js
index 76d8ab1..db1c2a1 100644
--- a/network/js/graphql_v1_utils.js
+++ b/network/js/graphql_v1_utils.js
@@ -20,6 +20,9 @@ async function retry(func, nRetry = 3) {
 async function fetch_block_json_inner(height, stateHash, network) {
     const url = `https://storage.googleapis.com/mina_network_block_data/${network}-${height}-${stateHash}.json`
     const response = await fetch(url)
+    if (!response.ok) {
+        throw new Error(`${url} responded with status ${response.status}`)
+    }
     return await response.json()
 }
 
-- 
2.43.0


From 8d312c5d536e12ef2a086787d8307cf65bf3e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:33 +0000
Subject: [PATCH 13/59] fix: retry and report a GraphQL answer without blocks
 instead of returning null

---
 network/js/graphql_v1_utils.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network/js/graphql_v1_utils.js b/network/js/graphql_v1_utils.js
index db1c2a1..e46129d 100644
--- a/network/js/graphql_v1_utils.js
+++ b/network/js/graphql_v1_utils.js
@@ -58,6 +58,9 @@ async function query_latest_blocks_json_inner(limit) {
         },
     })
     const json = await response.json()
+    if (!json.data.blocks) {
+        throw new Error(`${url} responded without blocks`)
+    }
     return json.data.blocks
 }
 
-- 
2.43.0


From b035e8d955457a6b41931b28ba5c0ab0e6459e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:19 +0000
Subject: [PATCH 14/59] fix: keep receiving block queries while one is being
 served, so a full queue cannot deadlock the processor

---
 network/src/processor/mod.rs            |  8 ++++--
 network/src/processor/processor_impl.rs | 36 ++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/network/src/processor/mod.rs b/network/src/processor/mod.rs
index 9737caa..cbd99bb 100644
--- a/network/src/processor/mod.rs
+++ b/network/src/processor/mod.rs
@@ -21,6 +21,7 @@ mod processor_impl;
 pub mod js;
 
 use async_trait::async_trait;
+use std::collections::VecDeque;
 use tokio::sync::{mpsc, RwLock};
 
 /// Request struct for querying a block
@@ -83,6 +84,9 @@ where
     nonconsensus_ops: RwLock<NCOps>,
     /// Block receiver
     block_receiver: RwLock<mpsc::Receiver<NetworkBlock>>,
-    /// [QueryBlockRequest] receiver
-    query_block_request_receiver: RwLock<mpsc::Receiver<QueryBlockRequest>>,
+    /// [QueryBlockRequest] receiver, and the requests received from it that are yet to be served
+    query_block_request_receiver: RwLock<(
+        mpsc::Receiver<QueryBlockRequest>,
+        VecDeque<QueryBlockRequest>,
+    )>,
 }
diff --git a/network/src/processor/processor_impl.rs b/network/src/processor/processor_impl.rs
index d7d95f7..9817a9a 100644
--- a/network/src/processor/processor_impl.rs
+++ b/network/src/processor/processor_impl.rs
@@ -30,7 +30,10 @@ where
             transition_frontier: RwLock::new(transition_frontier),
             nonconsensus_ops: RwLock::new(nonconsensus_ops),
             block_receiver: RwLock::new(block_receiver),
-            query_block_request_receiver: RwLock::new(query_block_request_receiver),
+            query_block_request_receiver: RwLock::new((
+                query_block_request_receiver,
+                VecDeque::new(),
+            )),
         }
     }
 
@@ -74,12 +77,33 @@ where
 
     /// Schedules the event loop of sending query-block requests
     /// to the [NonConsensusNetworkingOps]
+    ///
+    /// New requests are accepted while one is being served: [TransitionFrontier::add_block] never
+    /// has to wait for a query, which itself may wait for room to send the blocks it has found.
     async fn run_query_block_loop(&self) {
-        let mut query_block_request_receiver = self.query_block_request_receiver.write().await;
-        while let Some(request) = query_block_request_receiver.recv().await {
-            let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
-            if let Err(err) = nonconsensus_ops.query_block(&request).await {
-                error!("{err}");
+        let mut guard = self.query_block_request_receiver.write().await;
+        let (query_block_request_receiver, pending) = &mut *guard;
+        loop {
+            let request = match pending.pop_front() {
+                Some(request) => request,
+                None => match query_block_request_receiver.recv().await {
+                    Some(request) => request,
+                    None => break,
+                },
+            };
+            let query = async {
+                let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
+                if let Err(err) = nonconsensus_ops.query_block(&request).await {
+                    error!("{err}");
+                }
+            };
+            tokio::pin!(query);
+            loop {
+                tokio::select! {
+                    biased;
+                    _ = &mut query => break,
+                    Some(next) = query_block_request_receiver.recv() => pending.push_back(next),
+                }
             }
         }
     }
-- 
2.43.0


From 7021e7e5a5fdb997a3d3051b12d0d34085cf3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:28 +0000
Subject: [PATCH 15/59] fix: decide whether the frontier is empty from its
 chain, not from the height of its tip

---
 network/src/processor/naive_transition_frontier.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/network/src/processor/naive_transition_frontier.rs b/network/src/processor/naive_transition_frontier.rs
index e904c8e..2383f93 100644
--- a/network/src/processor/naive_transition_frontier.rs
+++ b/network/src/processor/naive_transition_frontier.rs
@@ -110,7 +110,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolStateLegacy, MerkleP
     async fn add_block(&mut self, block: Self::Block) -> anyhow::Result<()> {
         let mut ctx = mina_signer::create_legacy::<SignedCommandPayload>(NetworkId::MAINNET);
         anyhow::ensure!(block.verify(&mut ctx), "block verification failure");
-        if self.best_chain.length() < 1 {
+        if self.best_chain.0.is_empty() {
             self.best_chain.push(block.protocol_state)?;
         } else {
             let candidate_chains = vec![ProtocolStateChain(vec![block.protocol_state])];
@@ -170,7 +170,7 @@ impl TransitionFrontier for NaiveTransitionFrontier<ProtocolState, MerkleProofBe
         // TODO: Block verification
         let ProtocolStateWithSparseMerkleLedger(block, proofs) = block;
         let state_hash_of_new_block = block.state_hash_fp();
-        if self.best_chain.length() < 1 {
+        if self.best_chain.0.is_empty() {
             self.best_chain.push(block)?;
             self.sparse_merkle_ledger = proofs;
         } else {
-- 
2.43.0


From 35f9a5dcfc5ee0abc0dca0b59c9e710bfd758a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:41 +0000
Subject: [PATCH 16/59] fix: a block with zero slots per epoch has no epoch
 slot, instead of panicking in fork choice

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..ae75c81 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
-- 
2.43.0


From ea0fef309324b11a8342fab861feb796780b6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:10 +0000
Subject: [PATCH 17/59] fix: fork choice must not overflow on a block of the
 last epoch number

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index ae75c81..3a27c08 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if Some(s1.epoch_count.0) == s2.epoch_count.0.checked_add(1)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
-- 
2.43.0


From a9a546d5509033490f9ca32311ad0677b568f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:46 +0000
Subject: [PATCH 18/59] fix: the projected window density must not overflow

---
 consensus/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index 3a27c08..ba1b534 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0_u32, |sum, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 5896163fa6dd4f481c1fc2c560a98adf706e2351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:49 +0000
Subject: [PATCH 19/59] fix: compute the depth of a merkle node with integers,
 a float logarithm is off by one for deep trees

---
 merkle/src/metadata.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..a21f397 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -32,7 +32,18 @@ impl MerkleTreeNodeMetadata {
 }
 
 fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
+    // integer arithmetic: the logarithm of a float is off by one for some large indices
+    let mut depth = 0;
+    let mut first_index = 0_usize;
+    while let Some(next_first_index) = first_index
+        .checked_mul(DEGREE)
+        .and_then(|i| i.checked_add(1))
+        .filter(|i| *i <= index)
+    {
+        first_index = next_first_index;
+        depth += 1;
+    }
+    depth
 }
 
 fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-- 
2.43.0


From f32a1b1a878d4045cc5190eafbac7347df8d3c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:11 +0000
Subject: [PATCH 20/59] fix: refuse a decimal number outside the field instead
 of panicking

---
 proof-systems-shim/src/fp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..6cbe80b 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,9 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        Fp::from_repr(big256)
+            .map(Self)
+            .ok_or_else(|| <D::Error as serde::de::Error>::custom("not a field element"))
     }
 }
 
@@ -42,8 +44,8 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    Fp::from_repr(big256).ok_or_else(|| anyhow::Error::msg("not a field element"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From aabcc217790b657a63006ea98408b9786e3a425b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:56 +0000
Subject: [PATCH 21/59] fix: refuse a merkle path without nodes or with too
 many, instead of panicking

---
 merkle/src/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..766bbaa 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,11 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        anyhow::ensure!(!self.0.is_empty(), "Invalid path, 0 nodes found");
+        anyhow::ensure!(
+            self.0.len() < usize::BITS as usize,
+            "Invalid path, too many nodes"
+        );
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From 0663f495db67403c921d7a1b5eddaf38bd097c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 22/59] fix: a command without memo text carries the 34 bytes
 of an empty memo

---
 base/src/user_commands/memo.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..749e9cf 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -8,23 +8,33 @@ use mina_serialization_types::{json::*, *};
 use mina_serialization_types_macros::AutoFrom;
 use thiserror::Error;
 
+const DIGEST_LEN: usize = 32;
+const MAX_INPUT_STRING_LENGTH: usize = DIGEST_LEN;
+const MEMO_LEN: usize = DIGEST_LEN + 2;
+const TAG_INDEX: usize = 0;
+const LEN_INDEX: usize = 1;
+const BYTES_TAG: u8 = 1;
+
 /// A memo byte strong for a signed command
-#[derive(Clone, Default, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
+#[derive(Clone, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemo)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemoJson)]
 pub struct SignedCommandMemo(pub Vec<u8>);
 
 impl_strconv_via_json!(SignedCommandMemo, SignedCommandMemoJson);
 
+impl Default for SignedCommandMemo {
+    /// The memo of a command without text
+    fn default() -> Self {
+        let mut v = vec![0; MEMO_LEN];
+        v[TAG_INDEX] = BYTES_TAG;
+        Self(v)
+    }
+}
+
 impl SignedCommandMemo {
     /// Try build from text
     pub fn try_from_text(s: impl AsRef<[u8]>) -> Result<Self, SignedCommandMemoError> {
-        const DIGEST_LEN: usize = 32;
-        const MAX_INPUT_STRING_LENGTH: usize = DIGEST_LEN;
-        const MEMO_LEN: usize = DIGEST_LEN + 2;
-        const TAG_INDEX: usize = 0;
-        const LEN_INDEX: usize = 1;
-        const BYTES_TAG: u8 = 1;
         let s = s.as_ref();
         if s.len() > MAX_INPUT_STRING_LENGTH {
             return Err(SignedCommandMemoError::StringTooLong);
-- 
2.43.0


From 7e72f975b711d8be8285de95571b1a28101befe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 23/59] fix: refuse keys and signatures outside their fields
 when they are read, converting them panics

---
 .../serialization-types/src/signatures.rs     | 52 +++++++++++++++++--
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/protocol/serialization-types/src/signatures.rs b/protocol/serialization-types/src/signatures.rs
index 261817b..350143f 100644
--- a/protocol/serialization-types/src/signatures.rs
+++ b/protocol/serialization-types/src/signatures.rs
@@ -12,8 +12,16 @@ use proof_systems::mina_signer::CompressedPubKey;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use versioned::Versioned;
 
+/// An EC point as it is read, its x coordinate may be outside of the field
+#[derive(Deserialize)]
+struct UncheckedCurvePoint {
+    x: FieldElement,
+    is_odd: bool,
+}
+
 /// An EC point stored in compressed form containing only the x coordinate and one extra bit
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
+#[serde(try_from = "UncheckedCurvePoint")]
 pub struct CompressedCurvePoint {
     /// The x coordinate of the EC point
     pub x: FieldElement,
@@ -68,8 +76,13 @@ pub struct PublicKeyV1(pub Versioned<Versioned<CompressedCurvePoint, 1>, 1>);
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
 pub struct PublicKey2V1(pub Versioned<PublicKeyV1, 1>); // with an extra version wrapper
 
+/// Signature as it is read, its parts may be outside of their fields
+#[derive(Deserialize)]
+struct UncheckedSignature(Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>);
+
 /// Signature (v1)
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
+#[serde(try_from = "UncheckedSignature")]
 pub struct SignatureV1(pub Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>);
 
 /// Signature (json)
@@ -100,22 +113,51 @@ impl<'de> Deserialize<'de> for SignatureJson {
             .with_check(Some(version_bytes::SIGNATURE))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(
+        let signature: Versioned<(FieldElement, InnerCurveScalar), 1> =
             bin_prot::from_reader_strict(&bytes[1..])
-                .map_err(<D::Error as serde::de::Error>::custom)?,
-        ))
+                .map_err(<D::Error as serde::de::Error>::custom)?;
+        conversions::ensure_signature_in_fields(&signature.t)
+            .map_err(<D::Error as serde::de::Error>::custom)?;
+        Ok(Self(signature))
     }
 }
 
 mod conversions {
     use super::*;
     use proof_systems::mina_signer::{BaseField, CompressedPubKey, ScalarField, Signature};
-    use proof_systems::o1_utils::field_helpers::FieldHelpers;
+    use proof_systems::o1_utils::field_helpers::{FieldHelpers, FieldHelpersError};
+
+    impl TryFrom<UncheckedCurvePoint> for CompressedCurvePoint {
+        type Error = FieldHelpersError;
+        fn try_from(t: UncheckedCurvePoint) -> Result<Self, Self::Error> {
+            BaseField::from_bytes(&t.x)?;
+            Ok(Self {
+                x: t.x,
+                is_odd: t.is_odd,
+            })
+        }
+    }
+
+    pub(super) fn ensure_signature_in_fields(
+        (rx, s): &(FieldElement, InnerCurveScalar),
+    ) -> Result<(), FieldHelpersError> {
+        BaseField::from_bytes(rx)?;
+        ScalarField::from_bytes(s)?;
+        Ok(())
+    }
+
+    impl TryFrom<UncheckedSignature> for SignatureV1 {
+        type Error = FieldHelpersError;
+        fn try_from(t: UncheckedSignature) -> Result<Self, Self::Error> {
+            ensure_signature_in_fields(&t.0.t.t)?;
+            Ok(Self(t.0))
+        }
+    }
 
     impl From<&CompressedCurvePoint> for CompressedPubKey {
         fn from(t: &CompressedCurvePoint) -> Self {
             CompressedPubKey {
-                // This unwrap is safe as a PublicKeyV1 always has 32 bytes of data and from_bytes does not check if it is on curve
+                // This unwrap is safe as the x coordinate is checked on deserialization and from_bytes does not check if it is on curve
                 x: BaseField::from_bytes(&t.x)
                     .expect("Wrong number of bytes encountered when converting to BaseField"),
                 is_odd: t.is_odd,
-- 
2.43.0


From be099a72cd36c9a39de223222090158b9d049bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 24/59] fix: a command whose signer is not a point of the curve
 is invalid, instead of panicking

---
 base/src/user_commands/signed_command/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..9cad281 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,14 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string, it fails when the signer is not a point on the curve
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From c685d2aee1fd63dac0316f93f3d757bf766cd7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:34 +0000
Subject: [PATCH 25/59] fix: reading the text of a memo that is cut short must
 not panic

---
 base/src/user_commands/memo.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 749e9cf..c57fcd2 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -48,10 +48,11 @@ impl SignedCommandMemo {
         Ok(Self(v))
     }
 
-    /// Convert into text
+    /// Convert into text, a memo that is cut short has only the text it carries
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        let len = self.0.get(LEN_INDEX).copied().unwrap_or_default() as usize;
+        let text = self.0.get(LEN_INDEX + 1..).unwrap_or_default();
+        String::from_utf8_lossy(&text[..len.min(text.len())]).into()
     }
 }
 
-- 
2.43.0


From 3381bed6162138896660d3c7ec99306e606a5b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:35 +0000
Subject: [PATCH 26/59] fix: mainnet accounts are stored with the vesting
 period before the vesting increment

---
 protocol/serialization-types/src/account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 4b8506f..987a154 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -192,10 +192,10 @@ pub struct TimedData {
     pub cliff_time: BlockTimeV1,
     /// Amount extra available when fully fested
     pub cliff_amount: AmountV1,
-    /// Amount released in each vesting period
-    pub vesting_increment: AmountV1,
     /// Period in whcih allocation is released in chunks
     pub vesting_period: BlockTimeV1,
+    /// Amount released in each vesting period
+    pub vesting_increment: AmountV1,
 }
 
 /// TODO
-- 
2.43.0


From b28f3afe44f68c533bf7ee224ecca2f62dfdf50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:53 +0000
Subject: [PATCH 27/59] fix: a failed database read must not end the genesis
 ledger's accounts silently

---
 ledger/src/rocksdb_genesis_ledger.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..f62f617 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -77,10 +77,10 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
             .db
             .prefix_iterator(&[ACCOUNT_PREFIX]) // This will ensure the iterator doesnt start until the prefix byte is matched
             .take_while(|r| {
-                if let Ok((k, _)) = r {
-                    k.first() == Some(&ACCOUNT_PREFIX)
-                } else {
-                    false
+                match r {
+                    Ok((k, _)) => k.first() == Some(&ACCOUNT_PREFIX),
+                    // A failed read has to be reported, it is not the end of the accounts
+                    Err(_) => true,
                 }
             }); // Ensures the iterator stops when the prefix stops matching
 
-- 
2.43.0


From 4e38d3269d77775c93c723281371e2e130dd316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:19 +0000
Subject: [PATCH 28/59] fix: getting the proof of the only leaf of a tree must
 not panic

---
 merkle/src/tree_impl.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..cc85f55 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -115,6 +115,10 @@ where
             } else {
                 self.variable_height
             };
+            if height_above == 0 {
+                // The root is the only data node, there is nothing to prove it with
+                return None;
+            }
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +137,11 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            // a single leaf is the root of the actual tree, then all of its ancestors are virtual
+            let mut parent_index = match self.nodes.len() + index {
+                0 => 0,
+                actual_index => calculate_parent_index(actual_index),
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
-- 
2.43.0


From 6154bd39fc801f516244ff5f6cdbc4071ad69653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:00 +0000
Subject: [PATCH 29/59] fix: a Merkle proof that is not a path from a leaf to
 the root is invalid

The ordering of two siblings ignored which of them is the left child, so
that a proof for a leaf could claim the index of its neighbour's cousin;
an index at another depth than the number of peers, the largest index,
or fewer peer hashes than peer indices made the verifier panic.
---
 merkle/src/metadata.rs |  2 +-
 merkle/src/proof.rs    | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index a21f397..e46b5db 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -31,7 +31,7 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
+pub(crate) fn depth<const DEGREE: usize>(index: usize) -> u32 {
     // integer arithmetic: the logarithm of a float is off by one for some large indices
     let mut depth = 0;
     let mut first_index = 0_usize;
diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..3bb5865 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -5,6 +5,7 @@
 
 use std::{error::Error, marker::PhantomData};
 
+use crate::metadata::depth;
 use crate::*;
 
 /// Merkle proof trait of a single leaf node, for details refer to <https://www.webopedia.com/definitions/merkle-proof/>
@@ -111,6 +112,11 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // there must be exactly one peer for each level between the data node and the root
+            let height = depth::<2>(self.index) as usize;
+            if self.peer_indices.len() != height || self.peer_hashes.len() != height {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +162,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // left children have odd indices, see get_parent_index
+    if index % 2 == 1 && index.checked_add(1) == Some(sibling_index) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && index.checked_sub(1) == Some(sibling_index) {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From d15563dedd0a4dc1beabd7e0e0d503eb53b48b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:20 +0000
Subject: [PATCH 30/59] fix: leaf hashes are recalculated when the height of
 the Merkle tree changes

The hasher is given the depth of the leaf, the hash cached for it was kept
when the tree grew.
---
 merkle/src/tree_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index cc85f55..3e867b9 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -351,6 +351,10 @@ fn add_batch<Item, Hash, Hasher, Merger, Mode>(
         let new_node_count = calculate_node_count(new_height);
         tree.variable_height = new_height;
         tree.nodes = vec![None; new_node_count];
+        // the depth of every leaf has changed, which its hash may depend on
+        for (_, hash) in tree.leafs.iter_mut() {
+            *hash = None;
+        }
     } else {
         let start = tree.nodes.len() + tree.leafs.len();
         for i in start..(start + leaves.len()) {
-- 
2.43.0


From ebbd317d4c49deb5c26da3d265f9d72d9bbb4f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:56 +0000
Subject: [PATCH 31/59] fix: a new leaf invalidates all of its ancestors in the
 Merkle tree

Invalidation stopped at the first ancestor without a hash. With a merger
that returns None for a node without children (as the one in the tests)
the hashes above it were not invalidated, and the root was stale.
---
 merkle/src/tree_impl.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 3e867b9..1705ab2 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -186,11 +186,9 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            // an ancestor without a hash does not mean that those above it have none,
+            // mergers may return None when there are no children
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From 98c18994a2f316ca17640638f15910fee54aa6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 32/59] fix: the depth of nodes in a Merkle tree with a fixed
 height

Mergers and hashers were given the depth within the stored part of the
tree, and depth 0 for all of the nodes above it, not the distance to the
root; such a root was not the one that the proofs of its items lead to.
---
 merkle/src/metadata.rs  |  8 ++++++++
 merkle/src/tree_impl.rs | 25 ++++++++++++++++---------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index e46b5db..d96f634 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -20,6 +20,14 @@ impl MerkleTreeNodeMetadata {
         Self { depth, height }
     }
 
+    /// Metadata of the same node in a tree that has more levels above its root
+    pub(crate) fn below(self, levels: u32) -> Self {
+        Self {
+            depth: self.depth + levels,
+            ..self
+        }
+    }
+
     /// distance to the root node
     pub fn depth(&self) -> u32 {
         self.depth
diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 1705ab2..579aff6 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -192,6 +192,17 @@ where
         }
     }
 
+    /// Metadata of a stored node. In a tree with a fixed height the stored nodes
+    /// are below the virtual ones, which have no items to their right
+    fn metadata(&self, index: usize) -> MerkleTreeNodeMetadata {
+        let virtual_levels = self
+            .mode
+            .fixed_height()
+            .unwrap_or(self.variable_height)
+            .saturating_sub(self.variable_height);
+        MerkleTreeNodeMetadata::new(index, self.variable_height).below(virtual_levels)
+    }
+
     /// Calucates hash of a node if it's not available in the node cache
     /// either apply hash algorithm if it's a leaf node
     /// or apply merge algorithm if it's a non-leaf node
@@ -205,23 +216,18 @@ where
                 let right = index * 2 + 2;
                 let left_hash = self.calculate_hash_if_needed(left);
                 let right_hash = self.calculate_hash_if_needed(right);
-                let hash = Merger::merge(
-                    [left_hash, right_hash],
-                    MerkleTreeNodeMetadata::new(index, self.variable_height),
-                );
+                let hash = Merger::merge([left_hash, right_hash], self.metadata(index));
                 self.nodes[index] = hash.clone();
                 hash
             }
         } else {
             let leaf_index = index - self.nodes.len();
             if leaf_index < self.leafs.len() {
+                let metadata = self.metadata(index);
                 let (data, hash) = &mut self.leafs[leaf_index];
                 match hash {
                     None => {
-                        let node_hash = Some(Hasher::hash(
-                            data,
-                            MerkleTreeNodeMetadata::new(index, self.variable_height),
-                        ));
+                        let node_hash = Some(Hasher::hash(data, metadata));
                         *hash = node_hash.clone();
                         node_hash
                     }
@@ -292,7 +298,8 @@ where
             Ordering::Equal => hash,
             Ordering::Greater => {
                 for h in (self.variable_height + 1)..=fixed_height {
-                    hash = Merger::merge([hash, None], MerkleTreeNodeMetadata::new(0, h));
+                    let metadata = MerkleTreeNodeMetadata::new(0, h).below(fixed_height - h);
+                    hash = Merger::merge([hash, None], metadata);
                 }
                 hash
             }
-- 
2.43.0


From 3108518d2a3b7fb6b30ac17fd5a53053295737b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 33/59] fix: an account action that needs both a proof and a
 signature hashed like one that needs a proof

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..1bcbd83 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,7 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary = matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 3d6281fedba4c2eefa55de36a7a06188126a61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 34/59] fix: read the permission to increment the nonce of an
 account from its own JSON field

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 1bcbd83..ba407b6 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From e09eb4fe22e84e53cc011a2610d98b9f36a7aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 35/59] fix: refuse an account whose timing cannot be read
 instead of taking it as untimed

---
 base/src/account/timing.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/base/src/account/timing.rs b/base/src/account/timing.rs
index 3bcad69..5b51b64 100644
--- a/base/src/account/timing.rs
+++ b/base/src/account/timing.rs
@@ -96,9 +96,20 @@ impl FromGraphQLJson for Timing {
     where
         Self: Sized,
     {
-        Ok(match TimedData::from_graphql_json(json) {
-            Ok(data) => Self::Timed(data),
-            _ => Self::Untimed,
+        // accounts without timing have either no timing or one whose fields are all null
+        let fields = [
+            "initialMinimumBalance",
+            "cliffTime",
+            "cliffAmount",
+            "vestingPeriod",
+            "vestingIncrement",
+        ];
+        let untimed =
+            json.is_null() || json.is_object() && fields.iter().all(|f| json[*f].is_null());
+        Ok(if untimed {
+            Self::Untimed
+        } else {
+            Self::Timed(TimedData::from_graphql_json(json)?)
         })
     }
 }
-- 
2.43.0


From 8ed5c0ac79b21d09a3000a46361282697dbfab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 36/59] fix: refuse JSON that is not a tagged list where an
 enum is expected

Reading an enum from anything but a non-empty array panicked, so one malformed
block from a service ended the process.
---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From 70505c42dc034f0ff105e0466cdbc0269f7e2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 37/59] fix: refuse hex field elements that are not 32 bytes

FieldElementJson::try_from_hex_str panicked on hex of any other length.
---
 protocol/serialization-types/src/field_and_curve_elements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..bedaddd 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -138,9 +138,8 @@ impl FieldElementJson {
     /// Convert from hex str
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
-        let bytes = hex::decode(s)?;
         let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        hex::decode_to_slice(s, &mut b32)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From 03ad237d13508b2fee834c23a45cdc616f3cb5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 38/59] fix: read and write JSON chars that are one byte only

CharJson panicked on an empty string, took the first byte of a longer one and
made a String of bytes that are not UTF-8, which is undefined behaviour.
---
 protocol/serialization-types/src/common.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..40e3901 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -191,8 +191,14 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
-        serializer.serialize_str(&s)
+        if self.0.is_ascii() {
+            serializer.serialize_char(self.0 as char)
+        } else {
+            Err(<S::Error as serde::ser::Error>::custom(format!(
+                "Not an ASCII character: {}",
+                self.0
+            )))
+        }
     }
 }
 
@@ -202,7 +208,12 @@ impl<'de> Deserialize<'de> for CharJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        match s.as_bytes() {
+            [c] => Ok((*c).into()),
+            _ => Err(<D::Error as serde::de::Error>::custom(format!(
+                "Single character expected: {s}"
+            ))),
+        }
     }
 }
 
-- 
2.43.0


From f44d7cfba375d4e7d344e3f2af3f8971ca5efe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:15 +0000
Subject: [PATCH 39/59] fix: report bytes that cannot be shown as a JSON string

ByteVecJson made a String of bytes that are not UTF-8, which is undefined
behaviour and produced invalid JSON.
---
 protocol/serialization-types/src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 40e3901..cd9d06e 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -236,8 +236,8 @@ impl Serialize for ByteVecJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(self.0.clone()) };
-        serializer.serialize_str(&s)
+        let s = std::str::from_utf8(&self.0).map_err(<S::Error as serde::ser::Error>::custom)?;
+        serializer.serialize_str(s)
     }
 }
 
-- 
2.43.0


From 25f80ee463e46ba6ab7aec6befb1eaab27d6c233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:55 +0000
Subject: [PATCH 40/59] fix: refuse amounts that are out of range or finer than
 a nanomina

Parsing a decimal amount overflowed (a panic, or a wrapped amount in release
builds), read digits after the ninth as whole units and took a sign in the
fraction. An amount is now read exactly or refused.
---
 base/src/numbers.rs                        |  8 +++++++-
 protocol/serialization-types/src/common.rs | 12 +++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..bc39255 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -143,10 +143,16 @@ impl std::str::FromStr for Amount {
             .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
             .parse()?;
         let r_str = iter.next().unwrap_or("0");
+        if r_str.len() > 9 || r_str.starts_with('+') {
+            return Err(Self::Err::ErrorInvalidFormat(s.to_string()));
+        }
         let r: u64 = format!("{:0<9}", r_str).parse()?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
+            q.checked_mul(MINA_PRECISION)
+                .and_then(|q| q.checked_add(r))
+                .map(Amount)
+                .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))
         } else {
             Err(Self::Err::ErrorInvalidFormat(s.to_string()))
         }
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index cd9d06e..7778e9d 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -119,12 +119,22 @@ impl<'de> Deserialize<'de> for DecimalJson {
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         let r_str = iter.next().unwrap_or("0");
+        if r_str.len() > 9 || r_str.starts_with('+') {
+            return Err(<D::Error as serde::de::Error>::custom(format!(
+                "Invalid string: {s}"
+            )));
+        }
         let r: u64 = format!("{:0<9}", r_str)
             .parse()
             .map_err(<D::Error as serde::de::Error>::custom)?;
         if iter.next().is_none() {
             // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
+            q.checked_mul(MINA_PRECISION)
+                .and_then(|q| q.checked_add(r))
+                .map(Self)
+                .ok_or_else(|| {
+                    <D::Error as serde::de::Error>::custom(format!("Amount out of range: {s}"))
+                })
         } else {
             Err(<D::Error as serde::de::Error>::custom(format!(
                 "Invalid string: {s}"
-- 
2.43.0


From 52f4962b5248c7ffcc9755d50bc5376de3e887f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 41/59] fix: receipt chain hashes have base58 version byte 0x0c

---
 protocol/serialization-types/src/common.rs        | 4 ++--
 protocol/serialization-types/src/version_bytes.rs | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 7778e9d..e10390e 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -440,8 +440,8 @@ impl<const VERSION_BYTE: u8> From<Hash2V1> for HashV1Json<VERSION_BYTE> {
 /// base58 string representation of a ledger hash
 pub type LedgerHashV1Json = HashV1Json<{ version_bytes::LEDGER_HASH }>;
 
-/// base58 string representation of a chain hash
-pub type ChainHashV1Json = LedgerHashV1Json;
+/// base58 string representation of a (receipt) chain hash
+pub type ChainHashV1Json = HashV1Json<{ version_bytes::RECEIPT_CHAIN_HASH }>;
 
 /// base58 string representation of a coinbase hash
 pub type CoinBaseHashV1Json = HashV1Json<{ version_bytes::COINBASE_HASH }>;
diff --git a/protocol/serialization-types/src/version_bytes.rs b/protocol/serialization-types/src/version_bytes.rs
index d3923fd..9ee329f 100644
--- a/protocol/serialization-types/src/version_bytes.rs
+++ b/protocol/serialization-types/src/version_bytes.rs
@@ -17,6 +17,9 @@ pub const LEDGER_HASH: u8 = 0x05;
 /// base58 version check byte for coinbase hash
 pub const COINBASE_HASH: u8 = 0x0c;
 
+/// base58 version check byte for receipt chain hash
+pub const RECEIPT_CHAIN_HASH: u8 = 0x0c;
+
 /// base58 version check byte for epoch seed hash
 pub const EPOCH_SEED: u8 = 0x0d;
 
-- 
2.43.0


From 77f6cefe8981c62d7f5b8c1adddaace4986be076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:35 +0000
Subject: [PATCH 42/59] fix: slots in an account's timing are 32 bits

---
 base/src/account/timing.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/base/src/account/timing.rs b/base/src/account/timing.rs
index 5b51b64..edb7116 100644
--- a/base/src/account/timing.rs
+++ b/base/src/account/timing.rs
@@ -65,9 +65,22 @@ impl FromGraphQLJson for TimedData {
                     .unwrap_or_default()
                     .parse()?,
             ),
-            cliff_time: BlockTime(json["cliffTime"].as_str().unwrap_or_default().parse()?),
+            // global slots are 32 bits, and hashed as such
+            cliff_time: BlockTime(
+                json["cliffTime"]
+                    .as_str()
+                    .unwrap_or_default()
+                    .parse::<u32>()?
+                    .into(),
+            ),
             cliff_amount: Amount(json["cliffAmount"].as_str().unwrap_or_default().parse()?),
-            vesting_period: BlockTime(json["vestingPeriod"].as_str().unwrap_or_default().parse()?),
+            vesting_period: BlockTime(
+                json["vestingPeriod"]
+                    .as_str()
+                    .unwrap_or_default()
+                    .parse::<u32>()?
+                    .into(),
+            ),
             vesting_increment: Amount(
                 json["vestingIncrement"]
                     .as_str()
-- 
2.43.0


From 7a5563fb25c3ab5dabf5f6d28f80c892ce2946ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:32 +0000
Subject: [PATCH 43/59] fix: hashes of an account read from JSON must be field
 elements

---
 base/src/account/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/base/src/account/mod.rs b/base/src/account/mod.rs
index 6a9b7bd..a3585f4 100644
--- a/base/src/account/mod.rs
+++ b/base/src/account/mod.rs
@@ -21,7 +21,7 @@ pub use token_symbol::TokenSymbol;
 pub use zkapp::{ZkApp, ZkAppUri};
 
 use mina_crypto::hash::{ChainHash, StateHash};
-use mina_hasher::ROInput;
+use mina_hasher::{Fp, ROInput};
 use mina_serialization_types::account::*;
 use proof_systems::mina_signer::CompressedPubKey;
 
@@ -162,6 +162,12 @@ impl FromGraphQLJson for Account {
     {
         let is_disabled = json["isDisabled"].as_bool().unwrap_or_default();
         let is_token_owner = json["isTokenOwner"].as_bool().unwrap_or_default();
+        let receipt_chain_hash =
+            ChainHash::from_str(json["receiptChainHash"].as_str().unwrap_or_default())?;
+        let voting_for = StateHash::from_str(json["votingFor"].as_str().unwrap_or_default())?;
+        // the account could not be hashed if these were not field elements
+        Fp::try_from(&receipt_chain_hash).map_err(anyhow::Error::msg)?;
+        Fp::try_from(&voting_for).map_err(anyhow::Error::msg)?;
         Ok(Self {
             public_key: CompressedPubKey::from_address(
                 json["publicKey"].as_str().unwrap_or_default(),
@@ -186,14 +192,12 @@ impl FromGraphQLJson for Account {
             // FIXME: figure out what this is
             token_symbol: Default::default(),
             nonce: AccountNonce(json["nonce"].as_str().unwrap_or_default().parse()?),
-            receipt_chain_hash: ChainHash::from_str(
-                json["receiptChainHash"].as_str().unwrap_or_default(),
-            )?,
+            receipt_chain_hash,
             delegate: match json["delegate"].as_str() {
                 Some(s) => Some(CompressedPubKey::from_address(s)?),
                 _ => None,
             },
-            voting_for: StateHash::from_str(json["votingFor"].as_str().unwrap_or_default())?,
+            voting_for,
             timing: Timing::from_graphql_json(&json["timing"])?,
             permissions: Permissions::from_graphql_json(&json["permissions"])?,
             // FIXME: struct to be defined
-- 
2.43.0


From b01484e33e0cc491a5ab6d3c18864f3f61472780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:45 +0000
Subject: [PATCH 44/59] fix: slots in GraphQL answers are counted within their
 epoch

---
 base/src/consensus_state.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/base/src/consensus_state.rs b/base/src/consensus_state.rs
index 4776d46..a725c9f 100644
--- a/base/src/consensus_state.rs
+++ b/base/src/consensus_state.rs
@@ -178,6 +178,15 @@ impl ConsensusState {
 
 impl FromGraphQLJson for ConsensusState {
     fn from_graphql_json(json: &serde_json::Value) -> anyhow::Result<Self> {
+        // FIXME: Hard coded?
+        const SLOTS_PER_EPOCH: u32 = 7140;
+        let epoch: u32 = json["epoch"].as_str().unwrap_or_default().parse()?;
+        // the number of the slot within its epoch
+        let slot: u32 = json["slot"].as_str().unwrap_or_default().parse()?;
+        let slot_number = epoch
+            .checked_mul(SLOTS_PER_EPOCH)
+            .and_then(|n| n.checked_add(slot))
+            .ok_or_else(|| anyhow::Error::msg("Slot number out of range"))?;
         Ok(Self {
             blockchain_length: json["blockHeight"]
                 .as_str()
@@ -217,13 +226,8 @@ impl FromGraphQLJson for ConsensusState {
                 .parse::<u64>()?
                 .into(),
             curr_global_slot: GlobalSlot {
-                slot_number: json["slot"]
-                    .as_str()
-                    .unwrap_or_default()
-                    .parse::<u32>()?
-                    .into(),
-                // FIXME: Hard coded?
-                slots_per_epoch: 7140.into(),
+                slot_number: slot_number.into(),
+                slots_per_epoch: SLOTS_PER_EPOCH.into(),
             },
             global_slot_since_genesis: json["slotSinceGenesis"]
                 .as_str()
-- 
2.43.0


From ac594a85a71bb177324b38f67d5739c445410790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 45/59] fix: an endpoint that fails does not keep the other
 Berkeley endpoints from being polled

---
 .../src/processor/js/graphql_api_berkeley.rs  | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/network/src/processor/js/graphql_api_berkeley.rs b/network/src/processor/js/graphql_api_berkeley.rs
index b4c4a02..21d9770 100644
--- a/network/src/processor/js/graphql_api_berkeley.rs
+++ b/network/src/processor/js/graphql_api_berkeley.rs
@@ -63,15 +63,21 @@ impl NonConsensusGraphQLBerkeleyBackend {
 
     /// Poll latest blocks once
     pub async fn poll_latest_once(&self) -> anyhow::Result<()> {
+        let mut result = Ok(());
         if let Some(block_responder) = &self.block_responder {
             let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
             for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
+                match fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await {
+                    Ok(block_json) => block_responder.send(block_json).await?,
+                    // The failure is reported after the other endpoints have been asked
+                    Err(err) => {
+                        log::error!("{endpoint}: {err}");
+                        result = Err(err);
+                    }
+                }
             }
         }
-        Ok(())
+        result
     }
 }
 
@@ -84,15 +90,7 @@ impl NonConsensusNetworkingOps for NonConsensusGraphQLBerkeleyBackend {
     }
 
     async fn query_block(&mut self, _request: &QueryBlockRequest) -> anyhow::Result<()> {
-        if let Some(block_responder) = &self.block_responder {
-            let tracking_accounts: Vec<String> = self.tracking_accounts.iter().cloned().collect();
-            for endpoint in &self.api_list {
-                let block_json =
-                    fetch_best_chain_json(endpoint.as_str(), tracking_accounts.clone()).await?;
-                block_responder.send(block_json).await?;
-            }
-        }
-        Ok(())
+        self.poll_latest_once().await
     }
 }
 
-- 
2.43.0


From 8ded0ec15b1fc2abe9ce75806d7394c7328cbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 46/59] fix: web wallets report a failed request or an
 unreadable answer instead of panicking

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 18 ++++++++---------
 apps/wasm/mvp/src/payment.rs              | 24 +++++++++++------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 92c57ca..589f769 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -86,9 +86,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -109,9 +109,9 @@ pub async fn unlock_account(
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -128,8 +128,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9086659..3cd2768 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -86,9 +86,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -106,9 +106,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -125,9 +125,9 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -144,8 +144,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
-- 
2.43.0


From ea098c0ec9cc5e2195be0ac252d0533283823b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:04 +0000
Subject: [PATCH 47/59] fix: web wallets write account keys and passwords as
 GraphQL strings, whatever characters they have

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 12 ++++++------
 apps/wasm/mina-berkeley/src/utils.rs      |  6 ++++++
 apps/wasm/mvp/src/payment.rs              | 16 ++++++++--------
 apps/wasm/mvp/src/utils.rs                |  6 ++++++
 4 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 589f769..79a874b 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -77,9 +77,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_str(&pub_key)
     );
     let res = client
         .post(endpoint)
@@ -101,8 +101,8 @@ pub async fn unlock_account(
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_str(&pub_key), graphql_str(&password)
     );
     let res = client
         .post(endpoint)
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_str(&payment.to()), graphql_str(&payment.from())
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/utils.rs b/apps/wasm/mina-berkeley/src/utils.rs
index 49ad2e1..4b277a7 100644
--- a/apps/wasm/mina-berkeley/src/utils.rs
+++ b/apps/wasm/mina-berkeley/src/utils.rs
@@ -14,6 +14,12 @@ pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
 
+/// Writes a string as a GraphQL string literal
+pub(crate) fn graphql_str(s: &str) -> String {
+    // The escape sequences of JSON are those of GraphQL
+    serde_json::Value::from(s).to_string()
+}
+
 #[wasm_bindgen(inline_js = r#"
         function js_to_string(v) {
             return `${v}`
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 3cd2768..0a1234e 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -77,9 +77,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "query MyQuery {{  
-            account(publicKey: \"{}\") {{ balance {{ total }} inferredNonce locked  }}
+            account(publicKey: {}) {{ balance {{ total }} inferredNonce locked  }}
         }}",
-        pub_key
+        graphql_str(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -97,9 +97,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        graphql_str(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -117,8 +117,8 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", graphql_str(&pub_key), graphql_str(&password)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -136,8 +136,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_str(&payment.to()), graphql_str(&payment.from())
     );
     let res = client
         .post("http://localhost:3085/graphql")
diff --git a/apps/wasm/mvp/src/utils.rs b/apps/wasm/mvp/src/utils.rs
index 97e6689..e897e1c 100644
--- a/apps/wasm/mvp/src/utils.rs
+++ b/apps/wasm/mvp/src/utils.rs
@@ -34,6 +34,12 @@ pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
 
+/// Writes a string as a GraphQL string literal
+pub(crate) fn graphql_str(s: &str) -> String {
+    // The escape sequences of JSON are those of GraphQL
+    serde_json::Value::from(s).to_string()
+}
+
 #[wasm_bindgen(inline_js = r#"
         function js_to_string(v) {
             return `${v}`
-- 
2.43.0


From ac2f38f7227ef142f37cd2dfc263c099b0590746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:32 +0000
Subject: [PATCH 48/59] fix: web wallets send the nonce, memo and expiry of a
 payment that they are given

---
 apps/wasm/mina-berkeley/src/js_exports.rs |  5 ++-
 apps/wasm/mina-berkeley/src/payment.rs    | 47 ++++++++++++++++----
 apps/wasm/mvp/src/payment.rs              | 52 ++++++++++++++++++-----
 3 files changed, 82 insertions(+), 22 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 79a874b..4040a1a 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -120,8 +120,9 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_str(&payment.to()), graphql_str(&payment.from())
+            sendPayment(input: {}) {{    payment {{      id    }}  }}
+        }}",
+        payment.to_graphql_input()?
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/payment.rs b/apps/wasm/mina-berkeley/src/payment.rs
index 1c2bc1a..0bb8cfb 100644
--- a/apps/wasm/mina-berkeley/src/payment.rs
+++ b/apps/wasm/mina-berkeley/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,17 +57,46 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        js_to_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
+        js_to_u32(&self.valid_until())
+    }
+
+    /// The payment as an input object of the GraphQL API
+    pub fn to_graphql_input(&self) -> Result<String, JsError> {
+        let mut input = format!(
+            "{{fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            graphql_str(&self.to()),
+            graphql_str(&self.from())
+        );
+        if let Some(nonce) = self.nonce_u32()? {
+            input.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            input.push_str(&format!(", memo: {}", graphql_str(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            input.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        input.push('}');
+        Ok(input)
+    }
+}
+
+fn js_to_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        Ok(None)
+    } else {
+        let s = js_to_string(v);
+        if s.is_empty() {
             Ok(None)
         } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+            Ok(Some(s.parse().map_err(map_js_err)?))
         }
     }
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 0a1234e..7c3aa57 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,17 +57,46 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        js_to_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
+        js_to_u32(&self.valid_until())
+    }
+
+    /// The payment as an input object of the GraphQL API
+    pub fn to_graphql_input(&self) -> Result<String, JsError> {
+        let mut input = format!(
+            "{{fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            graphql_str(&self.to()),
+            graphql_str(&self.from())
+        );
+        if let Some(nonce) = self.nonce_u32()? {
+            input.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            input.push_str(&format!(", memo: {}", graphql_str(&memo)));
+        }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            input.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        input.push('}');
+        Ok(input)
+    }
+}
+
+fn js_to_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        Ok(None)
+    } else {
+        let s = js_to_string(v);
+        if s.is_empty() {
             Ok(None)
         } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+            Ok(Some(s.parse().map_err(map_js_err)?))
         }
     }
 }
@@ -136,8 +165,9 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, graphql_str(&payment.to()), graphql_str(&payment.from())
+            sendPayment(input: {}) {{    payment {{      id    }}  }}
+        }}",
+        payment.to_graphql_input()?
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From f107e619104329cb052c4dc7f452dae2435f88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 49/59] fix: lists with entries that are not strings are
 refused by the Berkeley web node instead of panicking

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 10 ++++------
 apps/wasm/mina-berkeley/src/utils.rs      |  9 +++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 4040a1a..524da9b 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -15,19 +15,17 @@ pub async fn run_processor() {
 
 #[wasm_bindgen(js_name = setApiList)]
 pub async fn set_api_list(api_urls: Array) -> Result<bool, JsError> {
+    let api_list = js_to_strings(&api_urls)?;
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
-    let api_vec = api_urls.to_vec();
-    let api_list = api_vec.iter().map(|url| url.as_string().unwrap());
-    backend.set_api_list(api_list);
+    backend.set_api_list(api_list.into_iter());
     Ok(true)
 }
 
 #[wasm_bindgen(js_name = setTrackingAccounts)]
 pub async fn set_tracking_accounts(accounts: Array) -> Result<bool, JsError> {
+    let account_list = js_to_strings(&accounts)?;
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
-    let acc_vec = accounts.to_vec();
-    let account_list = acc_vec.iter().map(|acc| acc.as_string().unwrap());
-    backend.set_tracking_accounts(account_list);
+    backend.set_tracking_accounts(account_list.into_iter());
     Ok(true)
 }
 
diff --git a/apps/wasm/mina-berkeley/src/utils.rs b/apps/wasm/mina-berkeley/src/utils.rs
index 4b277a7..da34d9b 100644
--- a/apps/wasm/mina-berkeley/src/utils.rs
+++ b/apps/wasm/mina-berkeley/src/utils.rs
@@ -3,6 +3,7 @@
 
 use std::fmt::Display;
 
+use js_sys::Array;
 use wasm_bindgen::prelude::*;
 use wasm_bindgen::JsError;
 
@@ -14,6 +15,14 @@ pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
 
+/// Takes the strings out of a JavaScript array that must have nothing else in it
+pub(crate) fn js_to_strings(array: &Array) -> Result<Vec<String>, JsError> {
+    array
+        .iter()
+        .map(|v| v.as_string().ok_or_else(|| JsError::new("not a string")))
+        .collect()
+}
+
 /// Writes a string as a GraphQL string literal
 pub(crate) fn graphql_str(s: &str) -> String {
     // The escape sequences of JSON are those of GraphQL
-- 
2.43.0


From ce8170998668f39d93eae6e0ac3339a5e2388809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:16 +0000
Subject: [PATCH 50/59] fix: reading of peer statuses ends when the stream does

---
 apps/wasm/mvp/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 225db0a..b6138ca 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -155,6 +155,8 @@ impl RequestResponseCodec for NodeStatusCodec {
         loop {
             let mut line = String::new();
             match reader.read_line(&mut line).await {
+                // The stream has ended
+                Ok(0) => break,
                 Ok(n) => {
                     let line = line.trim();
                     if !line.is_empty() {
-- 
2.43.0


From e699beb7556342902f22ba685d310ae9bbbfd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 51/59] fix: connecting to a proxy node reports invalid
 addresses and failed connections, and ends with the connection

---
 apps/wasm/mvp/src/lib.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index b6138ca..3faa5e8 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -34,7 +34,7 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         builder.build()?
     };
 
-    let parsed_addr: Multiaddr = request.address.parse().unwrap();
+    let parsed_addr: Multiaddr = request.address.parse()?;
     log::info!(
         "[WASM] Connecting to proxy server via ws {} ... ",
         request.address
@@ -43,22 +43,28 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         let behaviour = NodeStatusBehaviour::new().await.unwrap();
         SwarmBuilder::new(transport, behaviour, peer_id).build()
     };
-    match swarm.dial(parsed_addr) {
-        Ok(_) => {
-            log::info!("[WASM] dial ok");
-            loop {
-                if let SwarmEvent::ConnectionEstablished { peer_id, .. } =
-                    swarm.select_next_some().await
-                {
-                    log::info!("[WASM] Connected to {}", peer_id);
-                    swarm
-                        .behaviour_mut()
-                        .request_response
-                        .send_request(&peer_id, NodeStatusRequest);
-                }
+    swarm
+        .dial(parsed_addr)
+        .map_err(|e| anyhow::anyhow!("Fail to dial: {e}"))?;
+    log::info!("[WASM] dial ok");
+    loop {
+        match swarm.select_next_some().await {
+            SwarmEvent::ConnectionEstablished { peer_id, .. } => {
+                log::info!("[WASM] Connected to {}", peer_id);
+                swarm
+                    .behaviour_mut()
+                    .request_response
+                    .send_request(&peer_id, NodeStatusRequest);
+            }
+            SwarmEvent::OutgoingConnectionError { error, .. } => {
+                anyhow::bail!("Fail to connect: {error}")
+            }
+            SwarmEvent::ConnectionClosed { peer_id, .. } => {
+                log::info!("[WASM] Disconnected from {}", peer_id);
+                break;
             }
+            _ => {}
         }
-        Err(e) => log::error!("[WASM] Fail to dail: {}", e),
     }
     Ok({
         let mut r = CommonResponse::new();
-- 
2.43.0


From e481336ad4181c89767b860f8ec728aa2f7225e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 52/59] fix: web nodes give the state hash of the best chain in
 its base58 form

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 4 +++-
 apps/wasm/mvp/src/js_exports.rs           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 524da9b..15a3fed 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -39,7 +39,9 @@ pub async fn poll_latest_blocks_once() -> Result<(), JsError> {
 pub async fn get_best_chain_state_hash() -> Option<String> {
     let frontier = frontier::PROCESSOR_BERKELEY.transition_frontier().await;
     let chain = frontier.get_best_chain();
-    chain.state_hash().map(|state_hash| state_hash.to_string())
+    chain
+        .top()
+        .map(|protocol_state| protocol_state.state_hash().to_string())
 }
 
 #[wasm_bindgen(js_name = getBestChainState)]
diff --git a/apps/wasm/mvp/src/js_exports.rs b/apps/wasm/mvp/src/js_exports.rs
index 7593398..27ddccc 100644
--- a/apps/wasm/mvp/src/js_exports.rs
+++ b/apps/wasm/mvp/src/js_exports.rs
@@ -27,7 +27,9 @@ pub async fn fetch_block_previous_state_hash(
 pub async fn get_best_chain_state_hash() -> Option<String> {
     let frontier = frontier::PROCESSOR_MAINNET.transition_frontier().await;
     let chain = frontier.get_best_chain();
-    chain.state_hash().map(|state_hash| state_hash.to_string())
+    chain
+        .top()
+        .map(|protocol_state| protocol_state.state_hash().to_string())
 }
 
 #[wasm_bindgen]
-- 
2.43.0


From e4957f84c087cd903ad8ad2ef84c6d7194781695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:09 +0000
Subject: [PATCH 53/59] fix: blocks-crawler: a block that cannot be written
 does not end the crawl

---
 apps/tools/blocks-crawler/src/blocks.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 3035dbb..a6a464c 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -51,10 +51,10 @@ pub async fn check_block(network: &str, block: BlockInfo) {
         match retrieve_block_json(&block_url).await {
             Ok(block_json) => match parse_block_json(&block_json) {
                 Ok(_et) => {
-                    write_json("succeeded", network, &block, &block_json);
+                    save_json("succeeded", network, &block, &block_json);
                 }
                 Err(err) => {
-                    write_json("failed", network, &block, &block_json);
+                    save_json("failed", network, &block, &block_json);
                     error!(
                         "Fix Me(https://storage.googleapis.com/mina_network_block_data/{}-{}.json): {}",
                         network, block, err
@@ -111,12 +111,20 @@ pub fn parse_block_json(block_json: &serde_json::Value) -> Result<ExternalTransi
     Ok(json_value.into())
 }
 
-pub fn write_json(op_type: &str, network: &str, block: &BlockInfo, block_json: &serde_json::Value) {
+// Blocks are independent of each other, one that cannot be written does not stop the others
+fn save_json(op_type: &str, network: &str, block: &BlockInfo, block_json: &serde_json::Value) {
+    if let Err(err) = write_json(op_type, network, block, block_json) {
+        error!("Failed to write {} block {}: {}", op_type, block, err);
+    }
+}
+
+pub fn write_json(
+    op_type: &str,
+    network: &str,
+    block: &BlockInfo,
+    block_json: &serde_json::Value,
+) -> std::io::Result<()> {
     let output_path = format!("./output/{}/{}-{}.json", op_type, network, block);
     // Save the JSON structure into file path: ./output/succeeded/
-    std::fs::write(
-        output_path,
-        serde_json::to_string_pretty(&block_json).unwrap(),
-    )
-    .unwrap();
+    std::fs::write(output_path, serde_json::to_string_pretty(&block_json)?)
 }
-- 
2.43.0


From 9db788e6112b9e79fa457efafb196899eb74e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:35 +0000
Subject: [PATCH 54/59] fix: blocks-crawler: a block file is complete before it
 counts as checked

---
 apps/tools/blocks-crawler/src/blocks.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index a6a464c..9f4236a 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -5,6 +5,7 @@ use mina_rs_base::types::ExternalTransition;
 use mina_rs_base::JsonSerializationType;
 use serde::{Deserialize, Serialize};
 use serde_json::Error;
+use std::io::Write;
 use std::path::Path;
 
 // To read query response from graphql api (https://graphql.minaexplorer.com/)
@@ -126,5 +127,10 @@ pub fn write_json(
 ) -> std::io::Result<()> {
     let output_path = format!("./output/{}/{}-{}.json", op_type, network, block);
     // Save the JSON structure into file path: ./output/succeeded/
-    std::fs::write(output_path, serde_json::to_string_pretty(&block_json)?)
+    // A file there counts as checked, so it has to be complete before it gets its name
+    let temp_path = format!("{}.tmp", output_path);
+    let mut file = std::fs::File::create(&temp_path)?;
+    file.write_all(serde_json::to_string_pretty(&block_json)?.as_bytes())?;
+    file.sync_all()?;
+    std::fs::rename(temp_path, output_path)
 }
-- 
2.43.0


From 1df311017344a889f633b9b374f1867d03181a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 55/59] fix: blocks-crawler: the body of an error status is not
 a block

---
 apps/tools/blocks-crawler/src/blocks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/tools/blocks-crawler/src/blocks.rs b/apps/tools/blocks-crawler/src/blocks.rs
index 9f4236a..84466b0 100644
--- a/apps/tools/blocks-crawler/src/blocks.rs
+++ b/apps/tools/blocks-crawler/src/blocks.rs
@@ -95,7 +95,11 @@ pub async fn fetch_block_info(n: &str) -> Result<QueryResponse, reqwest::Error>
 pub async fn retrieve_block_json(
     block_url: &str,
 ) -> Result<serde_json::Value, Box<dyn std::error::Error>> {
-    let block_txt = reqwest::get(block_url).await?.text().await?;
+    let block_txt = reqwest::get(block_url)
+        .await?
+        .error_for_status()?
+        .text()
+        .await?;
     let mut block_json: serde_json::Value = serde_json::from_str(&block_txt)?;
     // Remove scheduled_time field as it's not part of block
     if let Some(block_mut) = block_json.as_object_mut() {
-- 
2.43.0


From 2b574dd5e54ead8fa33dbc4379f75cffd6285c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 56/59] fix: secrets refuses wallet costs that are out of range

---
 secrets/src/secret_box/types_impls.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..266d359 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,9 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: json.pwdiff[1]
+                .try_into()
+                .map_err(|_| Error::Argon2Error("Ops limit out of range".into()))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
@@ -84,9 +86,11 @@ impl TryInto<serde_json::Value> for SecretBox {
 
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        let m_cost = u32::try_from(self.pw_mem_limit_bytes / 1024)
+            .map_err(|_| Error::Argon2Error("Memory limit out of range".into()))?;
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(m_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From 8e894a53513fc437e476d9a43344aeae61c21a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:48 +0000
Subject: [PATCH 57/59] fix: secrets refuses a wallet without a key in it

---
 secrets/src/secret_box/types_impls.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 266d359..35e163a 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -122,6 +122,9 @@ impl SecretBox {
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty plaintext".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From 879ba45e9ad1b9f1f7234df920366d311a7544ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 58/59] fix: secrets refuses a nonce of another length

---
 secrets/src/secret_box/constants.rs   | 2 ++
 secrets/src/secret_box/types_impls.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/secrets/src/secret_box/constants.rs b/secrets/src/secret_box/constants.rs
index 5909ec2..5e3b2a5 100644
--- a/secrets/src/secret_box/constants.rs
+++ b/secrets/src/secret_box/constants.rs
@@ -3,3 +3,5 @@
 
 pub const SECRET_BOX_PRIMITIVE: &str = "xsalsa20poly1305";
 pub const PASSWORD_HASH_PRIMITIVE: &str = "argon2i";
+// length of the nonce of xsalsa20poly1305 in bytes
+pub(super) const NONCE_LENGTH: usize = 24;
diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 35e163a..dd30af1 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -116,6 +116,9 @@ impl SecretBox {
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
+        if self.nonce.len() != NONCE_LENGTH {
+            return Err(Error::AeadError("Invalid nonce length".into()));
+        }
         let mut bytes = cipher
             .decrypt(
                 GenericArray::from_slice(self.nonce.as_slice()),
-- 
2.43.0


From e4cbd1075fa522df3f0b49e6fee4e26c20a1c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:05 +0000
Subject: [PATCH 59/59] fix: refuse numbers beyond the field in
 Field::from_str_radix instead of panicking

---
 crypto/src/hash/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/hash/types.rs b/crypto/src/hash/types.rs
index d0f03f5..f7fb676 100644
--- a/crypto/src/hash/types.rs
+++ b/crypto/src/hash/types.rs
@@ -10,7 +10,7 @@
 //! Depending on the type of hash a different byte prefix is used in the human readable form
 //!
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use mina_serialization_types::{impl_strconv_via_json, json::*, v1::*};
 use num::{BigUint, Num};
 use proof_systems::{
@@ -28,7 +28,9 @@ impl Field {
     pub fn from_str_radix(s: &str, radix: u32) -> anyhow::Result<Self> {
         let big = BigUint::from_str_radix(s, radix)?;
         let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
-        Ok(Self::from(&Fp::from(big256)))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| anyhow::Error::msg("number is not below the field modulus"))?;
+        Ok(Self::from(&fp))
     }
 }
 
-- 
2.43.0

