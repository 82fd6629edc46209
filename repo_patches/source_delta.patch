From 3ad446dc0e71b22f71e601ec201dd7fc17060831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 01/17] fix: do not overflow when a string claims a length near
 usize::MAX

---
 src/context.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/context.rs b/src/context.rs
index 83bdfa8..bf7fb98 100644
--- a/src/context.rs
+++ b/src/context.rs
@@ -57,7 +57,6 @@ impl<'a> CborDataReader<'a> {
         }
         let offseted_rem = rem - offset;
         let start = self.index + offset;
-        let end = start + n;
         if n > offseted_rem {
             Err(CborDataMissing {
                 expecting_bytes: n,
@@ -65,7 +64,7 @@ impl<'a> CborDataReader<'a> {
                 context,
             })
         } else {
-            Ok(&self.data[start..end])
+            Ok(&self.data[start..start + n])
         }
     }
 
-- 
2.43.0


From d8d8d278a8f94472c9569c3774f6303bb9f87bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 02/17] fix: null and undefined reads only accept their own
 constant

---
 src/reader.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d0b43e7..4db591f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -289,14 +289,26 @@ impl<'a> Reader<'a> {
 
     pub fn null(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Null, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Null) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Null,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
 
     pub fn undefined(&mut self) -> Result<(), ReaderError> {
         let (hdr, advance) = self.header()?;
-        let _content = matches_type!(hdr, Type::Undefined, Header::Constant)?;
+        match hdr {
+            Header::Constant(Constant::Undefined) => Ok(()),
+            _ => Err(ReaderError::WrongExpectedType {
+                expected: Type::Undefined,
+                got: hdr.to_type(),
+            }),
+        }?;
         self.reader.advance(advance);
         Ok(())
     }
-- 
2.43.0


From f0ad7585e2ae9199544de3d4dbc526eb6e3b9936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 03/17] fix: refuse items of another type inside an indefinite
 bytes or text

---
 src/state.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/state.rs b/src/state.rs
index 24c5886..3fe8c7c 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -220,6 +220,13 @@ impl State {
             }
             // A regular text or bytes, we can just call item_simple
             Some(_b) => {
+                match (self.ctx.last(), new_stream) {
+                    (Some(StructTy::Stream(StreamType::Bytes)), StreamType::Text)
+                    | (Some(StructTy::Stream(StreamType::Text)), StreamType::Bytes) => {
+                        return Err(StateError::InvalidTypeInChunk);
+                    }
+                    _ => (),
+                };
                 self.advance()?;
                 self.check_reduce()
             }
@@ -261,6 +268,10 @@ impl State {
     ///
     /// All values except text, bytes, array, map, tag
     pub fn simple(&mut self) -> Result<(), StateError> {
+        // in a bytes/texts stream only definite bytes/text of the same type are allowed
+        if let Some(StructTy::Stream(StreamType::Bytes | StreamType::Text)) = self.ctx.last() {
+            return Err(StateError::InvalidTypeInChunk);
+        }
         self.advance()?;
         self.check_reduce()
     }
-- 
2.43.0


From be814e091023b70aa471635778d2d3dc83b6f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 04/17] fix: refuse an indefinite map with a key and no value

---
 src/state.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 3fe8c7c..6782cf6 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -20,7 +20,8 @@ use std::fmt;
 #[derive(Debug, Clone, Copy)]
 enum StreamType {
     Array,
-    Map,
+    /// whether a value is expected next
+    Map(bool),
     Bytes,
     Text,
 }
@@ -28,7 +29,7 @@ enum StreamType {
 impl StreamType {
     pub fn composite_scalar(self) -> bool {
         match self {
-            StreamType::Array | StreamType::Map => false,
+            StreamType::Array | StreamType::Map(_) => false,
             StreamType::Bytes | StreamType::Text => true,
         }
     }
@@ -155,6 +156,10 @@ impl State {
                     *finished = true;
                     Ok(())
                 }
+                StructTy::Stream(StreamType::Map(exp_val)) => {
+                    *exp_val = !*exp_val;
+                    Ok(())
+                }
                 StructTy::Stream(_sty) => Ok(()),
             },
         }
@@ -299,7 +304,7 @@ impl State {
 
     /// Add a new Map into the context
     pub fn map(&mut self, v: HeaderValueStream) -> Result<(), StateError> {
-        self.struct_start(v, StreamType::Map, |nz| StructTy::Map {
+        self.struct_start(v, StreamType::Map(false), |nz| StructTy::Map {
             exp_val: false,
             elements: nz,
         })
@@ -308,6 +313,9 @@ impl State {
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
         match self.ctx.pop() {
+            Some(StructTy::Stream(StreamType::Map(true))) => {
+                return Err(StateError::StructureNotFinished);
+            }
             Some(StructTy::Stream(_sty)) => (),
             Some(_sty) => {
                 return Err(StateError::BreakInNonStreamable);
-- 
2.43.0


From 39934b200597f0b71c1fe3ff33d4c8b502a88b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 05/17] fix: a refused break does not drop the open container
 from the state

---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index 6782cf6..10b15e3 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -312,7 +312,7 @@ impl State {
 
     /// Process a CBOR break, which terminate either an indefinite array, map, bytes, text
     pub fn brk(&mut self) -> Result<(), StateError> {
-        match self.ctx.pop() {
+        match self.ctx.last() {
             Some(StructTy::Stream(StreamType::Map(true))) => {
                 return Err(StateError::StructureNotFinished);
             }
@@ -324,6 +324,7 @@ impl State {
                 return Err(StateError::BreakEmptyStack);
             }
         };
+        self.ctx.pop();
         self.advance()?;
         self.check_reduce()?;
         Ok(())
-- 
2.43.0


From dd05fb07336b622633854f26178d0de92967c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 06/17] fix: validator does not carry open containers over from
 a failed call

---
 src/validate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validate.rs b/src/validate.rs
index 0ea6726..d9cecfd 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -161,6 +161,8 @@ impl<'a> Validator<'a> {
     /// On error, it returns a `ValidateError` containing
     pub fn next(&mut self) -> Result<(&'a CborSlice, usize), ValidateError> {
         let start = self.reader.index;
+        // forget containers left open by a previous failed call
+        self.state = State::new();
 
         loop {
             let (ld, advance, ival) = self.header_parts()?;
-- 
2.43.0


From 05259b19581e3c71682715bdaaeb11631fc2280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 07/17] fix: canonical byte values 20 to 23 use the two-byte
 form, writing them panicked

---
 src/lowlevel/header.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lowlevel/header.rs b/src/lowlevel/header.rs
index dc2cf8d..11dfc6c 100644
--- a/src/lowlevel/header.rs
+++ b/src/lowlevel/header.rs
@@ -182,18 +182,19 @@ impl HeaderValue8 {
         }
     }
 
+    // 20 to 23 have no immediate form, they are the constants
     pub fn canonical(v: u8) -> Self {
         match v {
-            _ if v < 24 => Self::Imm(v as u8),
+            _ if v < 20 => Self::Imm(v as u8),
             _ => Self::U8(v),
         }
     }
 
     pub fn is_canonical(&self) -> bool {
         match self {
-            // don't check if imm is < 24, as it shouldn't be allowed
+            // don't check if imm is < 20, as it shouldn't be allowed
             HeaderValue8::Imm(_) => true,
-            HeaderValue8::U8(v) => *v >= 24,
+            HeaderValue8::U8(v) => *v >= 20,
         }
     }
 }
-- 
2.43.0


From 8169b2a881eaa9f366c7ffa2d4d947a6913f5444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 08/17] fix: decode rational numbers with a negative bignum
 numerator

---
 src/tagged.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tagged.rs b/src/tagged.rs
index 224ce16..f0079da 100644
--- a/src/tagged.rs
+++ b/src/tagged.rs
@@ -167,6 +167,8 @@ impl RationalNumber {
                     Type::Tag => PositiveBignum::read(&mut inner_reader)
                         .map(RationalNumerator::PositiveBignum)
                         .or_else(|_| {
+                            // the failed read has consumed the element
+                            inner_reader = array[0].reader();
                             NegativeBignum::read(&mut inner_reader)
                                 .map(RationalNumerator::NegativeBignum)
                         }),
-- 
2.43.0


From d737db02e5d1c4f2ca7e72096a3e1080082b8d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 09/17] fix: validating raw data as a type refuses trailing
 bytes

---
 src/prim.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prim.rs b/src/prim.rs
index 838f168..1437e51 100644
--- a/src/prim.rs
+++ b/src/prim.rs
@@ -71,6 +71,12 @@ impl CborData {
             Ok(_) => (),
             Err(e) => return Err(e),
         };
+        if !r.is_finished() {
+            return Err(DecodeErrorKind::ReaderNotTerminated {
+                remaining_bytes: r.remaining_bytes(),
+            }
+            .context::<Self>());
+        }
         Ok(CborDataOf(PhantomData, self.0.clone()))
     }
 
-- 
2.43.0


From 7b8b0356b32e07708b7c055fbcbae5afffb73998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 10/17] fix: derived integer-keyed map decoding honours
 map_starts_at

---
 cbored-derive/src/product.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 527986c..2159ed8 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -509,7 +509,7 @@ pub(crate) fn derive_struct_de(
                     let mut keyfields = Vec::new();
                     let mut mandatory_keys = Vec::new();
 
-                    let mut rel_index = 0;
+                    let mut rel_index = attrs.starts_at as u64;
 
                     for field in fields.iter() {
                         let Field {
-- 
2.43.0


From 6aa11806816b555571e4b5e1fef54e7bb97d7995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 11/17] fix: derived integer-keyed map decoding does not
 overflow on keys of 32 and above

---
 cbored-derive/src/product.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index 2159ed8..d623dab 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -535,6 +535,9 @@ pub(crate) fn derive_struct_de(
                         };
                         let keyfield = quote! {
                             #abs_index => {
+                                if #field_name.is_some() {
+                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
+                                }
                                 #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                             }
                         };
@@ -563,16 +566,9 @@ pub(crate) fn derive_struct_de(
 
                         #( #keydefs )*
 
-                        let mut found_keys = 0;
                         for (mut k, mut v) in map.iter() {
                             let key: u64 = k.decode().map_err(|e| e.push::<Self>())?;
 
-                            if (found_keys & (1 << key)) != 0 {
-                                return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
-                            } else {
-                                found_keys |= 1 << key;
-                            }
-
                             match key {
                                 #( #keyfields )*
                                 // handle unknown keys
-- 
2.43.0


From 311f1f07c58479e386e80f1a2cde86654b6784fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 12/17] fix: derived decoding of a tagged flat structure reads
 its tag

---
 cbored-derive/src/product.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cbored-derive/src/product.rs b/cbored-derive/src/product.rs
index d623dab..4c33fc4 100644
--- a/cbored-derive/src/product.rs
+++ b/cbored-derive/src/product.rs
@@ -387,7 +387,18 @@ pub(crate) fn derive_struct_de(
     // * output:
     //   * 'array' which is CBOR Array if StructureType::Array
     let (prelude_sty_de, structure) = match attrs.structure_type {
-        StructureType::Flat => (quote! {}, DeStructure::Flat),
+        StructureType::Flat => {
+            let r = if tag_structure {
+                quote! {
+                    #tag_wrapper
+                    let mut tag_reader = tag.reader();
+                    let reader = &mut tag_reader;
+                }
+            } else {
+                quote! {}
+            };
+            (r, DeStructure::Flat)
+        }
         StructureType::Array | StructureType::ArrayLastOpt => {
             let r = if tag_structure {
                 quote! {
-- 
2.43.0


From 38ca456070633dc89340779dc3d99de502e72989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 13/17] fix: deriving a type-selected enum with a null variant
 compiles

---
 cbored-derive/src/sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 2ec151a..5ffccd5 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -158,7 +158,7 @@ pub(crate) fn derive_enum_se(
                     }
                     None => match variant_def.cbor_type {
                         None => panic!("cannot have no cbor_type"),
-                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.null(); }),
+                        Some(FieldCborType::Null) => (quote! {}, quote! { writer.constant(::cbored::Constant::Null); }),
                         Some(_) => {
                             panic!("cannot have a cbor-type that is not null without argument")
                         }
@@ -339,7 +339,7 @@ pub(crate) fn derive_enum_de(
                         (
                             quote! {},
                             quote! {
-                                reader.null().map_err(DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>());
+                                reader.null().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context_str(#variant_name).push::<Self>())?;
                             },
                         )
                     }
-- 
2.43.0


From 88d6811a8a0796f1f3285d9e6539893240831e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 14/17] fix: variant_starts_at is counted once in the variant
 numbers

---
 cbored-derive/src/sum.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 5ffccd5..84d03d1 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -183,7 +183,7 @@ pub(crate) fn derive_enum_se(
             let variant_def = variant_field(&attrs, &variant);
             let variant_type = &variant_def.ty;
 
-            let variant_number = attrs.variant_starts_at + variant_index;
+            let variant_number = *variant_index;
 
             let (parameters, se_fields) = {
                 match &variant_type {
@@ -286,7 +286,7 @@ pub(crate) fn derive_enum_de(
                 enumerate_variant_indices(&attrs, &mut st.variants.iter()).iter()
             {
                 let ident = &variant.ident;
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let de_branch = quote! {
                     #variant_number => {
@@ -388,7 +388,7 @@ pub(crate) fn derive_enum_de(
             {
                 let ident = &variant.ident;
                 let variant_name = format!("{}", ident);
-                let variant_number = attrs.variant_starts_at + variant_index;
+                let variant_number = *variant_index;
 
                 let nb_items = variant.fields.len();
 
-- 
2.43.0


From 2bef0fc55ab048eb91701a4f2f7f46ba58619ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 15/17] fix: reserved lead error of major type 7 reports the
 whole byte

---
 src/lowlevel/lead.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lowlevel/lead.rs b/src/lowlevel/lead.rs
index 26e00a8..26269af 100644
--- a/src/lowlevel/lead.rs
+++ b/src/lowlevel/lead.rs
@@ -222,7 +222,7 @@ impl Lead {
             0x19 => Ok(Lead::FP16),
             0x1a => Ok(Lead::FP32),
             0x1b => Ok(Lead::FP64),
-            0x1c..=0x1e => Err(LeadError::Reserved(b)),
+            0x1c..=0x1e => Err(LeadError::Reserved(byte)),
             0x1f => Ok(Lead::Break),
             _ => unreachable!(),
         }
-- 
2.43.0


From fb9f9b0cf5b2fa111a343674ee4eb8ba9318366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 16/17] fix: reading empty input reports missing data instead
 of panicking

---
 src/reader.rs   | 1 -
 src/validate.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 4db591f..291430d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -153,7 +153,6 @@ impl<'a> Reader<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self { reader }
     }
diff --git a/src/validate.rs b/src/validate.rs
index d9cecfd..a201668 100644
--- a/src/validate.rs
+++ b/src/validate.rs
@@ -63,7 +63,6 @@ impl<'a> Validator<'a> {
     }
 
     pub fn new(data: &'a [u8]) -> Self {
-        assert!(data.len() > 0);
         let reader = CborDataReader::new(data);
         Self {
             reader,
-- 
2.43.0


From 3a6c38cee3debd0ae7b1a0c2041fdb565e4f0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 17/17] fix: name the failing element in errors of Vec fields
 of enum variants

---
 cbored-derive/src/sum.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbored-derive/src/sum.rs b/cbored-derive/src/sum.rs
index 84d03d1..c305f6e 100644
--- a/cbored-derive/src/sum.rs
+++ b/cbored-derive/src/sum.rs
@@ -441,19 +441,22 @@ pub(crate) fn derive_enum_de(
                                 .map(|field| {
                                     let fidx = field.index;
                                     let ident = &field.name;
+                                    let fname_str = format!("{}", ident);
                                     if field.is_vec || field.attrs.variant_type == FieldVariantType::Vec {
                                         quote! {
                                             let #ident = {
                                                 let mut r = array[#fidx + 1].reader();
                                                 let vec = r.array().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?
                                                     .iter()
-                                                    .map(|mut r| r.decode())
+                                                    .enumerate()
+                                                    .map(|(i, mut r)| r.decode().map_err(|e: ::cbored::DecodeError| {
+                                                        e.push_string(i.to_string()).push_str(#fname_str).push_str(#variant_name).push::<Self>()
+                                                    }))
                                                     .collect::<Result<Vec<_>, ::cbored::DecodeError>>()?;
                                                 vec
                                             };
                                         }
                                     } else {
-                                        let fname_str = format!("{}", ident);
                                         quote! {
                                             let #ident = array[#fidx + 1].decode().map_err(|e| e.push_str(#fname_str).push_str(#variant_name).push::<Self>())?;
                                         }
-- 
2.43.0

