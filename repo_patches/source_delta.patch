From 283242ba478ca6fa4c6c5f60f082a4339f82dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 01/80] fix: do not use native bitwise coding when the byte
 order is not native

---
 crates/musli/src/options.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/options.rs b/crates/musli/src/options.rs
index c1079d4..4415529 100644
--- a/crates/musli/src/options.rs
+++ b/crates/musli/src/options.rs
@@ -328,8 +328,18 @@ const fn is_map_keys_as_numbers_value(opt: Options) -> bool {
 ))]
 pub(crate) const fn is_native_fixed<const OPT: Options>() -> bool {
     matches!(
-        (integer::<OPT>(), float::<OPT>(), length::<OPT>(),),
-        (Integer::Fixed, Float::Fixed, Width::NATIVE)
+        (
+            integer::<OPT>(),
+            float::<OPT>(),
+            length::<OPT>(),
+            byteorder::<OPT>()
+        ),
+        (
+            Integer::Fixed,
+            Float::Fixed,
+            Width::NATIVE,
+            ByteOrder::NATIVE
+        )
     )
 }
 
-- 
2.43.0


From ff455e9c74b0b9d1347cece3af948cc2bcb5b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 02/80] fix: write empty values when encoding into a dynamic
 value

---
 crates/musli/src/value/en.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/value/en.rs b/crates/musli/src/value/en.rs
index 028431a..eae2946 100644
--- a/crates/musli/src/value/en.rs
+++ b/crates/musli/src/value/en.rs
@@ -128,7 +128,7 @@ where
 
     #[inline]
     fn encode_empty(self) -> Result<(), Self::Error> {
-        Ok(())
+        self.output.write(self.cx, Value::Unit)
     }
 
     #[inline]
-- 
2.43.0


From abb056918fffdfa0a82cecd5c3ca0c847892a475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 03/80] fix: decode the bytes of an OsString as bytes, matching
 how they are encoded

---
 crates/musli-core/src/impls/alloc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/alloc.rs b/crates/musli-core/src/impls/alloc.rs
index d94e753..daf15a4 100644
--- a/crates/musli-core/src/impls/alloc.rs
+++ b/crates/musli-core/src/impls/alloc.rs
@@ -917,7 +917,8 @@ where
                 #[cfg(unix)]
                 PlatformTag::Unix => {
                     use std::os::unix::ffi::OsStringExt;
-                    Ok(OsString::from_vec(variant.decode_value()?.decode()?))
+                    let bytes = DecodeBytes::decode_bytes(variant.decode_value()?)?;
+                    Ok(OsString::from_vec(bytes))
                 }
                 #[cfg(not(windows))]
                 PlatformTag::Windows => Err(cx.message("Unsupported OsString::Windows variant")),
-- 
2.43.0


From 09e6320b6a69400f169c496c7be3408f5bc0f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 04/80] fix: decode RangeFull as the empty sequence it is
 encoded as

---
 crates/musli-core/src/impls/range.rs | 37 +++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/impls/range.rs b/crates/musli-core/src/impls/range.rs
index 84004e8..b8615a1 100644
--- a/crates/musli-core/src/impls/range.rs
+++ b/crates/musli-core/src/impls/range.rs
@@ -96,7 +96,42 @@ macro_rules! implement_new {
     }
 }
 
-implement!(RangeFull {}, 0);
+impl<M> Encode<M> for RangeFull {
+    type Encode = Self;
+
+    const IS_BITWISE_ENCODE: bool = false;
+
+    #[inline]
+    fn encode<E>(&self, encoder: E) -> Result<(), E::Error>
+    where
+        E: Encoder<Mode = M>,
+    {
+        encoder.encode_sequence_fn(0, |_| Ok(()))
+    }
+
+    #[inline]
+    fn as_encode(&self) -> &Self::Encode {
+        self
+    }
+}
+
+impl<'de, M, A> Decode<'de, M, A> for RangeFull
+where
+    A: Allocator,
+{
+    const IS_BITWISE_DECODE: bool = false;
+
+    // NB: this is encoded as an empty sequence, which `()` is not since it might
+    // be bitwise decoded.
+    #[inline]
+    fn decode<D>(decoder: D) -> Result<Self, D::Error>
+    where
+        D: Decoder<'de, Mode = M, Allocator = A>,
+    {
+        decoder.decode_sequence(|_| Ok(RangeFull))
+    }
+}
+
 implement!(Range<T> { start, end }, 2);
 implement!(RangeFrom<T> { start }, 1);
 implement!(RangeTo<T> { end }, 1);
-- 
2.43.0


From c5ec5018eab7dd46096070fc44427ae981955749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 05/80] fix: reject continuation integers with more bits than
 the type

---
 crates/musli/src/int/continuation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/int/continuation.rs b/crates/musli/src/int/continuation.rs
index 5dd1313..a06aa9d 100644
--- a/crates/musli/src/int/continuation.rs
+++ b/crates/musli/src/int/continuation.rs
@@ -34,7 +34,16 @@ where
         }
 
         b = r.read_byte(cx)?;
-        value = value.wrapping_add(T::from_byte(b & MASK_BYTE).wrapping_shl(shift));
+
+        let bits = T::from_byte(b & MASK_BYTE);
+        let shifted = bits.wrapping_shl(shift);
+
+        // Bits shifted out of the value means that it doesn't fit in `T`.
+        if shifted >> shift != bits {
+            return Err(cx.message("Bits overflow"));
+        }
+
+        value = value.wrapping_add(shifted);
     }
 
     Ok(value)
-- 
2.43.0


From 4916e54eb675b5c32ff87b3c19d55c569c2a2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 06/80] fix: read descriptive numbers exactly across signedness
 and kind

---
 crates/musli/src/descriptive/de.rs            |  6 +-
 .../musli/src/descriptive/integer_encoding.rs | 55 +++++++++++++------
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index ff17a9f..4334e92 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -15,7 +15,7 @@ use crate::value::{IntoValueDecoder, Value};
 use crate::Context;
 use crate::{Options, Reader};
 
-use super::integer_encoding::{decode_typed_signed, decode_typed_unsigned};
+use super::integer_encoding::{decode_typed_float, decode_typed_signed, decode_typed_unsigned};
 use super::tag::{Kind, Mark, Tag, F32, F64, I128, I16, I32, I64, I8, U128, U16, U32, U64, U8};
 
 const BUFFER_OPTIONS: Options = options::new().build();
@@ -525,7 +525,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        let bits = self.decode_u32()?;
+        let bits = decode_typed_float(self.cx, self.reader, F32)?;
         Ok(f32::from_bits(bits))
     }
 
@@ -533,7 +533,7 @@ where
     /// IEEE 754 encoding byte-by-byte.
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        let bits = self.decode_u64()?;
+        let bits = decode_typed_float(self.cx, self.reader, F64)?;
         Ok(f64::from_bits(bits))
     }
 
diff --git a/crates/musli/src/descriptive/integer_encoding.rs b/crates/musli/src/descriptive/integer_encoding.rs
index 39aa221..bda6bf2 100644
--- a/crates/musli/src/descriptive/integer_encoding.rs
+++ b/crates/musli/src/descriptive/integer_encoding.rs
@@ -21,25 +21,25 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_unsigned<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned + TryFrom<T::Signed>,
+    T: Unsigned + TryFrom<i128>,
 {
-    let (value, kind): (T, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
+    match decode_number_kind(cx, reader.borrow_mut())? {
         NumberKind::Signed => {
-            let value = zig::decode(value);
+            // NB: The signed value might need more bits than are available in
+            // `T`, so it has to be decoded at full width.
+            let value = zig::decode(c::decode::<_, _, u128>(cx, reader)?);
 
             let Ok(value) = T::try_from(value) else {
-                return Err(cx.message(format_args!("Unsigned value outside of signed range")));
+                return Err(cx.message(format_args!("Signed value outside of unsigned range")));
             };
 
             Ok(value)
         }
-        NumberKind::Unsigned | NumberKind::Float => Ok(value),
+        NumberKind::Unsigned => c::decode(cx, reader),
         kind => Err(cx.message(format_args!(
             "Expected signed or unsigned number, got {:?}",
             kind
@@ -59,11 +59,10 @@ where
 }
 
 #[inline]
-fn decode_typed<'de, C, R, T>(cx: C, mut reader: R) -> Result<(T, NumberKind), C::Error>
+fn decode_number_kind<'de, C, R>(cx: C, mut reader: R) -> Result<NumberKind, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Unsigned,
 {
     let tag = Tag::from_byte(reader.read_byte(cx)?);
 
@@ -71,8 +70,7 @@ where
         return Err(cx.message(format_args!("Expected {:?}, got {tag:?}", Kind::Number)));
     }
 
-    let kind = tag.number_kind();
-    Ok((c::decode(cx, reader)?, kind))
+    Ok(tag.number_kind())
 }
 
 #[inline]
@@ -91,17 +89,17 @@ where
 }
 
 #[inline]
-pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, reader: R) -> Result<T, C::Error>
+pub(crate) fn decode_typed_signed<'de, C, R, T>(cx: C, mut reader: R) -> Result<T, C::Error>
 where
     C: Context,
     R: Reader<'de>,
-    T: Signed + TryFrom<<T as Signed>::Unsigned>,
+    T: Signed + TryFrom<u128>,
 {
-    let (value, kind): (T::Unsigned, NumberKind) = decode_typed(cx, reader)?;
-
-    match kind {
-        NumberKind::Signed => Ok(zig::decode(value)),
+    match decode_number_kind(cx, reader.borrow_mut())? {
+        NumberKind::Signed => Ok(zig::decode(c::decode::<_, _, T::Unsigned>(cx, reader)?)),
         NumberKind::Unsigned => {
+            let value = c::decode::<_, _, u128>(cx, reader)?;
+
             let Ok(value) = T::try_from(value) else {
                 return Err(cx.message(format_args!("Unsigned value outside of signed range")));
             };
@@ -114,3 +112,24 @@ where
         ))),
     }
 }
+
+/// Decode the bits of a floating point number tagged with `data`.
+#[inline]
+pub(crate) fn decode_typed_float<'de, C, R, T>(
+    cx: C,
+    mut reader: R,
+    data: u8,
+) -> Result<T, C::Error>
+where
+    C: Context,
+    R: Reader<'de>,
+    T: Unsigned,
+{
+    let tag = Tag::from_byte(reader.read_byte(cx)?);
+
+    if tag != Tag::new(Kind::Number, data) {
+        return Err(cx.message(format_args!("Expected floating point number, got {tag:?}")));
+    }
+
+    c::decode(cx, reader)
+}
-- 
2.43.0


From 272799bd2f6ae80fa1d566cb624925a3ab1cdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 07/80] fix: do not consume the tag twice in descriptive
 decode_number

---
 crates/musli/src/descriptive/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 4334e92..8ce5de0 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -372,7 +372,11 @@ where
         V: Visitor<'de, C, Error = Self::Error, Allocator = Self::Allocator>,
     {
         let cx = self.cx;
-        let tag = Tag::from_byte(self.reader.read_byte(cx)?);
+
+        // NB: The tag is only peeked, since the decoders below consume it.
+        let Some(tag) = self.reader.peek().map(Tag::from_byte) else {
+            return Err(cx.message("Expected number, but found empty buffer"));
+        };
 
         match tag.kind() {
             Kind::Number => match tag.data() {
-- 
2.43.0


From 516c3f8af77d9241ebe54bed909c7bcf8983134f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 08/80] fix: compute JSON integers without overflow and accept
 equivalent notations

---
 crates/musli/src/json/parser/integer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 8d5ea04..7757f57 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -179,7 +179,15 @@ where
             return Ok(base);
         }
 
+        if m.value.is_zero() && base.is_zero() {
+            return Ok(base);
+        }
+
         if e >= 0 {
+            if m.value.is_zero() {
+                return Ok(check!(base.checked_pow10(e as u32), IntegerOverflow));
+            }
+
             // Decoding the specified mantissa would result in a fractional number.
             let mantissa_exp = check!(e.checked_sub(m.exp).filter(|n| *n >= 0), Decimal) as u32;
 
@@ -198,7 +206,7 @@ where
         } else if !m.value.is_zero() {
             Err(IntegerError::Decimal)
         } else {
-            Ok(check!(base.checked_neg_pow10(-e as u32), Decimal))
+            Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
 
@@ -525,7 +533,10 @@ where
         return Err(cx.message_at(start, IntegerError::IntegerOverflow));
     };
 
-    Ok(out + T::from_byte(p.read_byte(cx)? - b'0'))
+    match out.checked_add(T::from_byte(p.read_byte(cx)? - b'0')) {
+        Some(out) => Ok(out),
+        None => Err(cx.message_at(start, IntegerError::IntegerOverflow)),
+    }
 }
 
 /// Decode sequence of zeros.
-- 
2.43.0


From fd3b925dba17e36b0af678df045255e6ec1db776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 09/80] fix: only convert whole floats in range to integers in
 the dynamic value

---
 crates/musli/src/value/de.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 346fe35..56db3e9 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -740,8 +740,8 @@ macro_rules! integer_from {
                     Number::I128(n) => Self::try_from(*n).ok(),
                     Number::Usize(n) => Self::try_from(*n).ok(),
                     Number::Isize(n) => Self::try_from(*n).ok(),
-                    Number::F32(v) => Some(*v as $ty),
-                    Number::F64(v) => Some(*v as $ty),
+                    Number::F32(v) => integer_from!(@float f32, $ty, *v),
+                    Number::F64(v) => integer_from!(@float f64, $ty, *v),
                 };
 
                 match out {
@@ -759,6 +759,19 @@ macro_rules! integer_from {
             }
         }
     };
+
+    // Only whole floats which are in range of the integer can be converted. The
+    // cast saturates, so the (exclusive) upper bound has to be checked.
+    (@float $float:ty, $ty:ty, $v:expr) => {{
+        const END: $float = (<$ty>::MAX / 2 + 1) as $float * 2.0;
+        let out = $v as $ty;
+
+        if $v < END && out as $float == $v {
+            Some(out)
+        } else {
+            None
+        }
+    }};
 }
 
 macro_rules! float_from {
-- 
2.43.0


From 42b2c059edee479cf47a3049190a87eb84d55c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 10/80] fix: skip every remaining element of a descriptive
 sequence

---
 crates/musli/src/descriptive/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index 8ce5de0..e625a1c 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -198,7 +198,7 @@ where
 
     #[inline]
     fn skip_sequence_remaining(mut self) -> Result<(), C::Error> {
-        if let Some(item) = self.try_decode_next()? {
+        while let Some(item) = self.try_decode_next()? {
             item.skip()?;
         }
 
-- 
2.43.0


From ca6545d9f8dfa279d1c9d2fbf04bf0ba013c3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 11/80] fix: tag fixed-width lengths in wire with their size in
 bytes

---
 crates/musli/src/wire/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/wire/int.rs b/crates/musli/src/wire/int.rs
index ec0579b..6cff502 100644
--- a/crates/musli/src/wire/int.rs
+++ b/crates/musli/src/wire/int.rs
@@ -27,7 +27,7 @@ where
         }
         width => {
             let bo = crate::options::byteorder::<OPT>();
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             writer.write_byte(cx, Tag::new(Kind::Prefix, bytes).byte())?;
 
             macro_rules! fixed {
@@ -72,7 +72,7 @@ where
         width => {
             let bo = crate::options::byteorder::<OPT>();
 
-            let bytes = 1u8 << width as u8;
+            let bytes = 1u8 << (width as u8 - 1);
             let tag = Tag::from_byte(reader.read_byte(cx)?);
 
             if tag != Tag::new(Kind::Prefix, bytes) {
-- 
2.43.0


From 4e2b2d58a1803035de26fddcd331fbae0c9faa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 12/80] fix: report overflowing lengths when skipping in wire
 and descriptive

---
 crates/musli/src/descriptive/de.rs | 23 ++++++++++++++++-------
 crates/musli/src/wire/de.rs        |  5 ++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/musli/src/descriptive/de.rs b/crates/musli/src/descriptive/de.rs
index e625a1c..1be1732 100644
--- a/crates/musli/src/descriptive/de.rs
+++ b/crates/musli/src/descriptive/de.rs
@@ -63,9 +63,12 @@ where
 {
     /// Skip over any sequences of values.
     pub(crate) fn skip_any(mut self) -> Result<(), C::Error> {
-        let mut remaining = 1;
+        let mut remaining = 1usize;
 
         while remaining > 0 {
+            // The number of values nested in this one.
+            let mut nested = 0usize;
+
             let tag = Tag::from_byte(self.reader.read_byte(self.cx)?);
 
             match tag.kind() {
@@ -74,10 +77,10 @@ where
                 }
                 Kind::Mark => match tag.mark() {
                     Mark::Variant => {
-                        remaining += 2;
+                        nested = 2;
                     }
                     Mark::Some => {
-                        remaining += 1;
+                        nested = 1;
                     }
                     Mark::Char => {
                         _ = c::decode::<_, _, u32>(self.cx, self.reader.borrow_mut())?;
@@ -94,12 +97,15 @@ where
                     self.reader.skip(self.cx, len)?;
                 }
                 Kind::Sequence => {
-                    let len = self.decode_len(tag)?;
-                    remaining += len;
+                    nested = self.decode_len(tag)?;
                 }
                 Kind::Map => {
                     let len = self.decode_len(tag)?;
-                    remaining += len * 2;
+
+                    nested = match len.checked_mul(2) {
+                        Some(nested) => nested,
+                        None => return Err(self.cx.message("Map length overflow")),
+                    };
                 }
                 kind => {
                     return Err(self
@@ -108,7 +114,10 @@ where
                 }
             }
 
-            remaining -= 1;
+            remaining = match (remaining - 1).checked_add(nested) {
+                Some(remaining) => remaining,
+                None => return Err(self.cx.message("Nested length overflow")),
+            };
         }
 
         Ok(())
diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index ccf837f..2c2c65b 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -87,7 +87,10 @@ where
                         crate::int::decode_usize::<_, _, OPT>(self.cx, self.reader.borrow_mut())?
                     };
 
-                    remaining += len;
+                    remaining = match len.checked_add(remaining) {
+                        Some(remaining) => remaining,
+                        None => return Err(self.cx.message("Sequence length overflow")),
+                    };
                 }
                 Kind::Continuation => {
                     if tag.data().is_none() {
-- 
2.43.0


From 73c1cd38bf123e50d5002f924c0d7f93e16187fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:11 +0000
Subject: [PATCH 13/80] fix: reject wire maps with an odd number of elements

---
 crates/musli/src/wire/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/musli/src/wire/de.rs b/crates/musli/src/wire/de.rs
index 2c2c65b..c7debc5 100644
--- a/crates/musli/src/wire/de.rs
+++ b/crates/musli/src/wire/de.rs
@@ -131,6 +131,11 @@ where
         mut self,
     ) -> Result<RemainingWireDecoder<OPT, R, C, M>, C::Error> {
         let len = self.decode_sequence_len()?;
+
+        if len % 2 != 0 {
+            return Err(self.cx.message("Expected a sequence of pairs"));
+        }
+
         Ok(RemainingWireDecoder::new(self.cx, self.reader, len / 2))
     }
 
-- 
2.43.0


From 5b0b2b8fc602ec597ecda8f75ce72779ab077fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 14/80] fix: advance past a decoded alternative of an untagged
 enum

---
 crates/musli-macros/src/de.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index accf5df..809e418 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -330,14 +330,18 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
         let decode = decode_struct(cx, b, &v.st)?;
 
         decode_head.push(quote! {
-            if let #option::Some(#decoder_var) = #decoder_t::try_clone(&#decoder_var) {
-                #context_t::restore(#ctx_var, &#mark_var);
+            let #result_var: #option<#result<_, <#d_param as #decoder_t<#lt>>::Error>> = match #decoder_t::try_clone(&#decoder_var) {
+                #option::Some(#decoder_var) => #option::Some((|| #decode)()),
+                #option::None => #option::None,
+            };
 
-                let #result_var: #result<_, <#d_param as #decoder_t<#lt>>::Error> = (|| #decode)();
+            #context_t::restore(#ctx_var, &#mark_var);
 
-                if let #result::Ok(output) = #result_var {
-                    break 'output output;
-                }
+            if let #option::Some(#result::Ok(output)) = #result_var {
+                // Only the clone has been decoded, so advance the original
+                // decoder past the value.
+                #decoder_t::try_skip(#decoder_var)?;
+                break 'output output;
             }
         });
     }
@@ -351,6 +355,7 @@ fn decode_untagged_enum(cx: &Ctxt<'_>, b: &Build<'_>, en: &Enum<'_>) -> Result<T
             #(#decode_head)*
             #decode_last
 
+            #context_t::restore(#ctx_var, &#mark_var);
             return #result::Err(#messages::untagged_mismatch(#ctx_var, #type_name));
         };
 
-- 
2.43.0


From 6e84c747e2226be6fc127a6c146e7415c26f177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 15/80] fix: do not index past the end of JSON arrays

---
 crates/musli/src/json/de/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/de/mod.rs b/crates/musli/src/json/de/mod.rs
index ee8f6a6..4766b7b 100644
--- a/crates/musli/src/json/de/mod.rs
+++ b/crates/musli/src/json/de/mod.rs
@@ -281,8 +281,10 @@ where
             let mut index = 0;
 
             while let Some(item) = seq.try_decode_next()? {
-                if index <= N {
-                    bytes[index] = item.decode_u8()?;
+                if let Some(byte) = bytes.get_mut(index) {
+                    *byte = item.decode_u8()?;
+                } else {
+                    item.skip()?;
                 }
 
                 index += 1;
-- 
2.43.0


From 11817ce1db17dd4f9099a191b85f2fe55b25c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 16/80] fix: require digits after the exponent of a JSON number

---
 crates/musli/src/json/parser/integer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 7757f57..e476a43 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -247,7 +247,10 @@ where
 
     if p.peek() == Some(b'.') {
         p.skip(cx, 1)?;
-        p.consume_while(cx, is_digit)?;
+
+        if p.consume_while(cx, is_digit)? == 0 {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
     }
 
     if matches!(p.peek(), Some(b'e') | Some(b'E')) {
@@ -263,7 +266,9 @@ where
             _ => (),
         };
 
-        p.consume_while(cx, is_digit)?;
+        if p.consume_while(cx, is_digit)? == 0 {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
     }
 
     Ok(())
@@ -511,6 +516,10 @@ where
         _ => (),
     };
 
+    if !p.peek().is_some_and(is_digit) {
+        return Err(cx.message_at(start, IntegerError::InvalidNumeric));
+    }
+
     while let Some(true) = p.peek().map(is_digit) {
         e = digit(cx, e, p.borrow_mut(), start)?;
     }
-- 
2.43.0


From 80ad49a74f2a2594117258a31eb42e3ad1887039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 17/80] fix: require commas between JSON elements and refuse
 trailing ones

---
 crates/musli/src/json/de/object_decoder.rs   | 40 +++++++++++---------
 crates/musli/src/json/de/sequence_decoder.rs | 37 +++++++++---------
 2 files changed, 42 insertions(+), 35 deletions(-)

diff --git a/crates/musli/src/json/de/object_decoder.rs b/crates/musli/src/json/de/object_decoder.rs
index 869ff7a..d4e14e7 100644
--- a/crates/musli/src/json/de/object_decoder.rs
+++ b/crates/musli/src/json/de/object_decoder.rs
@@ -61,26 +61,30 @@ where
 
         let first = take(&mut self.first);
 
-        loop {
-            let token = self.parser.lex(self.cx);
-
-            match token {
-                Token::String => {
-                    return Ok(true);
-                }
-                Token::Comma if !first => {
-                    self.parser.skip(self.cx, 1)?;
-                }
-                Token::CloseBrace => {
-                    return Ok(false);
-                }
-                token => {
-                    return Err(self.cx.message(format_args!(
-                        "Expected value, or closing brace `}}` but found {token:?}"
-                    )));
-                }
+        let mut token = self.parser.lex(self.cx);
+
+        if matches!(token, Token::CloseBrace) {
+            return Ok(false);
+        }
+
+        if !first {
+            if !matches!(token, Token::Comma) {
+                return Err(self.cx.message(format_args!(
+                    "Expected comma or closing brace `}}`, but found {token}"
+                )));
             }
+
+            self.parser.skip(self.cx, 1)?;
+            token = self.parser.lex(self.cx);
+        }
+
+        if !matches!(token, Token::String) {
+            return Err(self.cx.message(format_args!(
+                "Expected value, or closing brace `}}` but found {token:?}"
+            )));
         }
+
+        Ok(true)
     }
 
     /// Parse end of object.
diff --git a/crates/musli/src/json/de/sequence_decoder.rs b/crates/musli/src/json/de/sequence_decoder.rs
index 8f82a6c..4b3187b 100644
--- a/crates/musli/src/json/de/sequence_decoder.rs
+++ b/crates/musli/src/json/de/sequence_decoder.rs
@@ -46,27 +46,30 @@ where
     fn parse_next_value(&mut self) -> Result<bool, C::Error> {
         let first = mem::take(&mut self.first);
 
-        loop {
-            let token = self.parser.lex(self.cx);
+        let mut token = self.parser.lex(self.cx);
 
-            if token.is_value() {
-                return Ok(true);
-            }
+        if matches!(token, Token::CloseBracket) {
+            return Ok(false);
+        }
 
-            match token {
-                Token::Comma if !first => {
-                    self.parser.skip(self.cx, 1)?;
-                }
-                Token::CloseBracket => {
-                    return Ok(false);
-                }
-                _ => {
-                    return Err(self.cx.message(format_args!(
-                        "Expected value or closing bracket `]`, but found {token}"
-                    )));
-                }
+        if !first {
+            if !matches!(token, Token::Comma) {
+                return Err(self.cx.message(format_args!(
+                    "Expected comma or closing bracket `]`, but found {token}"
+                )));
             }
+
+            self.parser.skip(self.cx, 1)?;
+            token = self.parser.lex(self.cx);
         }
+
+        if !token.is_value() {
+            return Err(self.cx.message(format_args!(
+                "Expected value or closing bracket `]`, but found {token}"
+            )));
+        }
+
+        Ok(true)
     }
 
     #[inline]
-- 
2.43.0


From 9f8aa87cdf221919c089c2ddc670c24a73d9d64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:09 +0000
Subject: [PATCH 18/80] fix: read JSON numbers into dynamic values exactly

---
 crates/musli/src/json/parser/integer.rs       | 289 +++++++-----------
 .../musli/src/json/parser/mut_slice_parser.rs |   5 +
 crates/musli/src/json/parser/parser.rs        | 103 ++++---
 crates/musli/src/json/parser/slice_parser.rs  |   5 +
 4 files changed, 170 insertions(+), 232 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index e476a43..66b665a 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -2,8 +2,7 @@ use crate::json::error::IntegerError;
 use crate::json::parser::Parser;
 use crate::Context;
 
-use self::traits::FromUnsigned;
-pub(crate) use self::traits::{Float, Signed, Unsigned};
+pub(crate) use self::traits::{Signed, Unsigned};
 
 /// Fully deconstructed parts of a signed number.
 #[non_exhaustive]
@@ -74,25 +73,6 @@ where
             None => Err(IntegerError::IntegerOverflow),
         }
     }
-
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T::Unsigned>,
-    {
-        let Self {
-            is_negative,
-            unsigned: parts,
-        } = self;
-        let value = parts.compute_float::<F>();
-
-        if is_negative {
-            value.negate()
-        } else {
-            value
-        }
-    }
 }
 
 /// The mantissa, or anything after a decimal point.
@@ -104,32 +84,6 @@ pub(crate) struct Mantissa<T> {
     exp: i32,
 }
 
-impl<T> Mantissa<T>
-where
-    T: Unsigned,
-{
-    fn into_float<F>(self) -> Mantissa<F>
-    where
-        F: FromUnsigned<T>,
-    {
-        Mantissa {
-            value: self.value.into_float::<F>(),
-            exp: self.exp,
-        }
-    }
-}
-
-impl<F> Mantissa<F>
-where
-    F: Float,
-{
-    /// Compute as float with a negative exponent.
-    #[inline]
-    fn compute_float(self, e: i32) -> F {
-        self.value.pow10(e - self.exp)
-    }
-}
-
 impl<T> Default for Mantissa<T>
 where
     T: Unsigned,
@@ -209,15 +163,111 @@ where
             Ok(check!(base.checked_neg_pow10(e.unsigned_abs()), Decimal))
         }
     }
+}
 
-    #[inline]
-    pub(crate) fn compute_float<F>(self) -> F
-    where
-        F: Float,
-        F: FromUnsigned<T>,
-    {
-        let Self { base, m, e } = self;
-        base.into_float::<F>().pow10(e) + m.into_float::<F>().compute_float(e)
+/// An integer of any size.
+#[derive(Clone, Copy)]
+pub(crate) enum AnyInteger {
+    /// A negative integer.
+    Signed(i128),
+    /// A non-negative integer.
+    Unsigned(u128),
+}
+
+impl AnyInteger {
+    /// Parse a number which denotes a whole number that can be represented as
+    /// an integer from the start of the given bytes, returning it and the
+    /// number of bytes it occupies.
+    ///
+    /// Any other number has to be treated as a float, this includes negative
+    /// zero which has no integer representation.
+    pub(crate) fn parse(bytes: &[u8]) -> Option<(Self, usize)> {
+        fn digits(bytes: &[u8]) -> (&[u8], &[u8]) {
+            let n = bytes.iter().take_while(|b| is_digit(**b)).count();
+            bytes.split_at(n)
+        }
+
+        let (is_negative, tail) = match bytes {
+            [b'-', tail @ ..] => (true, tail),
+            _ => (false, bytes),
+        };
+
+        let (whole, mut tail) = match tail {
+            [b'0', ..] => tail.split_at(1),
+            _ => digits(tail),
+        };
+
+        if whole.is_empty() {
+            return None;
+        }
+
+        let mut fraction = &b""[..];
+
+        if let [b'.', rest @ ..] = tail {
+            (fraction, tail) = digits(rest);
+
+            while let [rest @ .., b'0'] = fraction {
+                fraction = rest;
+            }
+        }
+
+        let mut exp = 0i64;
+
+        if let [b'e' | b'E', rest @ ..] = tail {
+            let (is_negative, rest) = match rest {
+                [b'-', rest @ ..] => (true, rest),
+                [b'+', rest @ ..] => (false, rest),
+                _ => (false, rest),
+            };
+
+            let value;
+            (value, tail) = digits(rest);
+
+            if value.is_empty() {
+                return None;
+            }
+
+            for b in value {
+                exp = exp.saturating_mul(10).saturating_add(i64::from(b - b'0'));
+            }
+
+            if is_negative {
+                exp = -exp;
+            }
+        }
+
+        let mut value = 0u128;
+
+        for b in whole.iter().chain(fraction) {
+            value = value.checked_mul(10)?.checked_add(u128::from(b - b'0'))?;
+        }
+
+        if value != 0 {
+            let exp = exp.checked_sub(i64::try_from(fraction.len()).ok()?)?;
+            let scale = 10u128.checked_pow(u32::try_from(exp.unsigned_abs()).ok()?)?;
+
+            if exp >= 0 {
+                value = value.checked_mul(scale)?;
+            } else {
+                if value % scale != 0 {
+                    return None;
+                }
+
+                value /= scale;
+            }
+        }
+
+        let value = if is_negative {
+            if value == 0 {
+                return None;
+            }
+
+            Self::Signed(0i128.checked_sub_unsigned(value)?)
+        } else {
+            Self::Unsigned(value)
+        };
+
+        Some((value, bytes.len() - tail.len()))
     }
 }
 
@@ -333,21 +383,6 @@ where
     })
 }
 
-/// Decode a full signed integer.
-pub(crate) fn decode_signed_full<'de, T, C, P>(
-    cx: C,
-    p: &mut P,
-) -> Result<SignedPartsFull<T>, C::Error>
-where
-    C: Context,
-    T: Signed,
-    P: ?Sized + Parser<'de>,
-{
-    p.skip_whitespace(cx);
-
-    decode_signed_full_inner(cx, p)
-}
-
 /// Decode a full signed integer.
 #[inline]
 fn decode_signed_full_inner<'de, T, C, P>(cx: C, mut p: P) -> Result<SignedPartsFull<T>, C::Error>
@@ -605,26 +640,12 @@ mod traits {
         fn negate(self) -> Option<Self::Signed>;
 
         fn signed(self) -> Option<Self::Signed>;
-
-        fn into_float<F>(self) -> F
-        where
-            F: FromUnsigned<Self>;
     }
 
     pub(crate) trait Signed: Sized + fmt::Debug {
         type Unsigned: Unsigned<Signed = Self>;
     }
 
-    pub(crate) trait FromUnsigned<T> {
-        fn from_unsigned(value: T) -> Self;
-    }
-
-    pub(crate) trait Float: Sized + Add<Self, Output = Self> {
-        fn negate(self) -> Self;
-
-        fn pow10(self, e: i32) -> Self;
-    }
-
     macro_rules! count {
         (()) => { 0 };
         ((_)) => { 1 };
@@ -741,11 +762,6 @@ mod traits {
                         Some(self as $signed)
                     }
                 }
-
-                #[inline]
-                fn into_float<F>(self) -> F where F: FromUnsigned<Self> {
-                    F::from_unsigned(self)
-                }
             }
 
             impl Signed for $signed {
@@ -864,99 +880,4 @@ mod traits {
             10000000000000000000,
         ]
     );
-
-    macro_rules! float {
-        ($float:ty, $fallback:path) => {
-            impl Float for $float {
-                #[inline]
-                fn negate(self) -> Self {
-                    -self
-                }
-
-                #[inline]
-                #[cfg(feature = "std")]
-                fn pow10(self, e: i32) -> Self {
-                    self * <$float>::powi(10.0, e)
-                }
-
-                #[inline]
-                #[cfg(not(feature = "std"))]
-                fn pow10(self, e: i32) -> Self {
-                    self * $fallback(10.0, e)
-                }
-            }
-
-            impl FromUnsigned<u8> for $float {
-                fn from_unsigned(value: u8) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u16> for $float {
-                fn from_unsigned(value: u16) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u32> for $float {
-                fn from_unsigned(value: u32) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u64> for $float {
-                fn from_unsigned(value: u64) -> Self {
-                    value as $float
-                }
-            }
-
-            impl FromUnsigned<u128> for $float {
-                fn from_unsigned(value: u128) -> Self {
-                    value as $float
-                }
-            }
-        };
-    }
-
-    float!(f32, self::no_std::powf32);
-    float!(f64, self::no_std::powf64);
-
-    #[cfg(not(feature = "std"))]
-    mod no_std {
-        macro_rules! powf {
-            ($ty:ty, $name:ident) => {
-                #[inline(never)]
-                pub(crate) fn $name(mut base: $ty, mut exp: i32) -> $ty {
-                    if exp == 0 {
-                        return 1.0;
-                    }
-
-                    while exp & 1 == 0 {
-                        base = base * base;
-                        exp >>= 1;
-                    }
-
-                    if exp == 1 {
-                        return base;
-                    }
-
-                    let mut acc = base;
-
-                    while exp > 1 {
-                        exp >>= 1;
-                        base = base * base;
-
-                        if exp & 1 == 1 {
-                            acc = acc * base;
-                        }
-                    }
-
-                    acc
-                }
-            };
-        }
-
-        powf!(f32, powf32);
-        powf!(f64, powf64);
-    }
 }
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 5732b96..1fe42e7 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -132,6 +132,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         self.slice.first().copied()
     }
 
+    #[inline]
+    fn remaining(&self) -> &[u8] {
+        self.slice
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 76e3104..7bfeeae 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::de::Visitor;
-use crate::json::parser::integer::decode_signed_full;
+use crate::json::parser::integer::AnyInteger;
 use crate::json::parser::{StringReference, Token};
 use crate::Context;
 
@@ -123,6 +123,10 @@ pub trait Parser<'de>: private::Sealed {
     #[doc(hidden)]
     fn peek(&mut self) -> Option<u8>;
 
+    /// Get all the bytes which have yet to be parsed.
+    #[doc(hidden)]
+    fn remaining(&self) -> &[u8];
+
     #[doc(hidden)]
     fn lex<C>(&mut self, cx: C) -> Token
     where
@@ -176,68 +180,66 @@ pub trait Parser<'de>: private::Sealed {
         C: Context,
         V: Visitor<'de, C, Error = C::Error, Allocator = C::Allocator>,
     {
-        let signed = decode_signed_full::<i128, _, _>(cx, self)?;
-
-        if signed.is_negative {
-            let value = match signed.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.compute_float();
-                    return visitor.visit_f64(cx, value);
-                }
-            };
+        self.skip_whitespace(cx);
 
-            if value >= i8::MIN as i128 && value <= i8::MAX as i128 {
-                return visitor.visit_i8(cx, value as i8);
+        let integer = match AnyInteger::parse(self.remaining()) {
+            Some((integer, n)) => {
+                self.skip(cx, n)?;
+                integer
             }
-
-            if value >= i16::MIN as i128 && value <= i16::MAX as i128 {
-                return visitor.visit_i16(cx, value as i16);
+            None => {
+                let value = self.parse_f64(cx)?;
+                return visitor.visit_f64(cx, value);
             }
+        };
 
-            if value >= i32::MIN as i128 && value <= i32::MAX as i128 {
-                return visitor.visit_i32(cx, value as i32);
-            }
+        match integer {
+            AnyInteger::Signed(value) => {
+                if value >= i8::MIN as i128 && value <= i8::MAX as i128 {
+                    return visitor.visit_i8(cx, value as i8);
+                }
 
-            if value >= i64::MIN as i128 && value <= i64::MAX as i128 {
-                return visitor.visit_i64(cx, value as i64);
-            }
+                if value >= i16::MIN as i128 && value <= i16::MAX as i128 {
+                    return visitor.visit_i16(cx, value as i16);
+                }
 
-            if value >= isize::MIN as i128 && value <= isize::MAX as i128 {
-                return visitor.visit_isize(cx, value as isize);
-            }
+                if value >= i32::MIN as i128 && value <= i32::MAX as i128 {
+                    return visitor.visit_i32(cx, value as i32);
+                }
 
-            visitor.visit_i128(cx, value)
-        } else {
-            let value = match signed.unsigned.compute() {
-                Ok(value) => value,
-                Err(..) => {
-                    let value = signed.unsigned.compute_float();
-                    return visitor.visit_f64(cx, value);
+                if value >= i64::MIN as i128 && value <= i64::MAX as i128 {
+                    return visitor.visit_i64(cx, value as i64);
                 }
-            };
 
-            if value <= u8::MAX as u128 {
-                return visitor.visit_u8(cx, value as u8);
-            }
+                if value >= isize::MIN as i128 && value <= isize::MAX as i128 {
+                    return visitor.visit_isize(cx, value as isize);
+                }
 
-            if value <= u16::MAX as u128 {
-                return visitor.visit_u16(cx, value as u16);
+                visitor.visit_i128(cx, value)
             }
+            AnyInteger::Unsigned(value) => {
+                if value <= u8::MAX as u128 {
+                    return visitor.visit_u8(cx, value as u8);
+                }
 
-            if value <= u32::MAX as u128 {
-                return visitor.visit_u32(cx, value as u32);
-            }
+                if value <= u16::MAX as u128 {
+                    return visitor.visit_u16(cx, value as u16);
+                }
 
-            if value <= u64::MAX as u128 {
-                return visitor.visit_u64(cx, value as u64);
-            }
+                if value <= u32::MAX as u128 {
+                    return visitor.visit_u32(cx, value as u32);
+                }
 
-            if value <= usize::MAX as u128 {
-                return visitor.visit_usize(cx, value as usize);
-            }
+                if value <= u64::MAX as u128 {
+                    return visitor.visit_u64(cx, value as u64);
+                }
 
-            visitor.visit_u128(cx, value)
+                if value <= usize::MAX as u128 {
+                    return visitor.visit_usize(cx, value as usize);
+                }
+
+                visitor.visit_u128(cx, value)
+            }
         }
     }
 }
@@ -298,6 +300,11 @@ where
         (**self).peek()
     }
 
+    #[inline]
+    fn remaining(&self) -> &[u8] {
+        (**self).remaining()
+    }
+
     #[inline]
     fn lex<C>(&mut self, cx: C) -> Token
     where
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 36d7afd..7a54b0f 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -124,6 +124,11 @@ impl<'de> Parser<'de> for SliceParser<'de> {
         self.slice.get(self.index).copied()
     }
 
+    #[inline]
+    fn remaining(&self) -> &[u8] {
+        self.slice.get(self.index..).unwrap_or_default()
+    }
+
     fn parse_f32<C>(&mut self, cx: C) -> Result<f32, C::Error>
     where
         C: Context,
-- 
2.43.0


From 5497659d96dd2e79173003c5232d00711318c18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 19/80] fix: decode dynamic values from formats which do not
 mark their types

---
 crates/musli/src/value/de.rs    | 63 +++++++++++++++++++++++++++++----
 crates/musli/src/value/error.rs |  4 ---
 2 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 56db3e9..bab651f 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -4,7 +4,7 @@ use core::fmt;
 use core::marker::PhantomData;
 use core::slice;
 
-use crate::alloc::Allocator;
+use crate::alloc::{Allocator, Vec};
 use crate::de::UnsizedVisitor;
 use crate::de::{
     AsDecoder, Decoder, EntriesDecoder, EntryDecoder, MapDecoder, SequenceDecoder, SizeHint, Skip,
@@ -156,6 +156,15 @@ where
 
     #[inline]
     fn decode_char(self) -> Result<char, Self::Error> {
+        // Formats like JSON represent a character as a string.
+        if let Value::String(string) = self.value {
+            let mut it = string.chars();
+
+            if let (Some(c), None) = (it.next(), it.next()) {
+                return Ok(c);
+            }
+        }
+
         ensure!(self, hint, ExpectedChar(hint), Value::Char(c) => Ok(*c))
     }
 
@@ -211,12 +220,12 @@ where
 
     #[inline]
     fn decode_f32(self) -> Result<f32, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F32, hint), Value::Number(Number::F32(n)) => Ok(*n))
+        ensure_number!(self, OPT, F32, Value::Number(n) => f32)
     }
 
     #[inline]
     fn decode_f64(self) -> Result<f64, Self::Error> {
-        ensure!(self, hint, ExpectedNumber(NumberHint::F64, hint), Value::Number(Number::F64(n)) => Ok(*n))
+        ensure_number!(self, OPT, F64, Value::Number(n) => f64)
     }
 
     #[inline]
@@ -231,6 +240,21 @@ where
 
     #[inline]
     fn decode_array<const N: usize>(self) -> Result<[u8; N], Self::Error> {
+        // Formats like JSON represent bytes as a sequence of numbers.
+        if let Value::Sequence(values) = self.value {
+            if values.len() != N {
+                return Err(self.cx.message(ErrorMessage::ArrayOutOfBounds));
+            }
+
+            let mut array = [0; N];
+
+            for (byte, value) in array.iter_mut().zip(values.iter()) {
+                *byte = Self::new(self.cx, value).decode_u8()?;
+            }
+
+            return Ok(array);
+        }
+
         ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
             <[u8; N]>::try_from(bytes.as_slice()).map_err(|_| self.cx.message(ErrorMessage::ArrayOutOfBounds))
         })
@@ -241,6 +265,19 @@ where
     where
         V: UnsizedVisitor<'de, C, [u8], Error = Self::Error, Allocator = Self::Allocator>,
     {
+        // Formats like JSON represent bytes as a sequence of numbers.
+        if let Value::Sequence(values) = self.value {
+            let cx = self.cx;
+            let mut bytes = Vec::with_capacity_in(values.len(), cx.alloc()).map_err(cx.map())?;
+
+            for value in values.iter() {
+                let byte = Self::new(cx, value).decode_u8()?;
+                bytes.push(byte).map_err(cx.map())?;
+            }
+
+            return visitor.visit_owned(cx, bytes);
+        }
+
         ensure!(self, hint, ExpectedBytes(hint), Value::Bytes(bytes) => {
             visitor.visit_borrowed(self.cx, bytes)
         })
@@ -258,9 +295,14 @@ where
 
     #[inline]
     fn decode_option(self) -> Result<Option<Self::DecodeSome>, Self::Error> {
-        ensure!(self, hint, ExpectedOption(hint), Value::Option(option) => {
-            Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
-        })
+        match self.value {
+            Value::Option(option) => {
+                Ok(option.as_ref().map(|some| ValueDecoder::new(self.cx, some)))
+            }
+            // Formats like JSON represent options as either null or the value.
+            Value::Unit => Ok(None),
+            _ => Ok(Some(self)),
+        }
     }
 
     #[inline]
@@ -316,6 +358,13 @@ where
     where
         F: FnOnce(&mut Self::DecodeVariant) -> Result<O, Self::Error>,
     {
+        // Formats like JSON represent a variant as a map with a single entry.
+        if let Value::Map(st) = self.value {
+            if let [st] = st.as_slice() {
+                return f(&mut IterValueVariantDecoder::new(self.cx, st));
+            }
+        }
+
         ensure!(self, hint, ExpectedVariant(hint), Value::Variant(st) => {
             f(&mut IterValueVariantDecoder::new(self.cx, st))
         })
@@ -702,7 +751,7 @@ where
 
     #[inline]
     fn decode_tag(&mut self) -> Result<Self::DecodeTag<'_>, Self::Error> {
-        Ok(ValueDecoder::new(self.cx, &self.pair.0))
+        Ok(ValueDecoder::with_map_key(self.cx, &self.pair.0))
     }
 
     #[inline]
diff --git a/crates/musli/src/value/error.rs b/crates/musli/src/value/error.rs
index 1b58042..d3ea7cc 100644
--- a/crates/musli/src/value/error.rs
+++ b/crates/musli/src/value/error.rs
@@ -22,7 +22,6 @@ pub(crate) enum ErrorMessage {
     ExpectedBytes(TypeHint),
     ExpectedString(TypeHint),
     ExpectedStringAsNumber,
-    ExpectedOption(TypeHint),
     ExpectedSequence(TypeHint),
     ExpectedPack(TypeHint),
     ExpectedMap(TypeHint),
@@ -61,9 +60,6 @@ impl fmt::Display for ErrorMessage {
             ErrorMessage::ExpectedStringAsNumber => {
                 write!(f, "Value buffer expected string containing number")
             }
-            ErrorMessage::ExpectedOption(hint) => {
-                write!(f, "Value buffer expected option, but found {hint}")
-            }
             ErrorMessage::ExpectedSequence(hint) => {
                 write!(f, "Value buffer expected sequence, but found {hint}")
             }
-- 
2.43.0


From 3203dd1029a8057afc66fe7302c354f7b9b9d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 20/80] fix: do not trust length hints when reading into
 dynamic values

---
 crates/musli/src/value/value.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/value/value.rs b/crates/musli/src/value/value.rs
index f13a642..e2b3a2e 100644
--- a/crates/musli/src/value/value.rs
+++ b/crates/musli/src/value/value.rs
@@ -13,6 +13,17 @@ use crate::en::{Encode, Encoder};
 use crate::en::{MapEncoder, SequenceEncoder, VariantEncoder};
 use crate::{Allocator, Context, Options};
 
+/// The number of elements to allocate space for up front, without trusting a
+/// size hint which comes from the input.
+///
+/// Values nest, so this applies once to every level of the input.
+#[inline]
+fn cautious<T>(hint: SizeHint) -> usize {
+    const MAX_PREALLOC_BYTES: usize = 4096;
+
+    hint.or_default().min(MAX_PREALLOC_BYTES / size_of::<T>())
+}
+
 use super::de::ValueDecoder;
 use super::type_hint::{NumberHint, TypeHint};
 
@@ -399,7 +410,8 @@ where
         let cx = seq.cx();
 
         let mut out =
-            Vec::with_capacity_in(seq.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+            Vec::with_capacity_in(cautious::<Value<C::Allocator>>(seq.size_hint()), cx.alloc())
+                .map_err(cx.map())?;
 
         while let Some(item) = seq.try_next()? {
             out.push(item).map_err(cx.map())?;
@@ -415,8 +427,11 @@ where
     {
         let cx = map.cx();
 
-        let mut out =
-            Vec::with_capacity_in(map.size_hint().or_default(), cx.alloc()).map_err(cx.map())?;
+        let mut out = Vec::with_capacity_in(
+            cautious::<(Value<C::Allocator>, Value<C::Allocator>)>(map.size_hint()),
+            cx.alloc(),
+        )
+        .map_err(cx.map())?;
 
         while let Some(mut entry) = map.decode_entry()? {
             let first = entry.decode_key()?.decode()?;
-- 
2.43.0


From 9a0068a174e9e96e4498ad9eae3c83d9dfa721ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 21/80] fix: swap the bytes of usize-sized references

---
 crates/musli-zerocopy/src/pointer/size.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/pointer/size.rs b/crates/musli-zerocopy/src/pointer/size.rs
index 4e78928..dca25d9 100644
--- a/crates/musli-zerocopy/src/pointer/size.rs
+++ b/crates/musli-zerocopy/src/pointer/size.rs
@@ -152,4 +152,4 @@ impl_size!(u16, E::swap_u16);
 impl_size!(u32, E::swap_u32);
 #[cfg(target_pointer_width = "64")]
 impl_size!(u64, E::swap_u64);
-impl_size!(usize, core::convert::identity);
+impl_size!(usize, E::swap_usize);
-- 
2.43.0


From 6a727cb6006cf71271ef0ab66f05d5c78974d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:26 +0000
Subject: [PATCH 22/80] fix: count the entries of a swiss table from its
 capacity

---
 crates/musli-zerocopy/src/swiss/constructor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy/src/swiss/constructor.rs b/crates/musli-zerocopy/src/swiss/constructor.rs
index 5a204c0..03ef9f4 100644
--- a/crates/musli-zerocopy/src/swiss/constructor.rs
+++ b/crates/musli-zerocopy/src/swiss/constructor.rs
@@ -84,7 +84,7 @@ where
 
     /// Get the length of the table.
     pub(crate) fn len(&self) -> usize {
-        self.bucket_mask - self.growth_left
+        bucket_mask_to_capacity(self.bucket_mask) - self.growth_left
     }
 
     /// Returns the number of buckets in the table.
-- 
2.43.0


From f9f48ac70d2221ff6c58516d51f3a7895c211569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:06 +0000
Subject: [PATCH 23/80] fix: validate entries of bound swiss tables as they are
 accessed

---
 crates/musli-zerocopy/src/swiss/map.rs | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index cdc0b29..a3ab871 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -15,6 +15,7 @@
 use core::borrow::Borrow;
 use core::convert::identity as likely;
 use core::hash::{Hash, Hasher};
+use core::marker::PhantomData;
 use core::mem::size_of;
 
 use crate::buf::{Bindable, Buf, Visit};
@@ -408,12 +409,20 @@ where
 
 pub(crate) struct RawTable<'a, T> {
     ctrl: &'a [u8],
-    entries: &'a [T],
+    // Buckets which are empty do not necessarily contain a valid `T`, so entries
+    // are validated as they are accessed.
+    entries_offset: usize,
+    entries_len: usize,
     bucket_mask: usize,
     len: usize,
+    buf: &'a Buf,
+    _marker: PhantomData<&'a [T]>,
 }
 
-impl<'a, T> RawTable<'a, T> {
+impl<'a, T> RawTable<'a, T>
+where
+    T: ZeroCopy,
+{
     /// Searches for an element in the table.
     #[inline]
     pub(crate) fn find(
@@ -433,14 +442,17 @@ impl<'a, T> RawTable<'a, T> {
     }
 
     fn entry(&self, index: usize) -> Result<&'a T, Error> {
-        let Some(entry) = self.entries.get(index) else {
+        let entries =
+            Ref::<[T], Native, usize>::with_metadata(self.entries_offset, self.entries_len);
+
+        let Some(entry) = entries.get(index) else {
             return Err(Error::new(ErrorKind::IndexOutOfBounds {
                 index,
-                len: self.entries.len(),
+                len: self.entries_len,
             }));
         };
 
-        Ok(entry)
+        self.buf.load(entry)
     }
 
     /// Searches for an element in a table, returning the `index` of the found
@@ -528,9 +540,12 @@ where
     pub(crate) fn bind<'buf>(&self, buf: &'buf Buf) -> Result<RawTable<'buf, T>, Error> {
         Ok(RawTable {
             ctrl: buf.load(self.ctrl)?,
-            entries: buf.load(self.entries)?,
+            entries_offset: self.entries.offset(),
+            entries_len: self.entries.len(),
             bucket_mask: self.bucket_mask.to_ne(),
             len: self.len.to_ne(),
+            buf,
+            _marker: PhantomData,
         })
     }
 
-- 
2.43.0


From d1f7acd55a2e9af4a1d9aad04c605bd08abcd5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 24/80] fix: build perfect hash maps and sets which can be
 looked up

---
 crates/musli-zerocopy/src/phf/factory.rs   | 18 +++++++++++-------
 crates/musli-zerocopy/src/phf/generator.rs | 14 ++++++++++----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index b8c4977..9e553e2 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -1,6 +1,7 @@
 #![allow(clippy::type_complexity)]
 
 use core::hash::Hash;
+use core::mem::replace;
 
 use crate::buf::{StoreBuf, Visit};
 use crate::error::Error;
@@ -177,17 +178,20 @@ where
         )?
     };
 
-    for (from, a) in map.iter().enumerate() {
+    // Each slot of `map` contains the index of the entry which belongs there, so
+    // follow every cycle and move the entries into place.
+    for start in 0..entries.len() {
+        let mut to = start;
+
         loop {
-            let to = *buf.as_mut_buf().load(a)?;
+            let from = replace(buf.as_mut_buf().load_mut(map.at(to))?, to);
 
-            if from != to {
-                buf.swap(entries.at(from), entries.at(to))?;
-                buf.swap(map.at(from), map.at(to))?;
-                continue;
+            if from == start {
+                break;
             }
 
-            break;
+            buf.swap(entries.at(to), entries.at(from))?;
+            to = from;
         }
     }
 
diff --git a/crates/musli-zerocopy/src/phf/generator.rs b/crates/musli-zerocopy/src/phf/generator.rs
index 26eee0c..e60f9eb 100644
--- a/crates/musli-zerocopy/src/phf/generator.rs
+++ b/crates/musli-zerocopy/src/phf/generator.rs
@@ -1,3 +1,4 @@
+use core::cmp::Reverse;
 use core::hash::Hash;
 
 use alloc::vec;
@@ -84,14 +85,17 @@ where
         hashes.push(h);
     }
 
-    let mut buckets = vec![Vec::<usize>::new(); displacements.len()];
+    let mut buckets = (0..displacements.len())
+        .map(|n| (n, Vec::<usize>::new()))
+        .collect::<Vec<_>>();
 
     for (index, hash) in hashes.iter().enumerate() {
         let to = hash.g % buckets.len();
-        buckets[to].push(index);
+        buckets[to].1.push(index);
     }
 
-    buckets.sort_by_key(|a| a.len());
+    // Place the largest buckets first, since they are the hardest to place.
+    buckets.sort_by_key(|(_, keys)| Reverse(keys.len()));
 
     let table_len = hashes.len();
     // let mut map = vec![usize::MAX; table_len];
@@ -111,7 +115,9 @@ where
     // chosen the right displacements.
     let mut values_to_add = vec![];
 
-    'outer: for (bucket, d_ref) in buckets.iter().zip(displacements.iter()) {
+    'outer: for (n, bucket) in &buckets {
+        let d_ref = displacements.at(*n);
+
         for d1 in 0..(table_len as u32) {
             'inner: for d2 in 0..(table_len as u32) {
                 values_to_add.clear();
-- 
2.43.0


From 7ac79dc79140610bde69bf11d803a8aa5ac634f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 25/80] fix: fix: zerocopy trie splits, lookups and prefix
 searches which share a partial prefix

---
 crates/musli-zerocopy/src/trie/factory.rs | 42 +++++++++++++----------
 crates/musli-zerocopy/src/trie/mod.rs     |  9 +++--
 crates/musli-zerocopy/src/trie/walk.rs    | 25 +++++++++-----
 3 files changed, 47 insertions(+), 29 deletions(-)

diff --git a/crates/musli-zerocopy/src/trie/factory.rs b/crates/musli-zerocopy/src/trie/factory.rs
index d27a265..f03ef01 100644
--- a/crates/musli-zerocopy/src/trie/factory.rs
+++ b/crates/musli-zerocopy/src/trie/factory.rs
@@ -165,24 +165,25 @@ where
                     this.children[n].links.values.push(value);
                     return Ok(());
                 }
-                BinarySearch::Missing(0) => {
-                    this.children.insert(
-                        0,
-                        Node {
-                            string: Ref::try_with_metadata(string.offset(), string.len())?,
-                            links: Links::new(value),
-                        },
-                    );
-                    return Ok(());
-                }
                 BinarySearch::Missing(n) => {
-                    let pre = n - 1;
-
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(this.children[pre].string)?, current);
+                    // Find a neighbor which shares a prefix with the current
+                    // string. The prior child might be a prefix of it, and
+                    // the next child might have it as a prefix. Since siblings
+                    // never share a prefix, at most one of them can match.
+                    let mut found = None;
+
+                    for index in n.saturating_sub(1)..this.children.len().min(n + 1) {
+                        let prefix = prefix(buf.load(this.children[index].string)?, current);
+
+                        if prefix != 0 {
+                            found = Some((index, prefix));
+                            break;
+                        }
+                    }
 
-                    // No common prefix in prior node, so a new node is needed.
-                    if prefix == 0 {
+                    // No common prefix in neighboring nodes, so a new node is
+                    // needed.
+                    let Some((index, prefix)) = found else {
                         this.children.insert(
                             n,
                             Node {
@@ -191,9 +192,9 @@ where
                             },
                         );
                         return Ok(());
-                    }
+                    };
 
-                    let child = &mut this.children[pre];
+                    let child = &mut this.children[index];
 
                     // This happens if `current` contains a shorter subset match
                     // than the string represented by `child`, like `work` and
@@ -217,6 +218,11 @@ where
                     current = &current[prefix..];
                     string = string.split_at(prefix).1;
                     this = &mut child.links;
+
+                    if current.is_empty() {
+                        this.values.push(value);
+                        return Ok(());
+                    }
                 }
             }
         }
diff --git a/crates/musli-zerocopy/src/trie/mod.rs b/crates/musli-zerocopy/src/trie/mod.rs
index 16f4953..6c91c06 100644
--- a/crates/musli-zerocopy/src/trie/mod.rs
+++ b/crates/musli-zerocopy/src/trie/mod.rs
@@ -252,10 +252,13 @@ where
                     let child = this.children.get_unchecked(n - 1);
                     let child = buf.load(child)?;
 
-                    // Find common prefix and split nodes if necessary.
-                    let prefix = prefix(buf.load(child.string)?, string);
+                    let child_string = buf.load(child.string)?;
 
-                    if prefix == 0 {
+                    // The string can only be found below `child` if all of the
+                    // child's own string is a prefix of it.
+                    let prefix = prefix(child_string, string);
+
+                    if prefix == 0 || prefix != child_string.len() {
                         return Ok(None);
                     }
 
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index 2169bba..cae6edc 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -82,21 +82,30 @@ where
                                 for n in iter {
                                     let child = self.buf.load(this.children.get_unchecked(n))?;
 
-                                    // Find common prefix and split nodes if necessary.
-                                    let prefix = prefix(self.buf.load(child.string)?, string);
+                                    let child_string = self.buf.load(child.string)?;
+                                    let prefix = prefix(child_string, string);
 
                                     if prefix == 0 {
                                         continue;
                                     }
 
-                                    if prefix != string.len() {
-                                        len += prefix;
-                                        string = &string[prefix..];
-                                        this = child.links;
-                                        continue 'node;
+                                    // All of the string we are looking for is
+                                    // a prefix of `child`.
+                                    if prefix == string.len() {
+                                        break 'node child;
                                     }
 
-                                    break 'node child;
+                                    // We can only look for the rest of the
+                                    // string below `child` if all of its own
+                                    // string matches.
+                                    if prefix != child_string.len() {
+                                        continue;
+                                    }
+
+                                    len += prefix;
+                                    string = &string[prefix..];
+                                    this = child.links;
+                                    continue 'node;
                                 }
 
                                 // Falling through here indicates that we have
-- 
2.43.0


From c93eb717a2510f3649ee03de4f9325bfc388bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 26/80] fix: the capacity of a slice allocation is a number of
 elements

---
 crates/musli/src/alloc/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 574b667..529d404 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -307,7 +307,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // cannot be used incorrectly.
         unsafe {
             let i = &mut *internal.get();
-            i.region(region_id).capacity()
+            i.region(region_id).capacity() / size_of::<T>()
         }
     }
 
-- 
2.43.0


From 040a1873a355efd7ef368b86bf64343cbc1d2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 27/80] fix: resizing a slice allocation to more than
 usize::MAX elements is an error

---
 crates/musli/src/alloc/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 529d404..d48ab9d 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -317,7 +317,11 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         //
         // This capacity is in units of `T`, and is only ever at risk of being
         // too small if the allocation has been grown.
-        if len + additional <= self.cap {
+        let Some(requested) = len.checked_add(additional) else {
+            return Err(AllocError);
+        };
+
+        if requested <= self.cap {
             return Ok(());
         }
 
@@ -339,11 +343,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
             return Err(AllocError);
         };
 
-        let Some(additional) = additional.checked_mul(size_of::<T>()) else {
-            return Err(AllocError);
-        };
-
-        let Some(requested) = len.checked_add(additional) else {
+        let Some(requested) = requested.checked_mul(size_of::<T>()) else {
             return Err(AllocError);
         };
 
-- 
2.43.0


From 64b3371fdda2475d20476112cc57908c7ed3a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 28/80] fix: reusing a header of the slice allocator keeps the
 rest of the free list

---
 crates/musli/src/alloc/slice.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index d48ab9d..968bc7d 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -638,6 +638,9 @@ impl Internal {
         if let Some(region) = self.free_head.take() {
             let mut region = self.region(region);
 
+            // Keep the rest of the free list, and unlink the region from it.
+            self.free_head = region.next.take();
+
             region.range.start = self.free.start;
             region.range.end = end;
 
-- 
2.43.0


From d7296f77cc9fbdc2bb399c26466bd03ab360bb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 29/80] fix: slice allocator headers do not overlap the memory
 being allocated

---
 crates/musli/src/alloc/slice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 968bc7d..7270a05 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -655,7 +655,8 @@ impl Internal {
 
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
-        if ptr < self.free.start.cast() || ptr >= self.free.end.cast() {
+        // The header must fit after the memory of the region being allocated.
+        if ptr < end.cast() || ptr >= self.free.end.cast() {
             return None;
         }
 
-- 
2.43.0


From cb1173fcac4205a61f78746ddb9210839544f74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 30/80] fix: slice allocations are not merged with an empty
 neighbour in between

---
 crates/musli/src/alloc/slice.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index 7270a05..e2ca965 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -397,6 +397,7 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
         // NB: Placing this here to make miri happy, since accessing the
         // slice will mean mutably accessing the internal state.
         let other_ptr = buf.as_ptr().cast();
+        let other_cap = buf.capacity();
 
         unsafe {
             let i = &mut *internal.get();
@@ -416,12 +417,19 @@ impl<T> Alloc<T> for SliceAlloc<'_, T> {
                 return Err(buf);
             };
 
+            let next = i.region(next);
+
+            // Regions without any memory share their address with the region
+            // which follows them, so the next region might not be the one
+            // backing `buf`.
+            if next.capacity() == 0 || other_cap == 0 {
+                return Err(buf);
+            }
+
             // Prevent the other buffer from being dropped, since we're
             // taking care of the allocation in here directly instead.
             forget(buf);
 
-            let next = i.region(next);
-
             let to = this.range.start.wrapping_add(this_len);
 
             // Data needs to be shuffle back to the end of the initialized
-- 
2.43.0


From 74388ab15bed2c0258afb52278587b79a74776bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 31/80] fix: padding for alignment in the slice allocator is
 reused once it is no longer needed

---
 crates/musli/src/alloc/slice.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index e2ca965..eb882d5 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -739,6 +739,13 @@ impl Internal {
             let mut region = self.alloc_header(aligned_start)?;
 
             self.push_back(&mut region);
+
+            debug_assert!(
+                self.occupied.is_none(),
+                "There can only be one occupied region"
+            );
+
+            self.occupied = Some(region.id);
         }
 
         self.free.start = aligned_start;
-- 
2.43.0


From 3f735ad58c173be3872d6abb11deba49230fb4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 32/80] fix: allocating from a slice too small to hold an
 aligned header is an error

---
 crates/musli/src/alloc/slice.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index eb882d5..aa4c75f 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -655,12 +655,6 @@ impl Internal {
             return Some(region);
         }
 
-        debug_assert_eq!(
-            self.free.end.align_offset(align_of::<Header>()),
-            0,
-            "End pointer should be aligned to header"
-        );
-
         let ptr = self.free.end.cast::<Header>().wrapping_sub(1);
 
         // The header must fit after the memory of the region being allocated.
@@ -668,6 +662,12 @@ impl Internal {
             return None;
         }
 
+        debug_assert_eq!(
+            self.free.end.align_offset(align_of::<Header>()),
+            0,
+            "End pointer should be aligned to header"
+        );
+
         let id = HeaderId::new(self.full.end.cast::<Header>().offset_from(ptr))?;
 
         ptr.write(Header {
-- 
2.43.0


From 320e24103d9a39117e25cca25cd61c297ed71354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:46 +0000
Subject: [PATCH 33/80] fix: requests for nothing succeed without an allocator

---
 crates/musli-core/src/alloc/disabled.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/musli-core/src/alloc/disabled.rs b/crates/musli-core/src/alloc/disabled.rs
index b808c96..a9bffc3 100644
--- a/crates/musli-core/src/alloc/disabled.rs
+++ b/crates/musli-core/src/alloc/disabled.rs
@@ -29,8 +29,12 @@ impl<T> Alloc<T> for EmptyBuf<T> {
     }
 
     #[inline]
-    fn resize(&mut self, _: usize, _: usize) -> Result<(), AllocError> {
-        Err(AllocError)
+    fn resize(&mut self, len: usize, additional: usize) -> Result<(), AllocError> {
+        match len.checked_add(additional) {
+            // Nothing needs to be allocated.
+            Some(requested) if requested <= self.capacity() => Ok(()),
+            _ => Err(AllocError),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 8c064b7fad8c5c3c3a2c0c40f2d4768b76bff428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 34/80] fix: Vec::push must not drop elements without a size

---
 crates/musli-core/src/alloc/vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 7cfad91..43f4763 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt;
-use core::mem::ManuallyDrop;
+use core::mem::{self, ManuallyDrop};
 use core::ops::{Deref, DerefMut};
 use core::ptr;
 use core::slice;
@@ -249,6 +249,9 @@ where
             unsafe {
                 self.buf.as_mut_ptr().add(self.len).write(item);
             }
+        } else {
+            // The vector is now responsible for dropping the item.
+            mem::forget(item);
         }
 
         self.len += 1;
-- 
2.43.0


From 24d2a0cc0c3e6798822e09bf372d3b9b47e9692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 35/80] fix: Vec::clear must not drop elements twice when a
 destructor panics

---
 crates/musli-core/src/alloc/vec.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/musli-core/src/alloc/vec.rs b/crates/musli-core/src/alloc/vec.rs
index 43f4763..2a1d15a 100644
--- a/crates/musli-core/src/alloc/vec.rs
+++ b/crates/musli-core/src/alloc/vec.rs
@@ -314,9 +314,12 @@ where
     /// ```
     #[inline]
     pub fn clear(&mut self) {
-        // SAFETY: We know that the buffer is initialized up to `len`.
-        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), self.len)) }
-        self.len = 0;
+        // The length is reset first, so that no element can be dropped again if
+        // the destructor of one of them panics.
+        let len = mem::take(&mut self.len);
+
+        // SAFETY: We know that the buffer was initialized up to `len`.
+        unsafe { ptr::drop_in_place(slice::from_raw_parts_mut(self.buf.as_mut_ptr(), len)) }
     }
 
     /// Get the initialized part of the buffer as a slice.
-- 
2.43.0


From b5deef963901bd6cab99c67e3941dc3b5e541f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 36/80] fix: allocating a value without a size must not drop it

---
 crates/musli-core/src/alloc/system.rs | 10 +++++-----
 crates/musli/src/alloc/slice.rs       |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/musli-core/src/alloc/system.rs b/crates/musli-core/src/alloc/system.rs
index 7b34bbc..b8da1ce 100644
--- a/crates/musli-core/src/alloc/system.rs
+++ b/crates/musli-core/src/alloc/system.rs
@@ -72,11 +72,11 @@ unsafe impl Allocator for System {
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         let mut raw = SystemAlloc::<T>::alloc()?;
 
-        if size_of::<T>() != 0 {
-            // SAFETY: The above ensures the data has been allocated.
-            unsafe {
-                raw.as_mut_ptr().write(value);
-            }
+        // SAFETY: The above ensures the data has been allocated, or that the
+        // pointer is aligned if the value doesn't have a size. The allocation
+        // is now responsible for the value.
+        unsafe {
+            raw.as_mut_ptr().write(value);
         }
 
         Ok(raw)
diff --git a/crates/musli/src/alloc/slice.rs b/crates/musli/src/alloc/slice.rs
index aa4c75f..49715ae 100644
--- a/crates/musli/src/alloc/slice.rs
+++ b/crates/musli/src/alloc/slice.rs
@@ -182,6 +182,8 @@ unsafe impl<'a> Allocator for &'a Slice<'_> {
     #[inline]
     fn alloc<T>(self, value: T) -> Result<Self::Alloc<T>, AllocError> {
         if size_of::<T>() == 0 {
+            // The allocation is now responsible for the value.
+            forget(value);
             return Ok(SliceAlloc::ZST);
         }
 
-- 
2.43.0


From 605fdc90260af4c40881b27ac7ab69234c8bf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 37/80] fix: boxes may only cross threads when their allocation
 may

---
 crates/musli-core/src/alloc/boxed.rs | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/crates/musli-core/src/alloc/boxed.rs b/crates/musli-core/src/alloc/boxed.rs
index ae8c1f2..1464b7b 100644
--- a/crates/musli-core/src/alloc/boxed.rs
+++ b/crates/musli-core/src/alloc/boxed.rs
@@ -63,19 +63,6 @@ where
     }
 }
 
-unsafe impl<T, A> Send for Box<T, A>
-where
-    T: Send,
-    A: Allocator,
-{
-}
-unsafe impl<T, A> Sync for Box<T, A>
-where
-    T: Sync,
-    A: Allocator,
-{
-}
-
 impl<T, A> Deref for Box<T, A>
 where
     A: Allocator,
-- 
2.43.0


From 1abfa3a6e67fb4331f0d54157fde9e00aade5434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 38/80] fix: fixed bytes may be constructed with their full
 capacity

---
 crates/musli/src/fixed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli/src/fixed.rs b/crates/musli/src/fixed.rs
index 4c227c9..7af165b 100644
--- a/crates/musli/src/fixed.rs
+++ b/crates/musli/src/fixed.rs
@@ -36,7 +36,7 @@ impl<const N: usize> FixedBytes<N> {
     #[inline]
     pub fn with_capacity(capacity: usize) -> Self {
         assert!(
-            capacity < N,
+            capacity <= N,
             "Requested capacity {capacity} is larger than {N}"
         );
         Self::new()
-- 
2.43.0


From a4caa6676fb2d52d2fb5ba36d3f6f6d4271e60c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:45 +0000
Subject: [PATCH 39/80] fix: Only accept JSON numbers when decoding floats from
 JSON

---
 .../musli/src/json/parser/mut_slice_parser.rs | 21 +++++++++++++------
 crates/musli/src/json/parser/slice_parser.rs  | 17 +++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 1fe42e7..6ba507d 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -4,6 +4,7 @@ use crate::json::parser::{Parser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
+use super::integer::skip_number;
 use super::string::SliceAccess;
 
 /// An efficient [`Parser`] wrapper around a mutable slice.
@@ -141,12 +142,16 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
-        let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
+        self.skip_whitespace(cx);
+        let start = *self.slice;
+        skip_number(cx, self.borrow_mut())?;
+
+        let number = &start[..start.len() - self.slice.len()];
+
+        let Some((value, _)) = crate::dec2flt::dec2flt(number) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
 
-        *self.slice = &self.slice[read..];
-        cx.advance(read);
         Ok(value)
     }
 
@@ -154,12 +159,16 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         C: Context,
     {
-        let Some((value, read)) = crate::dec2flt::dec2flt(self.slice) else {
+        self.skip_whitespace(cx);
+        let start = *self.slice;
+        skip_number(cx, self.borrow_mut())?;
+
+        let number = &start[..start.len() - self.slice.len()];
+
+        let Some((value, _)) = crate::dec2flt::dec2flt(number) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
 
-        *self.slice = &self.slice[read..];
-        cx.advance(read);
         Ok(value)
     }
 }
diff --git a/crates/musli/src/json/parser/slice_parser.rs b/crates/musli/src/json/parser/slice_parser.rs
index 7a54b0f..f9e1fe7 100644
--- a/crates/musli/src/json/parser/slice_parser.rs
+++ b/crates/musli/src/json/parser/slice_parser.rs
@@ -4,6 +4,7 @@ use crate::json::parser::{Parser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
+use super::integer::skip_number;
 use super::string::SliceAccess;
 
 /// An efficient [`Parser`] wrapper around a slice.
@@ -133,12 +134,14 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
-        let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
+        self.skip_whitespace(cx);
+        let start = self.index;
+        skip_number(cx, self.borrow_mut())?;
+
+        let Some((value, _)) = crate::dec2flt::dec2flt(&self.slice[start..self.index]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
 
-        self.index += read;
-        cx.advance(read);
         Ok(value)
     }
 
@@ -146,12 +149,14 @@ impl<'de> Parser<'de> for SliceParser<'de> {
     where
         C: Context,
     {
-        let Some((value, read)) = crate::dec2flt::dec2flt(&self.slice[self.index..]) else {
+        self.skip_whitespace(cx);
+        let start = self.index;
+        skip_number(cx, self.borrow_mut())?;
+
+        let Some((value, _)) = crate::dec2flt::dec2flt(&self.slice[start..self.index]) else {
             return Err(cx.message(ErrorMessage::ParseFloat));
         };
 
-        self.index += read;
-        cx.advance(read);
         Ok(value)
     }
 }
-- 
2.43.0


From c5c9a3acbc56c6e20946cdb48b8b7520ac5deab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 40/80] fix: Refuse to encode non-finite floats as JSON

---
 crates/musli/src/json/en/mod.rs | 13 +++++++++++--
 crates/musli/src/json/error.rs  |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/json/en/mod.rs b/crates/musli/src/json/en/mod.rs
index 34d2aa3..36ae64d 100644
--- a/crates/musli/src/json/en/mod.rs
+++ b/crates/musli/src/json/en/mod.rs
@@ -18,6 +18,7 @@ use core::marker::PhantomData;
 
 use crate::en::{Encode, Encoder, SequenceEncoder};
 use crate::hint::{MapHint, SequenceHint};
+use crate::json::error::ErrorMessage;
 use crate::{Context, Writer};
 
 /// A JSON encoder for Müsli.
@@ -182,16 +183,24 @@ where
 
     #[inline]
     fn encode_f32(mut self, value: f32) -> Result<(), Self::Error> {
+        if !value.is_finite() {
+            return Err(self.cx.message(ErrorMessage::NonFiniteFloat));
+        }
+
         let mut buffer = ryu::Buffer::new();
         self.writer
-            .write_bytes(self.cx, buffer.format(value).as_bytes())
+            .write_bytes(self.cx, buffer.format_finite(value).as_bytes())
     }
 
     #[inline]
     fn encode_f64(mut self, value: f64) -> Result<(), Self::Error> {
+        if !value.is_finite() {
+            return Err(self.cx.message(ErrorMessage::NonFiniteFloat));
+        }
+
         let mut buffer = ryu::Buffer::new();
         self.writer
-            .write_bytes(self.cx, buffer.format(value).as_bytes())
+            .write_bytes(self.cx, buffer.format_finite(value).as_bytes())
     }
 
     #[inline]
diff --git a/crates/musli/src/json/error.rs b/crates/musli/src/json/error.rs
index d06a62e..87632cb 100644
--- a/crates/musli/src/json/error.rs
+++ b/crates/musli/src/json/error.rs
@@ -9,6 +9,7 @@ crate::macros::implement_error! {
 #[non_exhaustive]
 pub(crate) enum ErrorMessage {
     ParseFloat,
+    NonFiniteFloat,
 }
 
 impl fmt::Display for ErrorMessage {
@@ -17,6 +18,9 @@ impl fmt::Display for ErrorMessage {
             ErrorMessage::ParseFloat => {
                 write!(f, "Illegal float encountered")
             }
+            ErrorMessage::NonFiniteFloat => {
+                write!(f, "Non-finite float has no JSON representation")
+            }
         }
     }
 }
-- 
2.43.0


From a5f835af779ba8d14898b01ee5e784c3e36d04a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:13 +0000
Subject: [PATCH 41/80] fix: Refuse JSON keys which only start with a number

---
 crates/musli/src/json/de/key_signed_visitor.rs   | 13 +++++++++++--
 crates/musli/src/json/de/key_unsigned_visitor.rs | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index 446acf3..c3c13d9 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -2,8 +2,9 @@ use core::fmt;
 use core::marker;
 
 use crate::de::UnsizedVisitor;
+use crate::json::error::IntegerError;
 use crate::json::parser::integer::Signed;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_signed;
@@ -36,6 +37,14 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_signed(cx, &mut SliceParser::new(bytes))
+        let start = cx.mark();
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_signed(cx, &mut parser)?;
+
+        if !parser.remaining().is_empty() {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
+
+        Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index e50fc0e..062ad93 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -2,8 +2,9 @@ use core::fmt;
 use core::marker;
 
 use crate::de::UnsizedVisitor;
+use crate::json::error::IntegerError;
 use crate::json::parser::integer::Unsigned;
-use crate::json::parser::SliceParser;
+use crate::json::parser::{Parser, SliceParser};
 use crate::Context;
 
 use super::parse_unsigned;
@@ -35,6 +36,14 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        parse_unsigned(cx, &mut SliceParser::new(bytes))
+        let start = cx.mark();
+        let mut parser = SliceParser::new(bytes);
+        let value = parse_unsigned(cx, &mut parser)?;
+
+        if !parser.remaining().is_empty() {
+            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+        }
+
+        Ok(value)
     }
 }
-- 
2.43.0


From fcbc3f1d7189e9dbcd3dde45228bf3742ab9702c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 42/80] fix: keep a string slice valid UTF-8 when decoding JSON
 from it fails

---
 crates/musli/src/json/parser/integer.rs          | 10 ++++++++++
 crates/musli/src/json/parser/mut_slice_parser.rs | 12 ++++++++----
 crates/musli/src/json/parser/parser.rs           | 16 +++++++---------
 3 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/crates/musli/src/json/parser/integer.rs b/crates/musli/src/json/parser/integer.rs
index 66b665a..c4ccac5 100644
--- a/crates/musli/src/json/parser/integer.rs
+++ b/crates/musli/src/json/parser/integer.rs
@@ -285,6 +285,11 @@ where
         p.skip(cx, 1)?;
     }
 
+    // NB: must not consume a part of a multi-byte character.
+    if p.peek().is_some_and(|b| !b.is_ascii()) {
+        return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+    }
+
     match p.read_byte(cx)? {
         b'0' => (),
         b if is_digit_nonzero(b) => {
@@ -455,6 +460,11 @@ where
     P: Parser<'de>,
     C: Context,
 {
+    // NB: must not consume a part of a multi-byte character.
+    if p.peek().is_some_and(|b| !b.is_ascii()) {
+        return Err(cx.message_at(start, IntegerError::InvalidNumeric));
+    }
+
     let base = match p.read_byte(cx)? {
         b'0' => T::ZERO,
         b if is_digit_nonzero(b) => {
diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 6ba507d..416d40d 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -59,9 +59,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.parse_string(validate, start, scratch);
+        let out = access.parse_string(validate, start, scratch)?;
+        // NB: only update the slice on success, since in case of an error we
+        // might be inside of a multi-byte character.
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(out)
     }
 
     #[inline]
@@ -70,9 +72,11 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
         C: Context,
     {
         let mut access = SliceAccess::new(cx, self.slice, 0);
-        let out = access.skip_string();
+        access.skip_string()?;
+        // NB: only update the slice on success, since in case of an error we
+        // might be inside of a multi-byte character.
         *self.slice = &self.slice[access.index..];
-        out
+        Ok(())
     }
 
     #[inline]
diff --git a/crates/musli/src/json/parser/parser.rs b/crates/musli/src/json/parser/parser.rs
index 7bfeeae..502c992 100644
--- a/crates/musli/src/json/parser/parser.rs
+++ b/crates/musli/src/json/parser/parser.rs
@@ -160,16 +160,14 @@ pub trait Parser<'de>: private::Sealed {
 
         let mark = cx.mark();
 
-        let mut bytes = [0u8; 8];
-        let bytes = &mut bytes[..exact.len()];
-
-        self.read(cx, bytes)?;
-
-        if bytes != exact.as_bytes() {
-            return Err(cx.message_at(&mark, format_args!("Expected `{exact}`")));
+        // NB: only consume input once it's known to match, since it might end
+        // inside of a multi-byte character if it doesn't.
+        match self.remaining().get(..exact.len()) {
+            Some(bytes) if bytes != exact.as_bytes() => {
+                Err(cx.message_at(&mark, format_args!("Expected `{exact}`")))
+            }
+            _ => self.skip(cx, exact.len()),
         }
-
-        Ok(())
     }
 
     /// Parse an unknown number and try to coerce it into the best fit type
-- 
2.43.0


From 5ac88f0b45fc11fdd502f13e9843aa550f05f15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 43/80] fix: let the JSON mutable slice parser be cloned

---
 crates/musli/src/json/parser/mut_slice_parser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/json/parser/mut_slice_parser.rs b/crates/musli/src/json/parser/mut_slice_parser.rs
index 416d40d..a2897c4 100644
--- a/crates/musli/src/json/parser/mut_slice_parser.rs
+++ b/crates/musli/src/json/parser/mut_slice_parser.rs
@@ -1,6 +1,6 @@
 use crate::alloc::Vec;
 use crate::json::error::ErrorMessage;
-use crate::json::parser::{Parser, StringReference};
+use crate::json::parser::{Parser, SliceParser, StringReference};
 use crate::reader::SliceUnderflow;
 use crate::Context;
 
@@ -35,7 +35,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
     where
         Self: 'this;
 
-    type TryClone = MutSliceParser<'a, 'de>;
+    type TryClone = SliceParser<'de>;
 
     #[inline]
     fn borrow_mut(&mut self) -> Self::Mut<'_> {
@@ -44,7 +44,7 @@ impl<'a, 'de> Parser<'de> for MutSliceParser<'a, 'de> {
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        None
+        Some(SliceParser::new(self.slice))
     }
 
     #[inline]
-- 
2.43.0


From 4bebf6cf23fd08a175a42d1633a3517808afb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 44/80] fix: do not treat arrays as bitwise, since they are
 prefixed by their length

---
 crates/musli-core/src/impls/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 2c2554a..ae03693 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -213,8 +213,8 @@ impl<M, T, const N: usize> Encode<M> for [T; N]
 where
     T: Encode<M>,
 {
-    const IS_BITWISE_ENCODE: bool =
-        T::IS_BITWISE_ENCODE && core::mem::size_of::<T>() % core::mem::align_of::<T>() == 0;
+    // NB: an array is encoded as a sequence, which is prefixed by its length.
+    const IS_BITWISE_ENCODE: bool = false;
 
     type Encode = [T; N];
 
@@ -237,8 +237,8 @@ where
     T: Decode<'de, M, A>,
     A: Allocator,
 {
-    const IS_BITWISE_DECODE: bool =
-        T::IS_BITWISE_DECODE && core::mem::size_of::<T>() % core::mem::align_of::<T>() == 0;
+    // NB: an array is encoded as a sequence, which is prefixed by its length.
+    const IS_BITWISE_DECODE: bool = false;
 
     #[inline]
     fn decode<D>(decoder: D) -> Result<Self, D::Error>
-- 
2.43.0


From 8992dccfb7f910743c3425c707a7df29909d2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:30 +0000
Subject: [PATCH 45/80] fix: do not decode AtomicBool bitwise

---
 crates/musli-core/src/impls/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index ae03693..5807e9a 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -104,14 +104,14 @@ where
 }
 
 macro_rules! atomic_impl {
-    ($size:literal $(, $ty:ident)*) => {
+    ($size:literal $(, $ty:ident = $bitwise:literal)*) => {
         $(
             #[cfg(target_has_atomic = $size)]
             impl<'de, M, A> Decode<'de, M, A> for core::sync::atomic::$ty
             where
                 A: Allocator
             {
-                const IS_BITWISE_DECODE: bool = true;
+                const IS_BITWISE_DECODE: bool = $bitwise;
 
                 fn decode<D>(decoder: D) -> Result<Self, D::Error>
                 where
@@ -124,11 +124,11 @@ macro_rules! atomic_impl {
     };
 }
 
-atomic_impl!("8", AtomicBool, AtomicI8, AtomicU8);
-atomic_impl!("16", AtomicI16, AtomicU16);
-atomic_impl!("32", AtomicI32, AtomicU32);
-atomic_impl!("64", AtomicI64, AtomicU64);
-atomic_impl!("ptr", AtomicIsize, AtomicUsize);
+atomic_impl!("8", AtomicBool = false, AtomicI8 = true, AtomicU8 = true);
+atomic_impl!("16", AtomicI16 = true, AtomicU16 = true);
+atomic_impl!("32", AtomicI32 = true, AtomicU32 = true);
+atomic_impl!("64", AtomicI64 = true, AtomicU64 = true);
+atomic_impl!("ptr", AtomicIsize = true, AtomicUsize = true);
 
 macro_rules! non_zero {
     ($ty:ty) => {
-- 
2.43.0


From db2960fd545e71ab029c98a62f2d5a6a525d66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:03 +0000
Subject: [PATCH 46/80] fix: never raise the alignment of fields in packed
 structs

---
 crates/musli-zerocopy/src/buf/padder.rs    | 3 ++-
 crates/musli-zerocopy/src/buf/validator.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index 06d78f9..a388bc4 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -80,7 +80,8 @@ impl<'a, T: ?Sized> Padder<'a, T> {
     where
         F: ZeroCopy,
     {
-        let count = buf::padding_to(self.offset, align);
+        // NB: `#[repr(packed(N))]` can only lower the alignment of a field.
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
         // zero out padding.
         self.data.as_ptr().add(self.offset).write_bytes(0, count);
         self.offset += count;
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 13f82e1..11c0bf3 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -233,7 +233,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     where
         F: ZeroCopy,
     {
-        self.align_with(align);
+        // NB: `#[repr(packed(N))]` can only lower the alignment of a field.
+        self.align_with(align.min(align_of::<F>()));
         F::validate(&mut Validator::new(self.data))?;
         self.advance::<F>();
         Ok(())
-- 
2.43.0


From eb4c7a162681bac1ff51a21535ef62ff9d90480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 47/80] fix: validate fields relative to the start of the type

---
 crates/musli-zerocopy/src/buf/validator.rs | 43 +++++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 11c0bf3..2828d09 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -3,6 +3,7 @@ use core::mem::{align_of, size_of, transmute};
 use core::ops::Range;
 use core::ptr::{self, NonNull};
 
+use crate::buf;
 use crate::error::Error;
 use crate::traits::ZeroCopy;
 
@@ -11,9 +12,10 @@ use crate::traits::ZeroCopy;
 /// [`Buf`]: crate::buf::Buf
 /// [`Buf::validate_struct`]: crate::buf::Buf::validate_struct
 #[must_use = "Must call `Validator::end` when validation is completed"]
-#[repr(transparent)]
+#[repr(C)]
 pub struct Validator<'a, T: ?Sized> {
     data: NonNull<u8>,
+    offset: usize,
     _marker: PhantomData<&'a T>,
 }
 
@@ -36,10 +38,21 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     pub(crate) unsafe fn new(data: NonNull<u8>) -> Self {
         Self {
             data,
+            offset: 0,
             _marker: PhantomData,
         }
     }
 
+    /// Get a pointer to the current offset.
+    ///
+    /// # Safety
+    ///
+    /// The current offset must be in bounds of the data being validated.
+    #[inline]
+    unsafe fn ptr(&self) -> NonNull<u8> {
+        NonNull::new_unchecked(self.data.as_ptr().add(self.offset))
+    }
+
     /// Indicate that this validate is transparent over `U`.
     //
     /// # Safety
@@ -97,8 +110,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         // appropriately above.
         unsafe {
             self.align_with(align_of::<F>());
-            F::validate(&mut Validator::new(self.data))?;
-            let output = self.data.cast::<F>().as_ref();
+            F::validate(&mut Validator::new(self.ptr()))?;
+            let output = self.ptr().cast::<F>().as_ref();
             self.advance::<F>();
             Ok(output)
         }
@@ -113,8 +126,8 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     /// walk out of bounds.
     #[inline]
     pub unsafe fn byte(&mut self) -> u8 {
-        let b = ptr::read(self.data.as_ptr());
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(1));
+        let b = ptr::read(self.ptr().as_ptr());
+        self.offset += 1;
         b
     }
 
@@ -134,7 +147,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         // sized
         // appropriately above.
         unsafe {
-            let output = ptr::read_unaligned(self.data.cast::<F>().as_ptr());
+            let output = ptr::read_unaligned(self.ptr().cast::<F>().as_ptr());
             self.advance::<F>();
             Ok(output)
         }
@@ -235,7 +248,7 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     {
         // NB: `#[repr(packed(N))]` can only lower the alignment of a field.
         self.align_with(align.min(align_of::<F>()));
-        F::validate(&mut Validator::new(self.data))?;
+        F::validate(&mut Validator::new(self.ptr()))?;
         self.advance::<F>();
         Ok(())
     }
@@ -255,28 +268,30 @@ impl<'a, T: ?Sized> Validator<'a, T> {
     {
         // SAFETY: We've ensured that the provided buffer is aligned and sized
         // appropriately above.
-        F::validate(&mut Validator::new(self.data))?;
+        F::validate(&mut Validator::new(self.ptr()))?;
         self.advance::<F>();
         Ok(())
     }
 
-    /// Align the current pointer by `F`.
+    /// Align the current offset by `align`.
+    ///
+    /// This is relative to the start of the type being validated, which is not
+    /// necessarily aligned in memory.
     #[inline]
     pub(crate) unsafe fn align_with(&mut self, align: usize) {
-        let offset = self.data.as_ptr().align_offset(align);
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(offset));
+        self.offset += buf::padding_to(self.offset, align);
     }
 
-    /// Advance the current pointer by `F`.
+    /// Advance the current offset by `F`.
     #[inline]
     pub(crate) unsafe fn advance<F>(&mut self) {
-        self.data = NonNull::new_unchecked(self.data.as_ptr().add(size_of::<F>()));
+        self.offset += size_of::<F>();
     }
 
     /// Return the address range associated with a just read `F` for diagnostics.
     #[inline]
     pub(crate) fn range<F>(&self) -> Range<usize> {
-        let end = self.data.as_ptr() as usize;
+        let end = (self.data.as_ptr() as usize).wrapping_add(self.offset);
         let start = end.wrapping_sub(size_of::<F>());
         start..end
     }
-- 
2.43.0


From 49de495239b449519984a2b5f7a6220ff55c66a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 48/80] fix: load the discriminant of enums without assuming
 alignment

---
 crates/musli-zerocopy-macros/src/zero_copy/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index 5f5febb..dd1ede8 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -556,7 +556,7 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
 
                 // SAFETY: We've systematically ensured that we're only
                 // validating over fields within the size of this type.
-                match *#validator::field::<#ty>(validator)? {
+                match #validator::load_unaligned::<#ty>(validator)? {
                     #(#validate_variants,)*
                     value => return #result::Err(#error::__illegal_enum_discriminant::<Self>(value)),
                 }
-- 
2.43.0


From 4c7ff8f477a17a5eb30f9974b8976ca72219b46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 49/80] fix: account for the alignment of ignored fields

---
 .../src/zero_copy/mod.rs                      | 86 ++++++++++++-------
 crates/musli-zerocopy/src/buf/padder.rs       | 25 ++++++
 crates/musli-zerocopy/src/buf/validator.rs    | 22 +++++
 3 files changed, 100 insertions(+), 33 deletions(-)

diff --git a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
index dd1ede8..b00a4ca 100644
--- a/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
+++ b/crates/musli-zerocopy-macros/src/zero_copy/mod.rs
@@ -184,36 +184,21 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     };
                 }
                 _ => {
-                    let types = &output.types;
-
-                    match r.repr_packed {
-                        Some((_, align)) => {
-                            pad = quote! {
-                                #(#padder::pad_with::<#types>(padder, #align);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate_with::<#types>(validator, #align)?;)*
-                            };
-                        }
-                        _ => {
-                            pad = quote! {
-                                #(#padder::pad::<#types>(padder);)*
-                            };
-
-                            validate = quote! {
-                                // SAFETY: We've systematically ensured that we're
-                                // only validating over fields within the size of
-                                // this type.
-                                #(#validator::validate::<#types>(validator)?;)*
-                            };
-                        }
-                    }
+                    let align = r.repr_packed.map(|(_, align)| align);
+                    let pads = output.pads(&padder, align);
+                    let validates = output.validates(&validator, align);
+
+                    pad = quote!(#(#pads)*);
+
+                    validate = quote! {
+                        // SAFETY: We've systematically ensured that we're
+                        // only validating over fields within the size of
+                        // this type.
+                        #(#validates)*
+                    };
 
                     let Fields {
+                        types,
                         members,
                         ignored_members,
                         ..
@@ -374,8 +359,6 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     }
                 }
 
-                let types = &output.types;
-
                 let discriminant_const =
                     syn::Ident::new(&format!("DISCRIMINANT{}", index), variant.ident.span());
 
@@ -385,19 +368,21 @@ fn expand(cx: &Ctxt, input: syn::DeriveInput) -> Result<TokenStream, ()> {
                     const #discriminant_const: #ty = #discriminant;
                 });
 
+                let validates = output.validates(&validator, None);
+
                 validate_variants.push(quote! {
                     #discriminant_const => {
-                        #(#validator::validate::<#types>(validator)?;)*
+                        #(#validates)*
                     }
                 });
 
                 let ident = &variant.ident;
 
-                let Fields { types, .. } = &output;
+                let pads = output.pads(&padder, None);
 
                 pad_variants.push(quote! {
                     #discriminant_const => {
-                        #(#padder::pad::<#types>(padder);)*
+                        #(#pads)*
                     }
                 });
 
@@ -734,6 +719,39 @@ struct Fields<'a> {
     ignored_members: Vec<syn::Member>,
     ignored_variables: Vec<syn::Ident>,
     check_zero_sized: Vec<&'a syn::Type>,
+    // All fields in order, and whether they are ignored.
+    layout: Vec<(&'a syn::Type, bool)>,
+}
+
+impl Fields<'_> {
+    /// Steps to pad every field in order. Ignored fields are zero-sized, but
+    /// still affect the offset of the fields which follows them.
+    fn pads(&self, padder: &syn::Path, align: Option<usize>) -> Vec<TokenStream> {
+        self.layout
+            .iter()
+            .map(|&(ty, ignored)| match (ignored, align) {
+                (false, None) => quote!(#padder::pad::<#ty>(padder);),
+                (false, Some(align)) => quote!(#padder::pad_with::<#ty>(padder, #align);),
+                (true, None) => quote!(#padder::__ignore::<#ty>(padder);),
+                (true, Some(align)) => quote!(#padder::__ignore_with::<#ty>(padder, #align);),
+            })
+            .collect()
+    }
+
+    /// Steps to validate every field in order.
+    fn validates(&self, validator: &syn::Path, align: Option<usize>) -> Vec<TokenStream> {
+        self.layout
+            .iter()
+            .map(|&(ty, ignored)| match (ignored, align) {
+                (false, None) => quote!(#validator::validate::<#ty>(validator)?;),
+                (false, Some(align)) => {
+                    quote!(#validator::validate_with::<#ty>(validator, #align)?;)
+                }
+                (true, None) => quote!(#validator::__ignore::<#ty>(validator);),
+                (true, Some(align)) => quote!(#validator::__ignore_with::<#ty>(validator, #align);),
+            })
+            .collect()
+    }
 }
 
 fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
@@ -786,6 +804,8 @@ fn process_fields<'a>(cx: &Ctxt, fields: &'a syn::Fields) -> Fields<'a> {
             syn::Member::Unnamed(index) => syn::parse_quote!(#index: #variable),
         });
 
+        output.layout.push((ty, ignore.is_some()));
+
         if ignore.is_some() {
             output.check_zero_sized.push(ty);
             output.ignored_members.push(member);
diff --git a/crates/musli-zerocopy/src/buf/padder.rs b/crates/musli-zerocopy/src/buf/padder.rs
index a388bc4..2b7727e 100644
--- a/crates/musli-zerocopy/src/buf/padder.rs
+++ b/crates/musli-zerocopy/src/buf/padder.rs
@@ -96,6 +96,31 @@ impl<'a, T: ?Sized> Padder<'a, T> {
         self.offset += size_of::<F>();
     }
 
+    /// Pad up to an ignored zero-sized field.
+    ///
+    /// # Safety
+    ///
+    /// Same as [`pad()`][Self::pad].
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __ignore<F>(&mut self) {
+        self.__ignore_with::<F>(align_of::<F>());
+    }
+
+    /// Pad up to an ignored zero-sized field using a custom alignment `align`.
+    ///
+    /// # Safety
+    ///
+    /// Same as [`pad_with()`][Self::pad_with].
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __ignore_with<F>(&mut self, align: usize) {
+        let count = buf::padding_to(self.offset, align.min(align_of::<F>()));
+        // zero out padding.
+        self.data.as_ptr().add(self.offset).write_bytes(0, count);
+        self.offset += count;
+    }
+
     /// Specific method to both pad for a discriminant and load it
     /// simultaneously for inspection.
     ///
diff --git a/crates/musli-zerocopy/src/buf/validator.rs b/crates/musli-zerocopy/src/buf/validator.rs
index 2828d09..1339790 100644
--- a/crates/musli-zerocopy/src/buf/validator.rs
+++ b/crates/musli-zerocopy/src/buf/validator.rs
@@ -253,6 +253,28 @@ impl<'a, T: ?Sized> Validator<'a, T> {
         Ok(())
     }
 
+    /// Advance up to an ignored zero-sized field.
+    ///
+    /// # Safety
+    ///
+    /// Same as [`validate()`][Self::validate].
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __ignore<F>(&mut self) {
+        self.align_with(align_of::<F>());
+    }
+
+    /// Advance up to an ignored zero-sized field with alignment `align`.
+    ///
+    /// # Safety
+    ///
+    /// Same as [`validate_with()`][Self::validate_with].
+    #[doc(hidden)]
+    #[inline]
+    pub unsafe fn __ignore_with<F>(&mut self, align: usize) {
+        self.align_with(align.min(align_of::<F>()));
+    }
+
     /// Only validate the given field without aligning it.
     ///
     /// # Safety
-- 
2.43.0


From 060f75d1b413a505282890583166477c4dcf43ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 50/80] fix: bound probing in swiss tables by the control bytes

---
 crates/musli-zerocopy/src/swiss/map.rs     | 10 ++++++++--
 crates/musli-zerocopy/src/swiss/raw/mod.rs | 15 ++++++++++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/map.rs b/crates/musli-zerocopy/src/swiss/map.rs
index a3ab871..bc71974 100644
--- a/crates/musli-zerocopy/src/swiss/map.rs
+++ b/crates/musli-zerocopy/src/swiss/map.rs
@@ -467,7 +467,7 @@ where
         let mut probe_seq = probe_seq(self.bucket_mask, hash);
 
         loop {
-            let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
+            let range = probe_seq.pos..probe_seq.pos.saturating_add(size_of::<Group>());
 
             let Some(bytes) = self.ctrl.get(range.clone()) else {
                 return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
@@ -494,6 +494,9 @@ where
                 return Ok(None);
             }
 
+            // NB: An illegal bucket mask must not cause us to probe more groups
+            // than there are control bytes.
+            probe_seq.ensure_stride(self.ctrl.len())?;
             probe_seq.move_next(self.bucket_mask)?;
         }
     }
@@ -591,7 +594,7 @@ where
         let ctrl = buf.load(self.ctrl)?;
 
         loop {
-            let range = probe_seq.pos..probe_seq.pos + size_of::<Group>();
+            let range = probe_seq.pos..probe_seq.pos.saturating_add(size_of::<Group>());
 
             let Some(bytes) = ctrl.get(range.clone()) else {
                 return Err(Error::new(ErrorKind::ControlRangeOutOfBounds {
@@ -616,6 +619,9 @@ where
                 return Ok(None);
             }
 
+            // NB: An illegal bucket mask must not cause us to probe more groups
+            // than there are control bytes.
+            probe_seq.ensure_stride(ctrl.len())?;
             probe_seq.move_next(self.bucket_mask.to_ne())?;
         }
     }
diff --git a/crates/musli-zerocopy/src/swiss/raw/mod.rs b/crates/musli-zerocopy/src/swiss/raw/mod.rs
index 12c628b..918105b 100644
--- a/crates/musli-zerocopy/src/swiss/raw/mod.rs
+++ b/crates/musli-zerocopy/src/swiss/raw/mod.rs
@@ -53,6 +53,19 @@ pub(crate) struct ProbeSeq {
 }
 
 impl ProbeSeq {
+    /// Ensure that the stride is within the given number of control bytes.
+    #[inline]
+    pub(crate) fn ensure_stride(&self, len: usize) -> Result<(), Error> {
+        if self.stride > len {
+            return Err(Error::new(ErrorKind::StrideOutOfBounds {
+                index: self.stride,
+                len,
+            }));
+        }
+
+        Ok(())
+    }
+
     #[inline]
     pub(crate) fn move_next(&mut self, bucket_mask: usize) -> Result<(), Error> {
         if self.stride > bucket_mask {
@@ -63,7 +76,7 @@ impl ProbeSeq {
         }
 
         self.stride += Group::WIDTH;
-        self.pos += self.stride;
+        self.pos = self.pos.wrapping_add(self.stride);
         self.pos &= bucket_mask;
         Ok(())
     }
-- 
2.43.0


From 96b2bd6f1418f5d035c16af62498de70ee329c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 51/80] fix: report empty perfect hash maps with non-zero
 lengths as errors

---
 crates/musli-zerocopy/src/phf/hashing.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 9327cfe..641ff06 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -37,12 +37,24 @@ where
     })
 }
 
+/// Ensure that there is something to look up, since both lengths might originate
+/// from an untrusted buffer.
+#[inline]
+fn ensure_lengths(displacements: usize, len: usize) -> Result<(), Error> {
+    if displacements == 0 || len == 0 {
+        return Err(Error::new(ErrorKind::IndexOutOfBounds { index: 0, len: 0 }));
+    }
+
+    Ok(())
+}
+
 #[inline]
 pub(crate) fn get_index(
     &Hashes { g, f1, f2 }: &Hashes,
     displacements: &[Entry<u32, u32>],
     len: usize,
 ) -> Result<usize, Error> {
+    ensure_lengths(displacements.len(), len)?;
     let index = g % displacements.len();
 
     let Some(&Entry { key: d1, value: d2 }) = displacements.get(index) else {
@@ -65,6 +77,7 @@ pub(crate) fn get_custom_index<'a, D>(
 where
     D: FnOnce(usize) -> Result<Option<&'a Entry<u32, u32>>, Error>,
 {
+    ensure_lengths(displacements_len, len)?;
     let index = g % displacements_len;
 
     let Some(&Entry { key: d1, value: d2 }) = get(index)? else {
-- 
2.43.0


From 006952aeeedfa08da41c84a47a4cf19d99267d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:03 +0000
Subject: [PATCH 52/80] fix: do not overflow when checking the bounds of
 references

---
 crates/musli-zerocopy/src/buf/buf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/buf.rs b/crates/musli-zerocopy/src/buf/buf.rs
index 562ab48..de1dff5 100644
--- a/crates/musli-zerocopy/src/buf/buf.rs
+++ b/crates/musli-zerocopy/src/buf/buf.rs
@@ -751,7 +751,7 @@ impl Buf {
         T: ZeroCopy,
     {
         unsafe {
-            let end = offset + size_of::<T>();
+            let end = offset.saturating_add(size_of::<T>());
 
             // SAFETY: align_of::<T>() is always a power of two.
             let buf = self.inner_get(offset, end, align_of::<T>())?;
@@ -841,7 +841,7 @@ impl Buf {
         }
 
         let start = a.max(b);
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         if end > self.data.len() {
             return Err(Error::new(ErrorKind::OutOfRangeBounds {
@@ -875,7 +875,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = offset + size_of::<T>();
+        let end = offset.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
@@ -900,7 +900,7 @@ impl Buf {
     where
         T: ZeroCopy,
     {
-        let end = start + size_of::<T>();
+        let end = start.saturating_add(size_of::<T>());
 
         unsafe {
             // SAFETY: align_of::<T>() is always a power of two.
-- 
2.43.0


From af8c418fcc722318a225f8a9ad1fe71116ce7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 53/80] fix: panic when capacity or offset arithmetic overflows
 in buffers

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 10 +++++++---
 crates/musli-zerocopy/src/buf/slice_mut.rs | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 45caee5..41c13d3 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -371,7 +371,7 @@ where
     /// ```
     #[inline]
     pub fn reserve(&mut self, capacity: usize) {
-        let new_capacity = self.len + capacity;
+        let new_capacity = self.len.checked_add(capacity).expect("Capacity overflow");
         self.ensure_capacity(new_capacity);
     }
 
@@ -566,7 +566,11 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(
+            at.checked_add(size_of::<T>())
+                .is_some_and(|end| end <= self.len),
+            "Length overflow"
+        );
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
@@ -993,7 +997,7 @@ where
     #[inline]
     fn ensure_aligned_and_reserve(&mut self, align: usize, reserve: usize) {
         let extra = buf::padding_to(self.len, align);
-        self.reserve(extra + reserve);
+        self.reserve(extra.checked_add(reserve).expect("Capacity overflow"));
 
         // SAFETY: The length is ensures to be within the address space.
         unsafe {
diff --git a/crates/musli-zerocopy/src/buf/slice_mut.rs b/crates/musli-zerocopy/src/buf/slice_mut.rs
index a8357b9..07d4ae0 100644
--- a/crates/musli-zerocopy/src/buf/slice_mut.rs
+++ b/crates/musli-zerocopy/src/buf/slice_mut.rs
@@ -258,7 +258,7 @@ where
     /// ```
     #[inline]
     pub fn reserve(&mut self, capacity: usize) {
-        let new_capacity = self.len + capacity;
+        let new_capacity = self.len.checked_add(capacity).expect("Capacity overflow");
         self.ensure_capacity(new_capacity);
     }
 
@@ -452,7 +452,11 @@ where
 
         // Note: We only need this as debug assertion, because `MaybeUninit<T>`
         // does not implement `ZeroCopy`, so there is no way to construct.
-        assert!(at + size_of::<T>() <= self.len, "Length overflow");
+        assert!(
+            at.checked_add(size_of::<T>())
+                .is_some_and(|end| end <= self.len),
+            "Length overflow"
+        );
 
         // SAFETY: `MaybeUninit<T>` has no representation requirements and is
         // unaligned.
@@ -833,7 +837,7 @@ where
     #[inline]
     fn ensure_aligned_and_reserve(&mut self, align: usize, reserve: usize) {
         let extra = buf::padding_to(self.len, align);
-        self.reserve(extra + reserve);
+        self.reserve(extra.checked_add(reserve).expect("Capacity overflow"));
 
         // SAFETY: The length is ensures to be within the address space.
         unsafe {
-- 
2.43.0


From db73ec2d7aa92e3bb7c8d0a602d6da2e9a9b77f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:23 +0000
Subject: [PATCH 54/80] fix: clone buffers using their requested alignment

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 41c13d3..7d9ac93 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -1266,13 +1266,14 @@ where
 {
     fn clone(&self) -> Self {
         unsafe {
+            // NB: Using the requested alignment means that a clone which doesn't
+            // allocate also satisfies it.
             let mut new = ManuallyDrop::new(Self::with_capacity_and_custom_alignment(
-                self.len, self.align,
+                self.len,
+                self.requested,
             ));
             new.as_mut_ptr()
                 .copy_from_nonoverlapping(self.as_ptr(), self.len);
-            // Set requested to the same as original.
-            new.requested = self.requested;
             new.len = self.len;
             ManuallyDrop::into_inner(new)
         }
-- 
2.43.0


From 1073eb48d177e9735dafdd0b3cbd3b42304249cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 55/80] fix: calculate offsets of slice elements without
 overflowing, and iterate over references to zero-sized elements

---
 crates/musli-zerocopy/src/pointer/ref.rs      | 35 ++++++++++++-------
 .../musli-zerocopy/src/slice/binary_search.rs | 12 +++++--
 crates/musli-zerocopy/src/slice/packed.rs     |  5 ++-
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 5d2deff..d5147cb 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -341,8 +341,10 @@ where
             return None;
         }
 
-        let offset = self.offset.as_usize::<E>() + size_of::<T>() * index;
-        Some(Ref::new(offset))
+        let offset = size_of::<T>()
+            .checked_mul(index)?
+            .checked_add(self.offset.as_usize::<E>())?;
+        Ref::try_with_metadata(offset, ()).ok()
     }
 
     /// Get an unchecked reference directly out of the slice without validation.
@@ -407,7 +409,7 @@ where
         let len = self.len();
         assert!(at <= len, "Split point {at} is out of bounds 0..={len}");
         let a = Self::with_metadata(offset, at);
-        let b = Self::with_metadata(offset + at * size_of::<T>(), len - at);
+        let b = Self::with_metadata(offset_of_element::<T>(offset, at), len - at);
         (a, b)
     }
 
@@ -452,12 +454,10 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
-        let start = self.offset.as_usize::<E>();
-        let end = start + self.metadata.as_usize::<E>() * size_of::<T>();
-
         Iter {
-            start,
-            end,
+            offset: self.offset.as_usize::<E>(),
+            start: 0,
+            end: self.metadata.as_usize::<E>(),
             _marker: PhantomData,
         }
     }
@@ -506,6 +506,7 @@ where
 ///
 /// See [`Ref::iter`].
 pub struct Iter<T, E, O> {
+    offset: usize,
     start: usize,
     end: usize,
     _marker: PhantomData<(T, E, O)>,
@@ -526,8 +527,8 @@ where
         }
 
         let start = self.start;
-        self.start += size_of::<T>();
-        Some(Ref::new(start))
+        self.start += 1;
+        Some(Ref::new(offset_of_element::<T>(self.offset, start)))
     }
 }
 
@@ -543,8 +544,8 @@ where
             return None;
         }
 
-        self.end -= size_of::<T>();
-        Some(Ref::new(self.end))
+        self.end -= 1;
+        Some(Ref::new(offset_of_element::<T>(self.offset, self.end)))
     }
 }
 
@@ -934,3 +935,13 @@ where
         self.metadata.hash(state);
     }
 }
+
+/// Calculate the offset of the element at `index` in a slice of `T` starting at
+/// `offset`.
+#[inline]
+fn offset_of_element<T>(offset: usize, index: usize) -> usize {
+    size_of::<T>()
+        .checked_mul(index)
+        .and_then(|n| n.checked_add(offset))
+        .expect("Offset of element overflows")
+}
diff --git a/crates/musli-zerocopy/src/slice/binary_search.rs b/crates/musli-zerocopy/src/slice/binary_search.rs
index 555cd09..2fe5f12 100644
--- a/crates/musli-zerocopy/src/slice/binary_search.rs
+++ b/crates/musli-zerocopy/src/slice/binary_search.rs
@@ -1,7 +1,7 @@
 use core::cmp::Ordering;
 
 use crate::buf::{Buf, Visit};
-use crate::error::Error;
+use crate::error::{Error, ErrorKind};
 use crate::slice::Slice;
 use crate::traits::ZeroCopy;
 
@@ -114,7 +114,15 @@ where
         // < size`. Thus `left + size/2 < left + size`, which coupled with
         // the `left + size <= slice.len()` invariant means we have `left +
         // size/2 < slice.len()`, and this is in-bounds.
-        let value = buf.load(slice.get_unchecked(mid))?;
+        // The slice might still refer to elements beyond what can be addressed.
+        let Some(value) = slice.get(mid) else {
+            return Err(Error::new(ErrorKind::IndexOutOfBounds {
+                index: mid,
+                len: slice.len(),
+            }));
+        };
+
+        let value = buf.load(value)?;
         let cmp = f(value)?;
 
         // The reason why we use if/else control flow rather than match
diff --git a/crates/musli-zerocopy/src/slice/packed.rs b/crates/musli-zerocopy/src/slice/packed.rs
index 3844a58..b4a581c 100644
--- a/crates/musli-zerocopy/src/slice/packed.rs
+++ b/crates/musli-zerocopy/src/slice/packed.rs
@@ -231,7 +231,10 @@ where
             return None;
         }
 
-        Some(self.get_unchecked(index))
+        let offset = size_of::<T>()
+            .checked_mul(index)?
+            .checked_add(self.offset.as_usize::<E>())?;
+        Some(Ref::new(offset))
     }
 
     /// Split the slice reference at the given position `at`.
-- 
2.43.0


From a009e94fc6d9aee1312f266608a3d42dc4fcbef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:25 +0000
Subject: [PATCH 56/80] fix: reject empty strings in nodes while walking tries

---
 crates/musli-zerocopy/src/error.rs     | 6 ++++++
 crates/musli-zerocopy/src/trie/walk.rs | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/crates/musli-zerocopy/src/error.rs b/crates/musli-zerocopy/src/error.rs
index add9187..97d05a1 100644
--- a/crates/musli-zerocopy/src/error.rs
+++ b/crates/musli-zerocopy/src/error.rs
@@ -216,6 +216,9 @@ pub(crate) enum ErrorKind {
     StackOverflow {
         capacity: usize,
     },
+    EmptyTrieNode {
+        at: usize,
+    },
     #[cfg(feature = "alloc")]
     CapacityError,
     #[cfg(feature = "alloc")]
@@ -291,6 +294,9 @@ impl fmt::Display for ErrorKind {
             ErrorKind::StackOverflow { capacity } => {
                 write!(f, "Stack with capacity {capacity} overflowed")
             }
+            ErrorKind::EmptyTrieNode { at } => {
+                write!(f, "Trie node with an empty string and children at {at}")
+            }
             ErrorKind::Utf8Error { error } => error.fmt(f),
             #[cfg(feature = "alloc")]
             ErrorKind::CapacityError => {
diff --git a/crates/musli-zerocopy/src/trie/walk.rs b/crates/musli-zerocopy/src/trie/walk.rs
index cae6edc..03f3fbd 100644
--- a/crates/musli-zerocopy/src/trie/walk.rs
+++ b/crates/musli-zerocopy/src/trie/walk.rs
@@ -149,6 +149,15 @@ where
 
                     let node = self.buf.load(node)?;
 
+                    // NB: Since every node with children contributes to the
+                    // prefix, which has to precede the string of the node,
+                    // links which form a cycle eventually result in an error.
+                    if node.string.is_empty() && !node.links.children.is_empty() {
+                        return Err(Error::new(ErrorKind::EmptyTrieNode {
+                            at: node.string.offset(),
+                        }));
+                    }
+
                     let new_prefix = prefix_string(node.string, prefix.len())?;
                     let new_prefix = self.buf.load(new_prefix)?;
 
-- 
2.43.0


From 37d9f254e63f02881a5fc5eebe8dc8089e8a1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:58 +0000
Subject: [PATCH 57/80] fix: do not panic when iterating over references beyond
 the address space

---
 crates/musli-zerocopy/src/pointer/ref.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index d5147cb..ea1be7c 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -427,6 +427,10 @@ where
 
     /// Construct an iterator over this reference.
     ///
+    /// This yields the same references as [`get()`] does for every index.
+    ///
+    /// [`get()`]: Ref::get
+    ///
     /// # Examples
     ///
     /// ```
@@ -454,10 +458,23 @@ where
     /// ```
     #[inline]
     pub fn iter(self) -> Iter<T, E, O> {
+        let offset = self.offset.as_usize::<E>();
+        let mut end = self.metadata.as_usize::<E>();
+
+        // NB: Just like for `get`, a reference might claim to have elements
+        // which are beyond what can be addressed.
+        if let Some(n) = O::MAX
+            .as_usize::<Native>()
+            .saturating_sub(offset)
+            .checked_div(size_of::<T>())
+        {
+            end = end.min(n.saturating_add(1));
+        }
+
         Iter {
-            offset: self.offset.as_usize::<E>(),
+            offset,
             start: 0,
-            end: self.metadata.as_usize::<E>(),
+            end,
             _marker: PhantomData,
         }
     }
-- 
2.43.0


From 4f4e9ad2ef5b46c8d9ad8384b63717a449a4f7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 58/80] fix: store the key of swiss sets in the byte order of
 the buffer

---
 crates/musli-zerocopy/src/swiss/set.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/musli-zerocopy/src/swiss/set.rs b/crates/musli-zerocopy/src/swiss/set.rs
index d1d57c6..75c94b7 100644
--- a/crates/musli-zerocopy/src/swiss/set.rs
+++ b/crates/musli-zerocopy/src/swiss/set.rs
@@ -21,7 +21,7 @@ use crate::error::Error;
 use crate::pointer::{DefaultSize, Size};
 use crate::sip::SipHasher13;
 use crate::swiss::map::{RawTable, RawTableRef};
-use crate::ZeroCopy;
+use crate::{Endian, ZeroCopy};
 
 /// A set bound to a [`Buf`] through [`Buf::bind`] for convenience.
 ///
@@ -110,7 +110,7 @@ where
     #[inline]
     fn bind(self, buf: &Buf) -> Result<Self::Bound<'_>, Error> {
         Ok(Set {
-            key: self.key,
+            key: self.key.to_ne(),
             table: self.table.bind(buf)?,
             buf,
         })
@@ -152,7 +152,7 @@ where
     E: ByteOrder,
     O: Size,
 {
-    key: u64,
+    key: Endian<u64, E>,
     table: RawTableRef<T, E, O>,
 }
 
@@ -164,7 +164,10 @@ where
 {
     #[cfg(feature = "alloc")]
     pub(crate) fn new(key: u64, table: RawTableRef<T, E, O>) -> Self {
-        Self { key, table }
+        Self {
+            key: Endian::new(key),
+            table,
+        }
     }
 
     /// Test if the set contains the given `key`.
@@ -204,7 +207,7 @@ where
     where
         H: ?Sized + Hash,
     {
-        let mut hasher = SipHasher13::new_with_keys(0, self.key);
+        let mut hasher = SipHasher13::new_with_keys(0, self.key.to_ne());
         value.hash(&mut hasher);
         hasher.finish()
     }
-- 
2.43.0


From 9b691d8735f5f55d7bfa7f96e1e50e20e6ee26a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:01 +0000
Subject: [PATCH 59/80] fix: respect the byte order of references when coercing
 them

---
 crates/musli-zerocopy/src/pointer/ref.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index ea1be7c..6ca0513 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -711,7 +711,7 @@ where
     {
         Ref {
             offset: self.offset,
-            metadata: T::coerce_metadata(self.metadata),
+            metadata: T::coerce_metadata(self.metadata.swap_bytes::<E>()).swap_bytes::<E>(),
             _marker: PhantomData,
         }
     }
@@ -783,7 +783,7 @@ where
     {
         Some(Ref {
             offset: self.offset,
-            metadata: T::try_coerce_metadata(self.metadata)?,
+            metadata: T::try_coerce_metadata(self.metadata.swap_bytes::<E>())?.swap_bytes::<E>(),
             _marker: PhantomData,
         })
     }
@@ -824,7 +824,7 @@ where
     /// ```
     #[inline]
     pub fn array_into_slice(self) -> Ref<[T], E, O> {
-        Ref::with_metadata(self.offset, N)
+        Ref::with_metadata(self.offset(), N)
     }
 }
 
-- 
2.43.0


From f314689e7f7db7e0c049ab76eca6e3cab79ceda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 60/80] fix: order references by what they refer to in any byte
 order

---
 crates/musli-zerocopy/src/pointer/ref.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/crates/musli-zerocopy/src/pointer/ref.rs b/crates/musli-zerocopy/src/pointer/ref.rs
index 6ca0513..178c682 100644
--- a/crates/musli-zerocopy/src/pointer/ref.rs
+++ b/crates/musli-zerocopy/src/pointer/ref.rs
@@ -914,12 +914,17 @@ where
 {
     #[inline]
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        match self.offset.partial_cmp(&other.offset) {
+        let a = self.offset.swap_bytes::<E>();
+        let b = other.offset.swap_bytes::<E>();
+
+        match a.partial_cmp(&b) {
             Some(Ordering::Equal) => {}
             ord => return ord,
         }
 
-        self.metadata.partial_cmp(&other.metadata)
+        let a = self.metadata.swap_bytes::<E>();
+        let b = other.metadata.swap_bytes::<E>();
+        a.partial_cmp(&b)
     }
 }
 
@@ -931,12 +936,17 @@ where
 {
     #[inline]
     fn cmp(&self, other: &Self) -> Ordering {
-        match self.offset.cmp(&other.offset) {
+        let a = self.offset.swap_bytes::<E>();
+        let b = other.offset.swap_bytes::<E>();
+
+        match a.cmp(&b) {
             Ordering::Equal => {}
             ord => return ord,
         }
 
-        self.metadata.cmp(&other.metadata)
+        let a = self.metadata.swap_bytes::<E>();
+        let b = other.metadata.swap_bytes::<E>();
+        a.cmp(&b)
     }
 }
 
-- 
2.43.0


From fc09cdc1ca1410a958db7f2d0e0be8c7476c164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 61/80] fix: store displacements of perfect hash maps in the
 byte order of the buffer

---
 crates/musli-zerocopy/src/phf/factory.rs |  7 +++++++
 crates/musli-zerocopy/src/phf/hashing.rs |  9 ++++++---
 crates/musli-zerocopy/src/phf/map.rs     | 13 ++++++++++---
 crates/musli-zerocopy/src/phf/set.rs     | 13 ++++++++++---
 4 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/crates/musli-zerocopy/src/phf/factory.rs b/crates/musli-zerocopy/src/phf/factory.rs
index 9e553e2..f565a7d 100644
--- a/crates/musli-zerocopy/src/phf/factory.rs
+++ b/crates/musli-zerocopy/src/phf/factory.rs
@@ -4,6 +4,7 @@ use core::hash::Hash;
 use core::mem::replace;
 
 use crate::buf::{StoreBuf, Visit};
+use crate::endian::ByteOrder;
 use crate::error::Error;
 use crate::phf::hashing::HashKey;
 use crate::phf::{Entry, MapRef, SetRef};
@@ -195,6 +196,12 @@ where
         }
     }
 
+    // The displacements have been calculated using native byte order.
+    for d in buf.as_mut_buf().load_mut(displacements)? {
+        d.key = S::ByteOrder::swap_u32(d.key);
+        d.value = S::ByteOrder::swap_u32(d.value);
+    }
+
     // Free up temporary memory we needed to build the map.
     buf.truncate(len);
     Ok((hash_state.key, entries, displacements))
diff --git a/crates/musli-zerocopy/src/phf/hashing.rs b/crates/musli-zerocopy/src/phf/hashing.rs
index 641ff06..fb8ad79 100644
--- a/crates/musli-zerocopy/src/phf/hashing.rs
+++ b/crates/musli-zerocopy/src/phf/hashing.rs
@@ -1,6 +1,7 @@
 use core::hash::Hash;
 
 use crate::buf::{Buf, Visit};
+use crate::endian::ByteOrder;
 use crate::error::{Error, ErrorKind};
 use crate::phf::Entry;
 use crate::sip::{Hash128, Hasher128, SipHasher13};
@@ -52,6 +53,7 @@ fn ensure_lengths(displacements: usize, len: usize) -> Result<(), Error> {
 pub(crate) fn get_index(
     &Hashes { g, f1, f2 }: &Hashes,
     displacements: &[Entry<u32, u32>],
+    to_ne: fn(u32) -> u32,
     len: usize,
 ) -> Result<usize, Error> {
     ensure_lengths(displacements.len(), len)?;
@@ -64,17 +66,18 @@ pub(crate) fn get_index(
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    Ok(displace(f1, f2, to_ne(d1), to_ne(d2)) as usize % len)
 }
 
 #[inline]
-pub(crate) fn get_custom_index<'a, D>(
+pub(crate) fn get_custom_index<'a, E, D>(
     &Hashes { g, f1, f2 }: &Hashes,
     get: D,
     displacements_len: usize,
     len: usize,
 ) -> Result<usize, Error>
 where
+    E: ByteOrder,
     D: FnOnce(usize) -> Result<Option<&'a Entry<u32, u32>>, Error>,
 {
     ensure_lengths(displacements_len, len)?;
@@ -87,5 +90,5 @@ where
         }));
     };
 
-    Ok(displace(f1, f2, d1, d2) as usize % len)
+    Ok(displace(f1, f2, E::swap_u32(d1), E::swap_u32(d2)) as usize % len)
 }
diff --git a/crates/musli-zerocopy/src/phf/map.rs b/crates/musli-zerocopy/src/phf/map.rs
index caa0cfe..151e5f3 100644
--- a/crates/musli-zerocopy/src/phf/map.rs
+++ b/crates/musli-zerocopy/src/phf/map.rs
@@ -48,6 +48,8 @@ pub struct Map<'a, K, V> {
     key: HashKey,
     entries: &'a [Entry<K, V>],
     displacements: &'a [Entry<u32, u32>],
+    // Convert a displacement to native byte order.
+    to_ne: fn(u32) -> u32,
     buf: &'a Buf,
 }
 
@@ -146,8 +148,12 @@ where
         }
 
         let hashes = crate::phf::hashing::hash(self.buf, key, &self.key)?;
-        let index =
-            crate::phf::hashing::get_index(&hashes, self.displacements, self.entries.len())?;
+        let index = crate::phf::hashing::get_index(
+            &hashes,
+            self.displacements,
+            self.to_ne,
+            self.entries.len(),
+        )?;
 
         let Some(e) = self.entries.get(index) else {
             return Ok(None);
@@ -180,6 +186,7 @@ where
             key: self.key.to_ne(),
             entries: buf.load(self.entries)?,
             displacements: buf.load(self.displacements)?,
+            to_ne: E::swap_u32,
             buf,
         })
     }
@@ -351,7 +358,7 @@ where
             None => Ok(None),
         };
 
-        let index = crate::phf::hashing::get_custom_index(
+        let index = crate::phf::hashing::get_custom_index::<E, _>(
             &hashes,
             displacements,
             self.displacements.len(),
diff --git a/crates/musli-zerocopy/src/phf/set.rs b/crates/musli-zerocopy/src/phf/set.rs
index b011c58..a081337 100644
--- a/crates/musli-zerocopy/src/phf/set.rs
+++ b/crates/musli-zerocopy/src/phf/set.rs
@@ -45,6 +45,8 @@ pub struct Set<'a, T> {
     key: HashKey,
     entries: &'a [T],
     displacements: &'a [Entry<u32, u32>],
+    // Convert a displacement to native byte order.
+    to_ne: fn(u32) -> u32,
     buf: &'a Buf,
 }
 
@@ -82,8 +84,12 @@ where
         }
 
         let hashes = crate::phf::hashing::hash(self.buf, key, &self.key)?;
-        let index =
-            crate::phf::hashing::get_index(&hashes, self.displacements, self.entries.len())?;
+        let index = crate::phf::hashing::get_index(
+            &hashes,
+            self.displacements,
+            self.to_ne,
+            self.entries.len(),
+        )?;
 
         let Some(e) = self.entries.get(index) else {
             return Ok(false);
@@ -111,6 +117,7 @@ where
             key: self.key.to_ne(),
             entries: buf.load(self.entries)?,
             displacements: buf.load(self.displacements)?,
+            to_ne: E::swap_u32,
             buf,
         })
     }
@@ -220,7 +227,7 @@ where
             None => Ok(None),
         };
 
-        let index = crate::phf::hashing::get_custom_index(
+        let index = crate::phf::hashing::get_custom_index::<E, _>(
             &hashes,
             displacements,
             self.displacements.len(),
-- 
2.43.0


From 0a64a4d99e09ac57f9d09196ffca8a441e2365ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:20 +0000
Subject: [PATCH 62/80] fix: do not reallocate a buffer without an allocation
 when aligning it

---
 crates/musli-zerocopy/src/buf/owned_buf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/musli-zerocopy/src/buf/owned_buf.rs b/crates/musli-zerocopy/src/buf/owned_buf.rs
index 7d9ac93..92781af 100644
--- a/crates/musli-zerocopy/src/buf/owned_buf.rs
+++ b/crates/musli-zerocopy/src/buf/owned_buf.rs
@@ -924,6 +924,14 @@ where
     pub fn align_in_place(&mut self) {
         // SAFETY: self.requested is guaranteed to be a power of two.
         if !buf::is_aligned_with(self.as_ptr(), self.requested) {
+            if self.capacity == 0 {
+                // NB: There is no allocation to replace.
+                // SAFETY: The requested alignment is never zero.
+                self.data = unsafe { dangling(self.requested) };
+                self.align = self.requested;
+                return;
+            }
+
             let (old_layout, new_layout) = self.layouts(self.capacity);
             self.alloc_new(old_layout, new_layout);
         }
-- 
2.43.0


From e514086603c182590b93ec78df4d45a6841e9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 63/80] fix: leave the fields of an abandoned untagged variant
 when restoring the trace

---
 crates/musli/src/context/trace.rs | 38 +++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 6a66391..12dc53b 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -158,6 +158,15 @@ where
     access: Access,
 }
 
+/// A mark recorded by [`WithTraceImpl`].
+pub struct Mark {
+    position: usize,
+    // The number of elements in `path`.
+    len: usize,
+    // How many elements of `path` we've gone over capacity.
+    cap: usize,
+}
+
 impl<A> WithTraceImpl<A>
 where
     A: Allocator,
@@ -262,7 +271,7 @@ impl<A> TraceImpl<A> for WithTraceImpl<A>
 where
     A: Allocator,
 {
-    type Mark = usize;
+    type Mark = Mark;
 
     #[inline]
     fn clear(&self) {
@@ -283,12 +292,31 @@ where
 
     #[inline]
     fn mark(&self) -> Self::Mark {
-        self.mark.get()
+        let _access = self.access.shared();
+
+        // SAFETY: We've checked that we have shared access just above.
+        let len = unsafe { (*self.path.get()).len() };
+
+        Mark {
+            position: self.mark.get(),
+            len,
+            cap: self.cap.get(),
+        }
     }
 
     #[inline]
     fn restore(&self, mark: &Self::Mark) {
-        self.mark.set(*mark);
+        self.mark.set(mark.position);
+        self.cap.set(mark.cap);
+
+        let _access = self.access.exclusive();
+
+        // SAFETY: We've checked that we have exclusive access just above.
+        let path = unsafe { &mut (*self.path.get()) };
+
+        while path.len() > mark.len {
+            path.pop();
+        }
     }
 
     #[inline]
@@ -317,7 +345,7 @@ where
         T: fmt::Display,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
@@ -327,7 +355,7 @@ where
         T: 'static + Send + Sync + fmt::Display + fmt::Debug,
     {
         if let Some(string) = self.format_string(alloc, message) {
-            self.push_error(*mark..self.mark.get(), string);
+            self.push_error(mark.position..self.mark.get(), string);
         }
     }
 
-- 
2.43.0


From bb0c8fc210f265bf6e300cf3c9ff5c7add7af747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 64/80] fix: keep the trace balanced when a step of the path is
 capped

---
 crates/musli/src/context/trace.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 12dc53b..760da39 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -215,13 +215,22 @@ where
     /// Push a path.
     #[inline]
     fn push_path(&self, step: Step<A>) {
+        let cap = self.cap.get();
+
+        // NB: once a step has been capped so are all the steps inside of it,
+        // even if there might be room for them.
+        if cap > 0 {
+            self.cap.set(cap + 1);
+            return;
+        }
+
         let _access = self.access.exclusive();
 
         // SAFETY: We've checked that we have exclusive access just above.
         let path = unsafe { &mut (*self.path.get()) };
 
         if path.push(step).is_err() {
-            self.cap.set(&self.cap.get() + 1);
+            self.cap.set(1);
         }
     }
 
@@ -276,6 +285,7 @@ where
     #[inline]
     fn clear(&self) {
         self.mark.set(0);
+        self.cap.set(0);
         let _access = self.access.exclusive();
 
         // SAFETY: We have acquired exclusive access just above.
@@ -433,8 +443,10 @@ where
     where
         T: fmt::Display,
     {
-        if let Some(string) = self.format_string(alloc, field) {
-            self.push_path(Step::Key(string));
+        match self.format_string(alloc, field) {
+            Some(string) => self.push_path(Step::Key(string)),
+            // NB: must be accounted for since the key will be left.
+            None => self.cap.set(self.cap.get() + 1),
         }
     }
 
-- 
2.43.0


From c4f5277497cb95a28372a4edef5fd5afc3c3ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 65/80] fix: advance the context once per byte when reading an
 array

---
 crates/musli/src/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/musli/src/reader.rs b/crates/musli/src/reader.rs
index ac40301..56f0b05 100644
--- a/crates/musli/src/reader.rs
+++ b/crates/musli/src/reader.rs
@@ -150,9 +150,8 @@ pub trait Reader<'de>: self::sealed::Sealed {
             }
 
             #[inline]
-            fn visit_ref(mut self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
+            fn visit_ref(mut self, _: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
                 self.0.copy_from_slice(bytes);
-                cx.advance(bytes.len());
                 Ok(self.0)
             }
         }
-- 
2.43.0


From 56c61f1d4f3910c102fce62c360e51558c32fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 66/80] fix: report the position of a numerical key in JSON
 only once

---
 crates/musli/src/json/de/key_decoder.rs       | 67 ++++++++++++-------
 .../musli/src/json/de/key_signed_visitor.rs   | 20 ++++--
 .../musli/src/json/de/key_unsigned_visitor.rs | 20 ++++--
 3 files changed, 71 insertions(+), 36 deletions(-)

diff --git a/crates/musli/src/json/de/key_decoder.rs b/crates/musli/src/json/de/key_decoder.rs
index 6b9c51b..b8d9cb2 100644
--- a/crates/musli/src/json/de/key_decoder.rs
+++ b/crates/musli/src/json/de/key_decoder.rs
@@ -31,6 +31,13 @@ where
         }
     }
 
+    /// Mark the start of the key.
+    #[inline]
+    fn start(&mut self) -> C::Mark {
+        self.parser.skip_whitespace(self.cx);
+        self.cx.mark()
+    }
+
     #[inline]
     fn decode_escaped_bytes<V>(mut self, visitor: V) -> Result<V::Ok, V::Error>
     where
@@ -85,63 +92,75 @@ where
     }
 
     #[inline]
-    fn decode_u8(self) -> Result<u8, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_u8(mut self) -> Result<u8, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_u16(self) -> Result<u16, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_u16(mut self) -> Result<u16, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_u32(self) -> Result<u32, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_u32(mut self) -> Result<u32, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_u64(self) -> Result<u64, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_u64(mut self) -> Result<u64, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_u128(self) -> Result<u128, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_u128(mut self) -> Result<u128, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_i8(self) -> Result<i8, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_i8(mut self) -> Result<i8, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_i16(self) -> Result<i16, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_i16(mut self) -> Result<i16, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_i32(self) -> Result<i32, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_i32(mut self) -> Result<i32, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_i64(self) -> Result<i64, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_i64(mut self) -> Result<i64, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_i128(self) -> Result<i128, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_i128(mut self) -> Result<i128, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_usize(self) -> Result<usize, Self::Error> {
-        self.decode_escaped_bytes(KeyUnsignedVisitor::new())
+    fn decode_usize(mut self) -> Result<usize, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeyUnsignedVisitor::new(start))
     }
 
     #[inline]
-    fn decode_isize(self) -> Result<isize, Self::Error> {
-        self.decode_escaped_bytes(KeySignedVisitor::new())
+    fn decode_isize(mut self) -> Result<isize, Self::Error> {
+        let start = self.start();
+        self.decode_escaped_bytes(KeySignedVisitor::new(start))
     }
 
     #[inline]
diff --git a/crates/musli/src/json/de/key_signed_visitor.rs b/crates/musli/src/json/de/key_signed_visitor.rs
index c3c13d9..2293edf 100644
--- a/crates/musli/src/json/de/key_signed_visitor.rs
+++ b/crates/musli/src/json/de/key_signed_visitor.rs
@@ -9,21 +9,24 @@ use crate::Context;
 
 use super::parse_signed;
 
-pub(crate) struct KeySignedVisitor<T> {
+pub(crate) struct KeySignedVisitor<M, T> {
+    // The start of the key.
+    start: M,
     _marker: marker::PhantomData<T>,
 }
 
-impl<T> KeySignedVisitor<T> {
+impl<M, T> KeySignedVisitor<M, T> {
     #[inline]
-    pub(super) const fn new() -> Self {
+    pub(super) const fn new(start: M) -> Self {
         Self {
+            start,
             _marker: marker::PhantomData,
         }
     }
 }
 
 #[crate::de::unsized_visitor(crate)]
-impl<C, T> UnsizedVisitor<'_, C, [u8]> for KeySignedVisitor<T>
+impl<C, T> UnsizedVisitor<'_, C, [u8]> for KeySignedVisitor<C::Mark, T>
 where
     C: Context,
     T: Signed,
@@ -37,14 +40,19 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        let start = cx.mark();
+        // NB: the key has already been read, so what is parsed here must not
+        // be counted again.
+        let end = cx.mark();
+        cx.restore(&self.start);
+
         let mut parser = SliceParser::new(bytes);
         let value = parse_signed(cx, &mut parser)?;
 
         if !parser.remaining().is_empty() {
-            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+            return Err(cx.message_at(&self.start, IntegerError::InvalidNumeric));
         }
 
+        cx.restore(&end);
         Ok(value)
     }
 }
diff --git a/crates/musli/src/json/de/key_unsigned_visitor.rs b/crates/musli/src/json/de/key_unsigned_visitor.rs
index 062ad93..44dee68 100644
--- a/crates/musli/src/json/de/key_unsigned_visitor.rs
+++ b/crates/musli/src/json/de/key_unsigned_visitor.rs
@@ -9,20 +9,23 @@ use crate::Context;
 
 use super::parse_unsigned;
 
-pub(crate) struct KeyUnsignedVisitor<T> {
+pub(crate) struct KeyUnsignedVisitor<M, T> {
+    // The start of the key.
+    start: M,
     _marker: marker::PhantomData<T>,
 }
 
-impl<T> KeyUnsignedVisitor<T> {
-    pub(super) const fn new() -> Self {
+impl<M, T> KeyUnsignedVisitor<M, T> {
+    pub(super) const fn new(start: M) -> Self {
         Self {
+            start,
             _marker: marker::PhantomData,
         }
     }
 }
 
 #[crate::de::unsized_visitor(crate)]
-impl<C, T> UnsizedVisitor<'_, C, [u8]> for KeyUnsignedVisitor<T>
+impl<C, T> UnsizedVisitor<'_, C, [u8]> for KeyUnsignedVisitor<C::Mark, T>
 where
     C: Context,
     T: Unsigned,
@@ -36,14 +39,19 @@ where
 
     #[inline]
     fn visit_ref(self, cx: C, bytes: &[u8]) -> Result<Self::Ok, C::Error> {
-        let start = cx.mark();
+        // NB: the key has already been read, so what is parsed here must not
+        // be counted again.
+        let end = cx.mark();
+        cx.restore(&self.start);
+
         let mut parser = SliceParser::new(bytes);
         let value = parse_unsigned(cx, &mut parser)?;
 
         if !parser.remaining().is_empty() {
-            return Err(cx.message_at(&start, IntegerError::InvalidNumeric));
+            return Err(cx.message_at(&self.start, IntegerError::InvalidNumeric));
         }
 
+        cx.restore(&end);
         Ok(value)
     }
 }
-- 
2.43.0


From 45480176c10b75468b14815d6219a4ee4407a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 67/80] fix: report a missing field inside of the type it is
 missing from

---
 crates/musli-macros/src/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index 809e418..ca7551d 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1112,6 +1112,7 @@ fn decode_tagged(
         ..
     } = b.tokens;
 
+    let output_var = b.cx.ident("output");
     let struct_decoder_var = b.cx.ident("struct_decoder");
     let struct_hint_static = b.cx.ident("STRUCT_HINT");
     let type_decoder_var = b.cx.ident("type_decoder");
@@ -1366,8 +1367,9 @@ fn decode_tagged(
                 #body
             }
 
+            let #output_var = #path { #(#assigns,)* };
             #leave
-            #result::Ok(#path { #(#assigns,)* })
+            #result::Ok(#output_var)
         })?
     }})
 }
-- 
2.43.0


From 669c69f9262624ea14ad6f16659960be90048372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 68/80] fix: trace the fields of packed types when decoding
 them

---
 crates/musli-macros/src/de.rs | 40 ++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index ca7551d..f677735 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1449,27 +1449,58 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
     let output_var = b.cx.ident("output");
     let field_decoder = b.cx.ident("field_decoder");
 
+    let field_output_var = b.cx.ident("field_output");
+    let static_name_var = b.cx.ident("FIELD_NAME");
+    let static_name_type = st.name.ty();
+
     let mut assign = Vec::new();
 
     for f @ Field {
+        name,
         decode_path: (_, decode_path),
         member,
         ..
     } in st.unskipped_fields()
     {
         let field_decoder = &field_decoder;
+        let field_output_var = &field_output_var;
+
+        let enter = cx.trace.then(|| {
+            let formatted_tag = st.name.name_format(&static_name_var);
+
+            let (member, enter) = match member {
+                syn::Member::Named(name) => (
+                    syn::Lit::Str(syn::LitStr::new(&name.to_string(), name.span())),
+                    Ident::new("enter_named_field", Span::call_site()),
+                ),
+                syn::Member::Unnamed(index) => (
+                    syn::Lit::Int(syn::LitInt::from(Literal::u32_suffixed(index.index))),
+                    Ident::new("enter_unnamed_field", Span::call_site()),
+                ),
+            };
+
+            quote! {
+                static #static_name_var: #static_name_type = #name;
+                #context_t::#enter(#ctx_var, #member, #formatted_tag);
+            }
+        });
+
+        let leave = cx.trace.then(|| quote!(#context_t::leave_field(#ctx_var);));
 
         if let Some(init) = f.init_default(b) {
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
                 Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
 
-                            match #decoder_t::decode_option(#field_decoder)? {
+                            let #field_output_var = match #decoder_t::decode_option(#field_decoder)? {
                                 #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
                                 #option::None => #init,
-                            }
+                            };
+                            #leave
+                            #field_output_var
                         }
                     })
                 });
@@ -1480,8 +1511,11 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
                 move |ident: &syn::Ident, tokens: &mut TokenStream| {
                     tokens.extend(quote! {
                         #member: {
+                            #enter
                             let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-                            #decode_path(#field_decoder)?
+                            let #field_output_var = #decode_path(#field_decoder)?;
+                            #leave
+                            #field_output_var
                         }
                     })
                 },
-- 
2.43.0


From 80c912ecb3becc34d347e38f50c93192f663375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 69/80] fix: encode the right number of fields in variants
 which skip some of them

---
 crates/musli-macros/src/en.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index d939b31..070af7b 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -220,14 +220,16 @@ fn encode_default(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
             let decls = st.field_tests();
             let encoders = make_encoders(cx, b, st)?;
 
+            // NB: the hint of `self` can't be used here, since the body might be
+            // the one of a variant whose enum has a different size hint.
             let len = length_test(st.unskipped_fields());
-            let (build_hint, hint) = len.build_hint(b);
+            let (build_len, hint) = len.build_len(b);
 
             encode = quote! {{
-                #build_hint
+                #(#decls)*
+                #build_len
 
                 #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
-                    #(#decls)*
                     #(#encoders)*
                     #result::Ok(())
                 })?
@@ -777,6 +779,19 @@ impl ToTokens for LengthTest {
 }
 
 impl LengthTest {
+    /// Build the length from the field tests in scope.
+    fn build_len(&self, b: &Build<'_>) -> (TokenStream, syn::Ident) {
+        let len = &self.expressions;
+
+        match self.kind {
+            LengthTestKind::Static => self.build_hint(b),
+            LengthTestKind::Dynamic => {
+                let hint = b.cx.ident("hint");
+                (quote!(let #hint = #len;), hint)
+            }
+        }
+    }
+
     fn build_hint(&self, b: &Build<'_>) -> (TokenStream, syn::Ident) {
         let Tokens { map_hint, .. } = b.tokens;
 
-- 
2.43.0


From 84e1d4f0a2de3c896a945a00dfe0d15570f11592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 70/80] fix: trace the index of an array when decoding it

---
 crates/musli-core/src/impls/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/musli-core/src/impls/mod.rs b/crates/musli-core/src/impls/mod.rs
index 5807e9a..8970c44 100644
--- a/crates/musli-core/src/impls/mod.rs
+++ b/crates/musli-core/src/impls/mod.rs
@@ -252,7 +252,9 @@ where
             let mut array = crate::internal::FixedVec::new();
 
             while let Some(item) = seq.try_decode_next()? {
+                cx.enter_sequence_index(array.len());
                 array.try_push(item.decode()?).map_err(cx.map())?;
+                cx.leave_sequence_index();
             }
 
             if array.len() != N {
-- 
2.43.0


From 1518220167234541419765535c3fdd963824deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 71/80] fix: separate the types in the path of a transparent
 type

---
 crates/musli/src/context/trace.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 760da39..4259605 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -780,7 +780,8 @@ where
         for step in self.path {
             match step {
                 Step::Struct(name) => {
-                    if take(&mut has_field) {
+                    // NB: a type directly inside of another one is transparent.
+                    if take(&mut has_field) || take(&mut has_type) {
                         write!(f, " = ")?;
                     }
 
@@ -788,14 +789,16 @@ where
                     has_type = true;
                 }
                 Step::Enum(name) => {
-                    if take(&mut has_field) {
+                    // NB: a type directly inside of another one is transparent.
+                    if take(&mut has_field) || take(&mut has_type) {
                         write!(f, " = ")?;
                     }
 
                     write!(f, "{name}::")?;
                 }
                 Step::Variant(name) => {
-                    if take(&mut has_field) {
+                    // NB: a type directly inside of another one is transparent.
+                    if take(&mut has_field) || take(&mut has_type) {
                         write!(f, " = ")?;
                     }
 
-- 
2.43.0


From b64e7aae3ca0991bfa087ce4cfa46019696b8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 72/80] fix: do not count the bytes of a buffered pack as input

---
 crates/musli/src/value/de.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index bab651f..5873580 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -311,7 +311,11 @@ where
         F: FnOnce(&mut Self::DecodePack) -> Result<O, Self::Error>,
     {
         ensure!(self, hint, ExpectedPack(hint), Value::Bytes(pack) => {
-            f(&mut StorageDecoder::new(self.cx, SliceReader::new(pack)))
+            // The bytes of the pack are not part of the input.
+            let mark = self.cx.mark();
+            let ok = f(&mut StorageDecoder::new(self.cx, SliceReader::new(pack)))?;
+            self.cx.restore(&mark);
+            Ok(ok)
         })
     }
 
-- 
2.43.0


From 0a9362fbb0394d2e37cc7dbc5f777ddc3045aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 73/80] fix: encode names which are byte slices as bytes

---
 crates/musli-macros/src/en.rs              | 69 ++++++++++++++++++----
 crates/musli-macros/src/expander.rs        | 13 +++-
 crates/musli-macros/src/internals/build.rs |  3 -
 3 files changed, 71 insertions(+), 14 deletions(-)

diff --git a/crates/musli-macros/src/en.rs b/crates/musli-macros/src/en.rs
index 070af7b..7ea8ab4 100644
--- a/crates/musli-macros/src/en.rs
+++ b/crates/musli-macros/src/en.rs
@@ -297,7 +297,7 @@ fn make_encoders(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<Vec<Token
         ..
     } = b.tokens;
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = b.mode.encode_t_encode(st.name.field_encoding());
 
     let sequence_decoder_var = b.cx.ident("sequence_decoder");
     let pair_encoder_var = b.cx.ident("pair_encoder");
@@ -368,7 +368,7 @@ fn make_encoders(cx: Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<Vec<Token
 
                     #map_encoder_t::encode_entry_fn(#encoder_var, move |#pair_encoder_var| {
                         let #field_encoder_var = #entry_encoder_t::encode_key(#pair_encoder_var)?;
-                        #encode_t_encode(#field_name_expr, #field_encoder_var)?;
+                        #encode_name(#field_name_expr, #field_encoder_var)?;
                         let #value_encoder_var = #entry_encoder_t::encode_value(#pair_encoder_var)?;
                         #encode_path(#access, #value_encoder_var)?;
                         #result::Ok(())
@@ -521,7 +521,7 @@ fn encode_empty_variant(
     let Tokens { option, .. } = b.tokens;
 
     let name_type = en.name.ty();
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = b.mode.encode_t_encode(en.name.field_encoding());
     let name = &v.name;
 
     let name_static = b.cx.ident("NAME");
@@ -530,7 +530,7 @@ fn encode_empty_variant(
 
     let encode = quote! {{
         static #name_static: #name_type = #name;
-        #encode_t_encode(#name_expr, #encoder_var)?
+        #encode_name(#name_expr, #encoder_var)?
     }};
 
     let size_hint = quote!(#option::Some(1));
@@ -563,7 +563,7 @@ fn encode_tagged_variant(
     let encode = encode_default(cx.with_encoder(&data_encoder), b, &v.st)?;
     let size_hint = quote!(#option::Some(1));
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_name = b.mode.encode_t_encode(en.name.field_encoding());
     let name = &v.name;
     let name_type = en.name.ty();
 
@@ -572,7 +572,7 @@ fn encode_tagged_variant(
             let #tag_encoder = #variant_encoder_t::encode_tag(#variant_encoder)?;
             static #name_static: #name_type = #name;
 
-            #encode_t_encode(#name_expr, #tag_encoder)?;
+            #encode_name(#name_expr, #tag_encoder)?;
 
             let #data_encoder = #variant_encoder_t::encode_data(#variant_encoder)?;
             #encode;
@@ -607,6 +607,7 @@ fn encode_internal_variant(
 
     let tag_static = b.cx.ident("TAG");
     let name_static = b.cx.ident("NAME");
+    let encode_tag = encode_tag_entry(cx, b, en, tag, &tag_static, &name_static);
 
     let encode;
     let size_hint;
@@ -688,7 +689,7 @@ fn encode_internal_variant(
             #encoder_t::encode_map_fn(#encoder_var, #hint, move |#encoder_var| {
                 static #tag_static: #tag_type = #tag_value;
                 static #name_static: #name_type = #name;
-                #map_encoder_t::insert_entry(#encoder_var, #tag_static, #name_static)?;
+                #encode_tag
                 #inner_encode
                 #result::Ok(())
             })?
@@ -698,6 +699,45 @@ fn encode_internal_variant(
     Ok((encode, size_hint))
 }
 
+/// Encode the entry containing the tag of an enum.
+fn encode_tag_entry(
+    cx: Ctxt<'_>,
+    b: &Build<'_>,
+    en: &Enum<'_>,
+    tag: &Name<'_, syn::Expr>,
+    tag_static: &syn::Ident,
+    name_static: &syn::Ident,
+) -> TokenStream {
+    let encoder_var = cx.encoder_var;
+
+    let Tokens {
+        entry_encoder_t,
+        map_encoder_t,
+        result,
+        ..
+    } = b.tokens;
+
+    let encode_tag = b.mode.encode_t_encode(tag.field_encoding());
+    let encode_name = b.mode.encode_t_encode(en.name.field_encoding());
+
+    let pair_encoder_var = b.cx.ident("pair_encoder");
+    let tag_encoder = b.cx.ident("tag_encoder");
+    let name_encoder = b.cx.ident("name_encoder");
+
+    let tag_expr = tag.expr(tag_static.clone());
+    let name_expr = en.name.expr(name_static.clone());
+
+    quote! {
+        #map_encoder_t::encode_entry_fn(#encoder_var, move |#pair_encoder_var| {
+            let #tag_encoder = #entry_encoder_t::encode_key(#pair_encoder_var)?;
+            #encode_tag(#tag_expr, #tag_encoder)?;
+            let #name_encoder = #entry_encoder_t::encode_value(#pair_encoder_var)?;
+            #encode_name(#name_expr, #name_encoder)?;
+            #result::Ok(())
+        })?;
+    }
+}
+
 fn encode_adjacent_variant(
     cx: Ctxt<'_>,
     b: &Build<'_>,
@@ -717,7 +757,7 @@ fn encode_adjacent_variant(
         ..
     } = b.tokens;
 
-    let encode_t_encode = &b.encode_t_encode;
+    let encode_content = b.mode.encode_t_encode(content.field_encoding());
 
     let name = &v.name;
     let name_type = en.name.ty();
@@ -736,6 +776,15 @@ fn encode_adjacent_variant(
     let content_static_expr = content.expr(content_static.clone());
     let content_type = content.ty();
 
+    let encode_tag = encode_tag_entry(
+        cx.with_encoder(&adjacent_encoder_var),
+        b,
+        en,
+        tag,
+        &tag_static,
+        &name_static,
+    );
+
     let inner_encode = encode_default(cx, b, &v.st)?;
 
     let encode = quote! {{
@@ -746,11 +795,11 @@ fn encode_adjacent_variant(
             static #content_static: #content_type = #content_value;
             static #name_static: #name_type = #name;
 
-            #map_encoder_t::insert_entry(#adjacent_encoder_var, #tag_static, #name_static)?;
+            #encode_tag
 
             #map_encoder_t::encode_entry_fn(#adjacent_encoder_var, move |#pair_encoder_var| {
                 let #content_tag = #entry_encoder_t::encode_key(#pair_encoder_var)?;
-                #encode_t_encode(#content_static_expr, #content_tag)?;
+                #encode_content(#content_static_expr, #content_tag)?;
 
                 let #encoder_var = #entry_encoder_t::encode_value(#pair_encoder_var)?;
                 #inner_encode;
diff --git a/crates/musli-macros/src/expander.rs b/crates/musli-macros/src/expander.rs
index 5bc75f4..477846c 100644
--- a/crates/musli-macros/src/expander.rs
+++ b/crates/musli-macros/src/expander.rs
@@ -5,7 +5,7 @@ use proc_macro2::{Span, TokenStream};
 use syn::parse::{Parse, ParseStream};
 use syn::spanned::Spanned;
 
-use crate::internals::attr::{self, ModeIdent, ModeKind, TypeAttr};
+use crate::internals::attr::{self, FieldEncoding, ModeIdent, ModeKind, TypeAttr};
 use crate::internals::{Build, Ctxt, Expansion, Mode, NameAll, Only, Parameters, Result, Tokens};
 
 #[derive(Clone, Copy)]
@@ -50,6 +50,17 @@ impl<T> Name<'_, T> {
         }
     }
 
+    /// Names which are byte slices are decoded as bytes, so they have to be
+    /// encoded as such.
+    pub(crate) fn field_encoding(&self) -> FieldEncoding {
+        match (&self.method, &self.ty) {
+            (NameMethod::Unsized(UnsizedMethod::Bytes), syn::Type::Slice(..)) => {
+                FieldEncoding::Bytes
+            }
+            _ => FieldEncoding::Default,
+        }
+    }
+
     pub(crate) fn name_format(&self, value: &syn::Ident) -> syn::Expr {
         match self.format_with {
             Some((_, path)) => syn::parse_quote!(#path(&#value)),
diff --git a/crates/musli-macros/src/internals/build.rs b/crates/musli-macros/src/internals/build.rs
index 838805b..602dc07 100644
--- a/crates/musli-macros/src/internals/build.rs
+++ b/crates/musli-macros/src/internals/build.rs
@@ -32,7 +32,6 @@ pub(crate) struct Build<'a> {
     pub(crate) expansion: Expansion<'a>,
     pub(crate) data: BuildData<'a>,
     pub(crate) decode_t_decode: ImportedMethod<'a>,
-    pub(crate) encode_t_encode: ImportedMethod<'a>,
     pub(crate) enum_tag: Option<Span>,
     pub(crate) enum_content: Option<Span>,
     pub(crate) tokens: &'a Tokens<'a>,
@@ -376,7 +375,6 @@ pub(crate) fn setup<'a>(
     }
 
     let decode_t_decode = mode.decode_t_decode(FieldEncoding::Default, &p.allocator_ident);
-    let encode_t_encode = mode.encode_t_encode(FieldEncoding::Default);
 
     let bounds = e.type_attr.bounds(&mode);
     let decode_bounds = e.type_attr.decode_bounds(&mode);
@@ -392,7 +390,6 @@ pub(crate) fn setup<'a>(
         expansion,
         data,
         decode_t_decode,
-        encode_t_encode,
         enum_tag,
         enum_content,
         tokens,
-- 
2.43.0


From f2e1e2fc4466cc0eb4bce7eb2ca8a9a73c1ac430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 74/80] fix: tell the custom modes of a type apart

---
 crates/musli-macros/src/internals/attr.rs      | 9 +++++----
 crates/musli-macros/src/internals/expansion.rs | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/musli-macros/src/internals/attr.rs b/crates/musli-macros/src/internals/attr.rs
index bf8870f..3c52202 100644
--- a/crates/musli-macros/src/internals/attr.rs
+++ b/crates/musli-macros/src/internals/attr.rs
@@ -19,7 +19,8 @@ use super::{Ctxt, ImportedMethod, Mode, NameAll};
 pub(crate) enum ModeKind {
     Binary,
     Text,
-    Custom,
+    /// A custom mode, identified by its path.
+    Custom(String),
 }
 
 impl ModeKind {
@@ -27,7 +28,7 @@ impl ModeKind {
         match self {
             ModeKind::Binary => Some(NameAll::Index),
             ModeKind::Text => Some(NameAll::Name),
-            ModeKind::Custom => None,
+            ModeKind::Custom(..) => None,
         }
     }
 }
@@ -992,10 +993,10 @@ fn parse_mode(meta: &ParseNestedMeta<'_>) -> syn::Result<ModeIdent> {
         match s.as_str() {
             "Binary" => ModeKind::Binary,
             "Text" => ModeKind::Text,
-            _ => ModeKind::Custom,
+            _ => ModeKind::Custom(s),
         }
     } else {
-        ModeKind::Custom
+        ModeKind::Custom(path.to_token_stream().to_string())
     };
 
     Ok(ModeIdent { path, kind })
diff --git a/crates/musli-macros/src/internals/expansion.rs b/crates/musli-macros/src/internals/expansion.rs
index 02fe3bd..da47fda 100644
--- a/crates/musli-macros/src/internals/expansion.rs
+++ b/crates/musli-macros/src/internals/expansion.rs
@@ -26,7 +26,7 @@ impl<'a> Expansion<'a> {
 
     pub(crate) fn mode_path(&self, tokens: &Tokens<'a>) -> ModePath<'a> {
         match &self.mode_ident.kind {
-            ModeKind::Custom => ModePath::Ident(&self.mode_ident.path),
+            ModeKind::Custom(..) => ModePath::Ident(&self.mode_ident.path),
             _ => ModePath::Musli(tokens.prefix, &self.mode_ident.path),
         }
     }
-- 
2.43.0


From c3bf1e30679e65a3a015d82a014c71bdd89d8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 75/80] fix: keep the context borrowed for as long as a
 reported error is held

---
 crates/musli/src/context/trace.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/context/trace.rs b/crates/musli/src/context/trace.rs
index 4259605..c49a4f0 100644
--- a/crates/musli/src/context/trace.rs
+++ b/crates/musli/src/context/trace.rs
@@ -663,7 +663,13 @@ where
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
         let (range, error) = self.errors.next()?;
-        Some(Error::new(self.path, self.cap, range.clone(), error))
+        Some(Error::new(
+            self.path,
+            self.cap,
+            range.clone(),
+            error,
+            self._access.clone(),
+        ))
     }
 }
 
@@ -691,6 +697,8 @@ where
     cap: usize,
     range: Range<usize>,
     error: &'a str,
+    // NB: the error might outlive the iterator it came from.
+    _access: Shared<'a>,
 }
 
 impl<'a, A> Error<'a, A>
@@ -698,12 +706,19 @@ where
     A: Allocator,
 {
     #[inline]
-    fn new(path: &'a [Step<A>], cap: usize, range: Range<usize>, error: &'a str) -> Self {
+    fn new(
+        path: &'a [Step<A>],
+        cap: usize,
+        range: Range<usize>,
+        error: &'a str,
+        access: Shared<'a>,
+    ) -> Self {
         Self {
             path,
             cap,
             range,
             error,
+            _access: access,
         }
     }
 }
-- 
2.43.0


From 22221ec6ed7d826e1d64a22ea82eb8f26a6ae667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:29 +0000
Subject: [PATCH 76/80] fix: drop a captured error only once when dropping it
 uses the context

---
 crates/musli/src/context/capture.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/musli/src/context/capture.rs b/crates/musli/src/context/capture.rs
index 708ca69..556523d 100644
--- a/crates/musli/src/context/capture.rs
+++ b/crates/musli/src/context/capture.rs
@@ -180,9 +180,10 @@ where
     fn clear(&self) {
         // SAFETY: We're restricting access to the context, so that this is
         // safe.
-        unsafe {
-            (*self.error.get()) = None;
-        }
+        let old = unsafe { (*self.error.get()).take() };
+
+        // NB: dropping the error might use this context.
+        drop(old);
     }
 
     #[inline]
@@ -190,12 +191,14 @@ where
     where
         T: fmt::Display,
     {
+        let error = E::message(alloc, message);
+
         // SAFETY: We're restricting access to the context, so that this is
         // safe.
-        unsafe {
-            (*self.error.get()) = Some(E::message(alloc, message));
-        }
+        let old = unsafe { (*self.error.get()).replace(error) };
 
+        // NB: dropping the error might use this context.
+        drop(old);
         ErrorMarker
     }
 
@@ -204,12 +207,14 @@ where
     where
         T: 'static + Send + Sync + Error,
     {
+        let error = E::custom(alloc, error);
+
         // SAFETY: We're restricting access to the context, so that this is
         // safe.
-        unsafe {
-            (*self.error.get()) = Some(E::custom(alloc, error));
-        }
+        let old = unsafe { (*self.error.get()).replace(error) };
 
+        // NB: dropping the error might use this context.
+        drop(old);
         ErrorMarker
     }
 }
-- 
2.43.0


From c96756bd107f38bfbe9d97f28818691fb85e4b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:14 +0000
Subject: [PATCH 77/80] fix: do not ask for the allocator of a derived type to
 be decodable

---
 crates/musli-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index f677735..de72840 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -113,6 +113,11 @@ pub(crate) fn expand_decode_entry(b: &Build<'_>) -> Result<TokenStream> {
             continue;
         }
 
+        // NB: the allocator is not something which is being decoded.
+        if b.p.allocator_exists && t.ident == *allocator_ident {
+            continue;
+        }
+
         let mut bounds = Punctuated::new();
         bounds.push(syn::parse_quote!(#decode_t<#lt, #mode_ident, #allocator_ident>));
 
-- 
2.43.0


From 9e37b725ee4314ec79df88208619aa83df2dc218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 78/80] fix: keep that a value is a map key when its decoder is
 cloned

---
 crates/musli/src/value/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/musli/src/value/de.rs b/crates/musli/src/value/de.rs
index 5873580..99b0c72 100644
--- a/crates/musli/src/value/de.rs
+++ b/crates/musli/src/value/de.rs
@@ -126,7 +126,12 @@ where
 
     #[inline]
     fn try_clone(&self) -> Option<Self::TryClone> {
-        Some(ValueDecoder::new(self.cx, self.value))
+        Some(Self {
+            cx: self.cx,
+            value: self.value,
+            map_key: self.map_key,
+            _marker: PhantomData,
+        })
     }
 
     #[inline]
-- 
2.43.0


From 66131317b9f2858743aaf01d2e8089540da72a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:20 +0000
Subject: [PATCH 79/80] fix: storage: hand over the entries which remain in a
 map

---
 crates/musli/src/storage/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/musli/src/storage/de.rs b/crates/musli/src/storage/de.rs
index b31d326..5780910 100644
--- a/crates/musli/src/storage/de.rs
+++ b/crates/musli/src/storage/de.rs
@@ -1,6 +1,6 @@
 use core::fmt;
 use core::marker::PhantomData;
-use core::mem::MaybeUninit;
+use core::mem::{take, MaybeUninit};
 
 use crate::alloc::Vec;
 use crate::de::{
@@ -579,7 +579,7 @@ where
         Ok(LimitedStorageDecoder::with_remaining(
             self.cx,
             self.reader.borrow_mut(),
-            self.remaining,
+            take(&mut self.remaining),
         ))
     }
 }
-- 
2.43.0


From 5d246ac7738801274d0c3496e611e57cab54e61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:32 +0000
Subject: [PATCH 80/80] fix: macros: leave skipped fields out of packed types
 when decoding

---
 crates/musli-macros/src/de.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/crates/musli-macros/src/de.rs b/crates/musli-macros/src/de.rs
index de72840..7cab008 100644
--- a/crates/musli-macros/src/de.rs
+++ b/crates/musli-macros/src/de.rs
@@ -1446,7 +1446,6 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         context_t,
         decoder_t,
         pack_decoder_t,
-        option,
         ..
     } = b.tokens;
 
@@ -1465,7 +1464,7 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         decode_path: (_, decode_path),
         member,
         ..
-    } in st.unskipped_fields()
+    } in &st.all_fields
     {
         let field_decoder = &field_decoder;
         let field_output_var = &field_output_var;
@@ -1493,21 +1492,10 @@ fn decode_packed(cx: &Ctxt<'_>, b: &Build<'_>, st: &Body<'_>) -> Result<TokenStr
         let leave = cx.trace.then(|| quote!(#context_t::leave_field(#ctx_var);));
 
         if let Some(init) = f.init_default(b) {
+            // NB: Skipped fields are not part of the pack.
             let value: Box<dyn Fn(&syn::Ident, &mut TokenStream)> =
-                Box::new(move |ident: &syn::Ident, tokens: &mut TokenStream| {
-                    tokens.extend(quote! {
-                        #member: {
-                            #enter
-                            let #field_decoder = #pack_decoder_t::decode_next(#ident)?;
-
-                            let #field_output_var = match #decoder_t::decode_option(#field_decoder)? {
-                                #option::Some(#field_decoder) => #decode_path(#field_decoder)?,
-                                #option::None => #init,
-                            };
-                            #leave
-                            #field_output_var
-                        }
-                    })
+                Box::new(move |_: &syn::Ident, tokens: &mut TokenStream| {
+                    tokens.extend(quote!(#member: #init))
                 });
 
             assign.push(value);
-- 
2.43.0

