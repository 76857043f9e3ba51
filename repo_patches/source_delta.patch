From 3b85c05d05a93c21470d78756658d7fb81db3852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 01/31] fix: i64 values outside the short range were truncated
 to 16 bits

The range test for shorts was always true, and the size was derived from
trailing instead of leading bits.
---
 src/encoder/encodable.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index ced817f..155f8a6 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -31,7 +31,7 @@ impl Encodable for i64 {
     #[allow(clippy::cast_possible_truncation)]
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
         // If this is small enough, store it as a short
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             #[allow(clippy::cast_possible_truncation)]
             return (*self as i16).write_fleece_to(buf, is_wide);
         }
@@ -46,18 +46,22 @@ impl Encodable for i64 {
     }
 
     fn fleece_size(&self) -> usize {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             return 2;
         }
-        if *self >= 0 {
-            8 - self.trailing_zeros() as usize + 1
+        // One bit more than the significant bits has to be kept, so that the sign can be extended
+        // when the value is read.
+        let significant_bits = if *self >= 0 {
+            64 - self.leading_zeros() as usize
         } else {
-            8 - self.trailing_ones() as usize + 1
-        }
+            64 - self.leading_ones() as usize
+        };
+        let byte_count = significant_bits / 8 + 1;
+        1 + byte_count
     }
     #[allow(clippy::cast_possible_truncation)]
     fn to_sized_value(&self) -> Option<SizedValue> {
-        if *self <= 2047 || *self >= -2048 {
+        if *self <= 2047 && *self >= -2048 {
             (*self as i16).to_sized_value()
         } else {
             None
-- 
2.43.0


From 2fa529ead2d778d3219ec05ce377a2817bdd2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 02/31] fix: u64 encoding dropped significant bytes of values
 with trailing zero bits

The size was derived from the trailing zeros, but the low bytes are the
ones written.
---
 src/encoder/encodable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 155f8a6..409eaba 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -92,8 +92,8 @@ impl Encodable for u64 {
         if *self <= 2047 {
             2
         } else {
-            let trailing_zeros = (self.trailing_zeros() + 7) / 8;
-            8 - trailing_zeros as usize + 1
+            let unused_bytes = self.leading_zeros() / 8;
+            8 - unused_bytes as usize + 1
         }
     }
 
-- 
2.43.0


From 9f0785e5ab3b9c8646fba4db66be4bf971dddc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 03/31] fix: u16/i16 values outside the short range reported
 the wrong encoded size

write_value panicked for them, because write_fleece_to writes them as an int.
---
 src/encoder/encodable.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 409eaba..f282478 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -247,6 +247,10 @@ impl Encodable for u16 {
     }
 
     fn fleece_size(&self) -> usize {
+        // Anything which doesn't fit in 12 bits is written as an int
+        if *self > 2047 {
+            return u64::from(*self).fleece_size();
+        }
         2
     }
 
@@ -274,6 +278,10 @@ impl Encodable for i16 {
     }
 
     fn fleece_size(&self) -> usize {
+        // Anything which doesn't fit in 12 bits is written as an int
+        if *self > 2047 || *self < -2048 {
+            return i64::from(*self).fleece_size();
+        }
         2
     }
 
-- 
2.43.0


From bbb8c7488fab5b675ead6c4487f88112fa662361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 04/31] fix: negative ints stored in fewer than 8 bytes were
 read as positive

---
 src/value/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 080b457..d3e1234 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -266,7 +266,10 @@ impl Value {
             ValueType::Short => i64::from(self.to_short()),
             ValueType::Int | ValueType::UnsignedInt => {
                 let count = (self.bytes[0] & 0x07) as usize + 1;
-                let mut buf = [0u8; 8];
+                // Signed ints are sign-extended from the highest byte which was stored
+                let is_negative = self.value_type() == ValueType::Int
+                    && self.bytes.get(count).is_some_and(|b| b & 0x80 != 0);
+                let mut buf = [if is_negative { 0xFF } else { 0u8 }; 8];
                 unsafe {
                     core::ptr::copy_nonoverlapping(
                         self.bytes[1..].as_ptr(),
-- 
2.43.0


From 7a1bedf44cb79d344972fd836362724037d54ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:17 +0000
Subject: [PATCH 05/31] fix: inline strings and data were written with their
 type tag cleared

The 0x40 bit is the external flag for pointers only, for other values it
is a part of the type tag.
---
 src/encoder/encodable.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index f282478..84bf041 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -620,7 +620,6 @@ impl Encodable for SizedValue {
                 return None;
             }
             buf[0..2].copy_from_slice(&self.as_bytes()[..2]);
-            buf[0] &= 0xBF;
             unsafe { Some(NonZeroUsize::new_unchecked(2)) }
         }
     }
-- 
2.43.0


From 33b1bf3ea616c743ed8f8eb3fe7b1482fbf41ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:10 +0000
Subject: [PATCH 06/31] fix: varint::read overflowed on varints longer than 10
 bytes

The shift exceeded 63, which panics, and a 10th byte too large for a u64 was
silently truncated.
---
 src/value/varint.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/value/varint.rs b/src/value/varint.rs
index d0ed50c..c9c1813 100644
--- a/src/value/varint.rs
+++ b/src/value/varint.rs
@@ -12,18 +12,18 @@ pub fn read(data: &[u8]) -> (usize, u64) {
 
     let mut shift: usize = 7;
     let mut res = u64::from(data[0] & 0x7F);
-    let end: usize = data.len().min(MAX_LEN + 1);
+    let end: usize = data.len().min(MAX_LEN);
 
     for (i, byte) in data[1..end].iter().enumerate() {
         if *byte >= 0x80 {
             res |= u64::from(*byte & 0x7F) << shift;
             shift += 7;
         } else {
-            res |= u64::from(*byte) << shift;
-            // Make sure the varint is below the max length
-            if i == MAX_LEN && *byte > 1 {
+            // The last byte of a varint with the max length only has room for a single bit
+            if i + 2 == MAX_LEN && *byte > 1 {
                 return (0, 0);
             }
+            res |= u64::from(*byte) << shift;
             return (i + 2, res);
         }
     }
-- 
2.43.0


From 3015fc5be5b6c753681859b7473a152cda0da737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 07/31] fix: from_bytes panicked on strings and data longer
 than the input

The size of a String or Data is now read from its header alone, and compared
with the bytes which are available to that value. The latter also covers
values behind several pointers, which were checked against the outermost
pointer, and so could still be too short to be read.
---
 src/value/mod.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index d3e1234..2feb3b7 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -390,15 +390,13 @@ impl Value {
             _ => {
                 // We don't need to validate that array elements fit within the data, as
                 // Array::validate already does that. This improves benchmark performance by ~15%.
-                if IS_ARR_ELEM
-                    || self.bytes.as_ptr() as usize + self.required_size() <= data_end as usize
-                {
+                if IS_ARR_ELEM || self.required_size() <= self.bytes.len() {
                     Ok(())
                 } else {
                     Err(DecodeError::ValueOutOfBounds {
                         value_type: self.value_type(),
                         required_size: self.required_size(),
-                        available_size: data_end as usize - self.bytes.as_ptr() as usize,
+                        available_size: self.bytes.len(),
                     })
                 }
             }
@@ -419,13 +417,9 @@ impl Value {
             ValueType::UnsignedInt | ValueType::Int => 2 + (self.bytes[0] & 0x07) as usize,
             ValueType::Float | ValueType::Double32 => 6,
             ValueType::Double64 => 10,
+            // If the size cannot be read, the value doesn't fit in any amount of data
             ValueType::String | ValueType::Data => {
-                let len = self._get_data().len();
-                match len {
-                    0 | 1 => 2,
-                    2..=0x0E => 1 + len,
-                    _ => 1 + varint::size_required(len as u64) + len,
-                }
+                self._data_range().map_or(usize::MAX, |r| r.end.max(2))
             }
             // TODO: This is not correct for MutableArray / MutableDict
             ValueType::Array | ValueType::Dict => 2,
@@ -510,26 +504,33 @@ impl Value {
         u16::from_be_bytes(buf)
     }
 
-    fn _get_data(&self) -> &[u8] {
+    // The range of `bytes` which the header of a String or Data says that its content takes up.
+    // This range can be out of bounds, if the value has not been validated.
+    fn _data_range(&self) -> Option<core::ops::Range<usize>> {
         if self.bytes.len() < 2 {
-            return &[];
+            return None;
         }
         let inline_size = self.bytes[0] & 0x0F;
         if inline_size == 0x0F {
             // varint
             let (bytes_read, size) = varint::read(&self.bytes[1..]);
             if bytes_read == 0 {
-                return &[];
+                return None;
             }
-            #[allow(clippy::cast_possible_truncation)]
-            let end = 1 + bytes_read + size as usize;
-            &self.bytes[1 + bytes_read..end]
+            let start = 1 + bytes_read;
+            let end = start.checked_add(usize::try_from(size).ok()?)?;
+            Some(start..end)
         } else {
-            let end = 1 + inline_size as usize;
-            &self.bytes[1..end]
+            Some(1..1 + inline_size as usize)
         }
     }
 
+    fn _get_data(&self) -> &[u8] {
+        self._data_range()
+            .and_then(|range| self.bytes.get(range))
+            .unwrap_or(&[])
+    }
+
     #[must_use]
     pub fn null() -> &'static Value {
         unsafe { core::mem::transmute(&constants::NULL[0..2]) }
-- 
2.43.0


From fddbe45ef9df64a9275d11986d8b867ed468d949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 08/31] fix: from_bytes panicked on external pointers

They are now a decode error, like any other pointer which leaves the data.
---
 src/value/pointer.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/value/pointer.rs b/src/value/pointer.rs
index 679bf05..bb0748f 100644
--- a/src/value/pointer.rs
+++ b/src/value/pointer.rs
@@ -32,23 +32,20 @@ impl Pointer {
             return Err(DecodeError::PointerOffsetZero);
         }
 
-        // First get the pointer given by offset, so we can validate before de-referencing
-        #[allow(clippy::cast_possible_wrap)]
-        let target_ptr = unsafe { self.offset(-(offset as isize)) };
-
-        // Is this pointer external to the source data?
-        if self.value.bytes[0] & 0x40 != 0 {
-            // return resolve_external_pointer(target_ptr, data_start, data_end);
-            unimplemented!()
-            // If the pointer isn't external, it should fit within the source data
-        } else if target_ptr < data_start {
+        // Pointers which are external to the source data are not supported. Any other pointer should
+        // point to a target within the source data.
+        let is_external = self.value.bytes[0] & 0x40 != 0;
+        let available = (self.value.bytes.as_ptr() as usize).saturating_sub(data_start as usize);
+        if is_external || offset as usize > available {
             return Err(DecodeError::PointerTargetOutOfBounds {
                 data_start: data_start as usize,
-                target: target_ptr as usize,
+                target: (self.value.bytes.as_ptr() as usize).wrapping_sub(offset as usize),
                 offset,
             });
         }
 
+        #[allow(clippy::cast_possible_wrap)]
+        let target_ptr = unsafe { self.offset(-(offset as isize)) };
         let target = unsafe { Value::_from_raw_unchecked(target_ptr, offset as usize) };
 
         if target.value_type() == ValueType::Pointer {
-- 
2.43.0


From ff3d7dce33e966195ed28620c54be568c1385bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 09/31] fix: array bounds check overflowed for huge element
 counts

The count, which is read from the input, was multiplied before it was compared,
which panics or (in release) wraps and lets the array pass.
---
 src/value/array.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 03a39a8..8efac28 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -130,7 +130,7 @@ impl Array {
             if read == 0 {
                 0
             } else if self.value.value_type() == ValueType::Dict {
-                size as usize * 2
+                (size as usize).saturating_mul(2)
             } else {
                 size as usize
             }
@@ -182,8 +182,8 @@ impl Array {
         let elem_count = self.len();
 
         let first = unsafe { self.value.bytes.as_ptr().add(self.first_pos()) };
-        if (first as usize) + (elem_count * width) > (data_end as usize) {
-            let available_size = data_end as usize - first as usize;
+        let available_size = (data_end as usize).saturating_sub(first as usize);
+        if elem_count > available_size / width {
             return Err(DecodeError::ArrayOutOfBounds {
                 count: elem_count,
                 width,
-- 
2.43.0


From 5213dd51bd64751717ea1917ac01bc94b5dd2725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 10/31] fix: Array::get(len) read one element past the end of
 the array

---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 8efac28..68ac60c 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -62,7 +62,7 @@ impl Array {
 
     #[must_use]
     pub fn get(&self, index: usize) -> Option<&Value> {
-        if index > self.len() {
+        if index >= self.len() {
             return None;
         }
 
-- 
2.43.0


From c848ed2925d0c23fc7ef54ed51797337ae24b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 11/31] fix: Dict::get panicked on validated data with
 non-string or empty keys

---
 src/value/mod.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 2feb3b7..00555a2 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -429,10 +429,6 @@ impl Value {
     }
 
     pub(crate) fn dict_key_cmp(value1: &dict::Key, value2: &Self, is_wide: bool) -> Ordering {
-        debug_assert!(matches!(
-            value2.value_type(),
-            ValueType::String | ValueType::Pointer | ValueType::Short
-        ));
         let value_type2 = value2.value_type();
         match (value1, value_type2) {
             // Inline strings
@@ -444,7 +440,6 @@ impl Value {
                         .deref_unchecked(is_wide)
                         .to_str()
                 };
-                debug_assert_ne!(val2, "", "value2 is not a pointer to a string!");
                 (*key).cmp(val2)
             }
             // SharedKeys
@@ -452,7 +447,9 @@ impl Value {
             // SharedKeys are sorted first in the dict
             (dict::Key::Shared(_), _) => Ordering::Less,
             (_, ValueType::Short) => Ordering::Greater,
-            _ => unreachable!(),
+            // The data may have keys which are not strings. They don't have a string, so they compare
+            // like an empty one.
+            (dict::Key::String(key), _) => (*key).cmp(value2.to_str()),
         }
     }
 
-- 
2.43.0


From da6d975b75cd3436ed7fd07f1c8ee2e62208ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:36 +0000
Subject: [PATCH 12/31] fix: Dict::get missed inline keys which are also in the
 shared keys

---
 src/value/dict.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 55628e9..76a28b0 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -90,9 +90,7 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), None);
-
-        self._get(&key)
+        self._get_encoded(key.borrow(), None)
     }
 
     /// The same as [`Dict::get`], but may be more efficient as the caller provides
@@ -101,9 +99,17 @@ impl Dict {
     where
         R: ?Sized + Borrow<str>,
     {
-        let key = self.encode_key(key.borrow(), Some(shared_keys));
+        self._get_encoded(key.borrow(), Some(shared_keys))
+    }
 
-        self._get(&key)
+    fn _get_encoded(&self, key: &str, shared_keys: Option<&SharedKeys>) -> Option<&Value> {
+        let encoded = self.encode_key(key, shared_keys);
+        match self._get(&encoded) {
+            // A key which is in the shared keys may still have been written to this dict as a string,
+            // the encoder does so if it's small enough to be inlined.
+            None if matches!(encoded, Key::Shared(_)) => self._get(&Key::String(key)),
+            found => found,
+        }
     }
 
     /// Get the value in this Dict which corresponds to the given encoded key. The key should be
-- 
2.43.0


From de8863f934244dffa85543b7d3614570de2bf51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 13/31] fix: narrow collections were written with pointers too
 large for them

Whether a collection has to be wide was decided on pointer offsets which left
out the header and the preceding elements (and, for dict keys, on the position of
the key instead of its offset), so some pointers outgrew their 2-byte slot.
---
 src/encoder/mod.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 224b337..8289bc3 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -245,14 +245,14 @@ impl Encoder {
             unreachable!()
         };
 
+        dict.values
+            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
+
         let is_wide = self._dict_should_be_wide(&dict);
 
         // Write the Dict header via `Encodable` trait
         let offset = self._write(&dict, is_wide, true);
 
-        dict.values
-            .sort_unstable_by(|elem1, elem2| Encoder::dict_key_cmp(&elem1.key, &elem2.key));
-
         self._fix_dict_pointers(&mut dict, is_wide);
 
         for elem in &dict.values {
@@ -422,29 +422,40 @@ impl Encoder {
         self.out.len() as u32 - offset_from_start
     }
 
+    // The length of the output once the collection header has been written, which is where its
+    // first element goes.
+    fn _len_with_header<T: Encodable>(&self, header: &T) -> usize {
+        let len = self.out.len() + header.fleece_size();
+        len + len % 2
+    }
+
     fn _array_should_be_wide(&self, array: &value_stack::Array) -> bool {
+        // The position each element has if the array is narrow. Pointers are relative to that.
+        let mut len = self._len_with_header(array);
         for v in &array.values {
             if v.value_type() == ValueType::Pointer
-                && v.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && v.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
+            len += 2;
         }
         false
     }
 
-    // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide
+    // Only Pointer might require more than 2 bytes, if any do then the whole dict needs to be wide.
+    // The elements must already be in the order they will be written.
     fn _dict_should_be_wide(&self, dict: &value_stack::Dict) -> bool {
-        let mut len = self.out.len();
+        let mut len = self._len_with_header(dict);
         for elem in &dict.values {
             if let DictKey::Pointer(_, offset) = &elem.key {
-                let offset = len - *offset as usize;
-                if len - offset > pointer::MAX_NARROW as usize {
+                if len - *offset as usize > pointer::MAX_NARROW as usize {
                     return true;
                 }
             }
+            len += 2;
             if elem.val.value_type() == ValueType::Pointer
-                && elem.val.actual_pointer_offset(self.out.len()) > u32::from(pointer::MAX_NARROW)
+                && elem.val.actual_pointer_offset(len) > u32::from(pointer::MAX_NARROW)
             {
                 return true;
             }
-- 
2.43.0


From b1d3feed79d00f31f0247cfe0b284c30acac4310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 14/31] fix: end_array discarded the open dict which made it
 fail

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 8289bc3..6e60332 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -196,8 +196,12 @@ impl Encoder {
     /// - If there is no open collection.
     /// - If the top open collection is not an Array.
     pub fn end_array(&mut self) -> Result<()> {
-        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+        // Can only end an array if the top collection is an array. Don't pop any other collection.
+        if !matches!(self.collection_stack.top(), Some(Collection::Array(_))) {
             return Err(EncodeError::ArrayNotOpen);
+        }
+        let Some(Collection::Array(mut array)) = self.collection_stack.pop() else {
+            unreachable!()
         };
         let is_wide = self._array_should_be_wide(&array);
 
-- 
2.43.0


From f557544d09ecb6c6f2424b564d507288ba8525d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 15/31] fix: a rejected write_key appended bytes after the root
 of a finished document

---
 src/encoder/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 6e60332..2e51ca7 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -382,6 +382,13 @@ impl Encoder {
     }
 
     fn _write_key_pointer(&mut self, key: &str) -> Result<()> {
+        // Nothing may be written to the output unless there is a dict which can take the key. Bytes which
+        // follow a finished document would hide its root.
+        match self.collection_stack.top() {
+            Some(Collection::Dict(dict)) if dict.next_key.is_none() => {}
+            Some(Collection::Dict(_)) => return Err(EncodeError::DictWaitingForValue),
+            _ => return Err(EncodeError::DictNotOpen),
+        }
         // If we don't have shared keys, write the key to the output buffer and add a pointer to it in the Dict
         let offset = self._write(key, false, false);
         let Some(Collection::Dict(dict)) = self.collection_stack.top_mut() else {
-- 
2.43.0


From b36ca225e78a19496db19e7765173938b202c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 16/31] fix: begin_dict on a finished document reported that no
 collection is open

begin_array reports MultiTopLevelCollection, and so should begin_dict.
---
 src/encoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 2e51ca7..3198ebe 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -224,7 +224,7 @@ impl Encoder {
     /// - If the top-level collection is already closed.
     pub fn begin_dict(&mut self) -> Result<()> {
         if self.top_collection_closed {
-            return Err(EncodeError::CollectionNotOpen);
+            return Err(EncodeError::MultiTopLevelCollection);
         }
         self.collection_stack.push_dict()
     }
-- 
2.43.0


From 0a6d3c9a9469a44d640e89151e1311f6e7959ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:10 +0000
Subject: [PATCH 17/31] fix: pointers were cut off if new_to_vec was given a
 vec with an odd length

---
 src/encoder/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/encoder/mod.rs b/src/encoder/mod.rs
index 3198ebe..297476f 100644
--- a/src/encoder/mod.rs
+++ b/src/encoder/mod.rs
@@ -71,7 +71,11 @@ impl Encoder {
     }
 
     #[must_use]
-    pub fn new_to_vec(out: Vec<u8>) -> Self {
+    pub fn new_to_vec(mut out: Vec<u8>) -> Self {
+        // Values must be evenly aligned
+        if out.len() % 2 != 0 {
+            out.push(0);
+        }
         Self {
             out,
             shared_keys: None,
-- 
2.43.0


From 288a6c8be731e200afb9c055dbdc0c11905d70ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 18/31] fix: shared keys of 16 bytes were truncated to 15

Two of them which differ in their last byte got the same id, and a multi-byte
char at the end was cut into invalid UTF-8.
---
 src/shared_keys.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index c9d15bf..25c4837 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -5,7 +5,11 @@ use fixedstr::zstr;
 
 use crate::{Encoder, Value, ValueType};
 
-pub struct SharedKeys(folklore::HashMap<zstr<16>, u16>);
+// A `zstr` has a terminator, so it needs one byte more than the longest key. It would silently
+// truncate a longer one.
+const KEY_CAPACITY: usize = SharedKeys::MAX_KEY_LEN as usize + 1;
+
+pub struct SharedKeys(folklore::HashMap<zstr<KEY_CAPACITY>, u16>);
 
 impl SharedKeys {
     const MAX_KEYS: u16 = 2048;
@@ -133,7 +137,7 @@ impl<'sk> IntoIterator for &'sk SharedKeys {
     }
 }
 
-pub struct Iter<'a>(folklore::Iter<'a, zstr<16>, u16>);
+pub struct Iter<'a>(folklore::Iter<'a, zstr<KEY_CAPACITY>, u16>);
 
 impl<'sk> Iterator for Iter<'sk> {
     type Item = (&'sk str, u16);
-- 
2.43.0


From 2907afc35db1cfb497ad18b7a9d2ba317ceb877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 19/31] fix: SharedKeys::encode found long keys by their
 truncated prefix

---
 src/shared_keys.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 25c4837..7362b4e 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -34,6 +34,10 @@ impl SharedKeys {
 
     #[inline]
     pub fn encode(&self, string_key: &str) -> Option<u16> {
+        // Any other key can't have been added, but its truncated form may have been
+        if !Self::is_eligible(string_key) {
+            return None;
+        }
         self.0.get(&zstr::make(string_key))
     }
 
@@ -61,9 +65,12 @@ impl SharedKeys {
 
     #[allow(clippy::cast_possible_truncation)]
     pub fn can_add(&self, key: &str) -> bool {
-        self.len() < Self::MAX_KEYS
-            && key.len() <= Self::MAX_KEY_LEN as usize
-            && Self::can_encode(key)
+        self.len() < Self::MAX_KEYS && Self::is_eligible(key)
+    }
+
+    #[inline]
+    fn is_eligible(key: &str) -> bool {
+        key.len() <= Self::MAX_KEY_LEN as usize && Self::can_encode(key)
     }
 
     #[inline]
-- 
2.43.0


From 11733399b2dcbacc656268d07caf1362a708769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 20/31] fix: existing shared keys were no longer used once 2048
 keys were added

The key was then written as a string, under which a lookup doesn't find it.
---
 src/shared_keys.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 7362b4e..2d9efe2 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -44,13 +44,13 @@ impl SharedKeys {
     // This function takes a `&mut self` because it is not technically thread-safe, another thread
     // could insert a key between `index = self.0.len()` and `self.0.insert()`.
     pub fn encode_and_insert(&mut self, key: &str) -> Option<u16> {
+        if let Some(existing) = self.encode(key) {
+            return Some(existing);
+        }
         if !self.can_add(key) {
             return None;
         }
         let key = zstr::make(key);
-        if let Some(existing) = self.0.get(&key) {
-            return Some(existing);
-        }
         let index = self.len();
         if !self.0.insert(key, index) {
             return None;
-- 
2.43.0


From a8dce02550c4e4c9419b308b5cd20271438794b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 21/31] fix: from_state_value panicked on non-string keys and
 misnumbered duplicates

---
 src/shared_keys.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared_keys.rs b/src/shared_keys.rs
index 2d9efe2..10329ac 100644
--- a/src/shared_keys.rs
+++ b/src/shared_keys.rs
@@ -90,10 +90,15 @@ impl SharedKeys {
     pub fn from_state_value(value: &Value) -> Option<Self> {
         let state = value.as_array()?;
         let mut shared_keys = Self::new();
-        for val in state {
-            debug_assert_eq!(val.value_type(), ValueType::String);
-            let borrowed_key = val.to_str();
-            shared_keys.encode_and_insert(borrowed_key)?;
+        for (index, val) in state.into_iter().enumerate() {
+            if val.value_type() != ValueType::String {
+                return None;
+            }
+            // The position of a key is its id, so there can't be any duplicates
+            let id = shared_keys.encode_and_insert(val.to_str())?;
+            if usize::from(id) != index {
+                return None;
+            }
         }
         Some(shared_keys)
     }
-- 
2.43.0


From 6caafa0d3ec17f2c2f7daefbc1989d6f4c8f0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 22/31] fix: a scope on empty data made every later use of
 scopes panic

The map of scopes panics on empty ranges, which poisoned its lock. A panic or a
nested use of scopes in the conversion of the data did so too (or deadlocked).
---
 src/scope.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 4883491..20bfe08 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -64,8 +64,8 @@ impl Scope {
     /// If the data in this scope is still being retained, release it from the global map. This will stop any new references
     /// to it being taken, but the data will not be deallocated until all references to it are dropped.
     pub fn remove(&self) {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
-        if let Some(range) = self.range() {
+        if let Some(range) = self.range().filter(|range| !range.is_empty()) {
+            let mut scope_map = SCOPE_MAP.write().unwrap();
             scope_map.remove(range);
         }
     }
@@ -75,7 +75,7 @@ impl Scope {
     #[allow(clippy::missing_panics_doc)]
     /// Create a new scope which retains the data it is given ownership of, and optionally retains the given [`SharedKeys`].
     pub fn new(data: impl Into<Arc<[u8]>>, shared_keys: Option<Arc<SharedKeys>>) -> Arc<Self> {
-        let mut scope_map = SCOPE_MAP.write().unwrap();
+        // The caller's conversion can run any code, so it must not run while the lock is held.
         let strong_data = data.into();
         let weak_data = Arc::downgrade(&strong_data);
 
@@ -91,7 +91,11 @@ impl Scope {
             root,
         });
 
-        scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        // The map panics on empty ranges, which would poison the lock. They contain nothing anyway.
+        if start < end {
+            let mut scope_map = SCOPE_MAP.write().unwrap();
+            scope_map.insert(start..end, ScopeEntry(Arc::downgrade(&scope)));
+        }
         scope
     }
 
-- 
2.43.0


From c66dd384c81868404a64db686510539d149aadba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 23/31] fix: Scope::remove released another scope which shares
 its data

---
 src/scope.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scope.rs b/src/scope.rs
index 20bfe08..a538206 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -66,7 +66,11 @@ impl Scope {
     pub fn remove(&self) {
         if let Some(range) = self.range().filter(|range| !range.is_empty()) {
             let mut scope_map = SCOPE_MAP.write().unwrap();
-            scope_map.remove(range);
+            // Another scope may have been created on the same data since
+            let entry = scope_map.get(&range.start);
+            if entry.is_some_and(|entry| core::ptr::eq(entry.as_ptr(), self)) {
+                scope_map.remove(range);
+            }
         }
     }
 
-- 
2.43.0


From 5be345c0a6c995d7c297c9fddb8f99d6f211c8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 24/31] fix: unit structs were serialized as none, which cannot
 be deserialized

---
 src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 039c14c..b90a9ea 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -177,7 +177,7 @@ impl<'ser> serde::Serializer for &'ser mut Serializer {
     }
 
     fn serialize_unit_struct(self, _name: &'static str) -> Result<Self::Ok> {
-        self.serialize_none()
+        self.serialize_unit()
     }
 
     // Array [ VARIANT_NAME ]
-- 
2.43.0


From af544ba4dfea947575c045d61cf25ebf61bd834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 25/31] fix: newtype structs could not be deserialized

---
 src/de.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/de.rs b/src/de.rs
index 2b15241..88c2fe6 100644
--- a/src/de.rs
+++ b/src/de.rs
@@ -171,6 +171,14 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
         }
     }
 
+    // Newtype structs are serialized as the value they contain
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
@@ -229,7 +237,7 @@ impl<'de, 'value, 'sk> de::Deserializer<'de> for &Deserializer<'value, 'sk> {
 
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char tuple string bytes byte_buf
-        unit unit_struct newtype_struct str tuple_struct identifier ignored_any
+        unit unit_struct str tuple_struct identifier ignored_any
     }
 }
 
-- 
2.43.0


From 058ac8ecff78291784b82a5a05538254db2f271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 26/31] fix: the size hint of a MutableArray iterator counted
 elements already returned

---
 src/mutable/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutable/array.rs b/src/mutable/array.rs
index 233919c..93139be 100644
--- a/src/mutable/array.rs
+++ b/src/mutable/array.rs
@@ -196,7 +196,7 @@ impl<'a> Iterator for Iter<'a> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let len = self.arr.len();
+        let len = self.arr.len().saturating_sub(self.index);
         (len, Some(len))
     }
 }
-- 
2.43.0


From f763ace30cc1c91b617d694063a4158859bc5705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 27/31] fix: the length of an array iterator counted elements
 already returned

So did the size hints of sequences and maps during deserialization.
---
 src/value/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/array.rs b/src/value/array.rs
index 68ac60c..ce1888b 100644
--- a/src/value/array.rs
+++ b/src/value/array.rs
@@ -221,7 +221,7 @@ pub struct Iter<'a> {
 
 impl Iter<'_> {
     pub fn len(&self) -> usize {
-        self.len
+        self.len - self.index
     }
 }
 
-- 
2.43.0


From de91789339638e36f99106118d6938453ebdc8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 28/31] fix: to_bool was true for an unsigned int of 0

---
 src/value/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/value/mod.rs b/src/value/mod.rs
index 00555a2..8ad55e1 100644
--- a/src/value/mod.rs
+++ b/src/value/mod.rs
@@ -209,6 +209,7 @@ impl Value {
             ValueType::False => false,
             ValueType::Short
             | ValueType::Int
+            | ValueType::UnsignedInt
             | ValueType::Float
             | ValueType::Double32
             | ValueType::Double64 => self.to_int() != 0,
-- 
2.43.0


From 1e6af42a6726ff7dac57a1a9860e9f06dae8a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 29/31] fix: the size hint of a dict iterator promised entries
 it may not return

---
 src/value/dict.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/value/dict.rs b/src/value/dict.rs
index 76a28b0..1439617 100644
--- a/src/value/dict.rs
+++ b/src/value/dict.rs
@@ -265,7 +265,8 @@ impl<'a> Iterator for SharedKeyIter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (array_size_hint, _) = self.array_iter.size_hint();
-        (array_size_hint / 2, Some(array_size_hint / 2))
+        // Iteration ends early at a key which cannot be decoded
+        (0, Some(array_size_hint / 2))
     }
 }
 
@@ -284,7 +285,8 @@ impl<'a> Iterator for Iter<'a> {
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         let (array_size_hint, _) = self.array_iter.size_hint();
-        (array_size_hint / 2, Some(array_size_hint / 2))
+        // Iteration ends early at a key which cannot be decoded
+        (0, Some(array_size_hint / 2))
     }
 }
 
-- 
2.43.0


From d2745b187d979b94ebfd302a18560849554c6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:10 +0000
Subject: [PATCH 30/31] fix: write inline strings into wide slots only if there
 is room

---
 src/encoder/encodable.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/encoder/encodable.rs b/src/encoder/encodable.rs
index 84bf041..80a1c06 100644
--- a/src/encoder/encodable.rs
+++ b/src/encoder/encodable.rs
@@ -440,6 +440,14 @@ impl Encodable for UndefinedValue {
     }
 }
 
+// A string which is stored inline takes up the full width of its slot.
+fn string_size(string: &[u8], is_wide: bool) -> usize {
+    match string.len() {
+        0 | 1 if is_wide => 4,
+        _ => string.fleece_size(),
+    }
+}
+
 // Data and String are encoded the same in Fleece, apart from the value type tag.
 // INVARIANTS:
 //   - `buf` MUST be large enough to encode `string`.
@@ -504,7 +512,7 @@ fn write_fleece_string<const IS_STR: bool>(
 impl super::private::Sealed for [u8] {}
 impl Encodable for [u8] {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        if string_size(self, is_wide) > buf.len() {
             None
         } else {
             Some(write_fleece_string::<false>(self, buf, is_wide))
@@ -531,7 +539,7 @@ impl Encodable for [u8] {
 impl super::private::Sealed for str {}
 impl Encodable for str {
     fn write_fleece_to(&self, buf: &mut [u8], is_wide: bool) -> Option<NonZeroUsize> {
-        if self.fleece_size() > buf.len() {
+        if string_size(self.as_bytes(), is_wide) > buf.len() {
             None
         } else {
             Some(write_fleece_string::<true>(self.as_bytes(), buf, is_wide))
-- 
2.43.0


From 659a9ea838c4e3b257c780eb47a8cc321c5f1928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:40 +0000
Subject: [PATCH 31/31] fix: give a capacity to arrays in arrays in fleece!

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd412e6..f4ac2f1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -95,7 +95,7 @@ macro_rules! fleece {
     };
 
     (push $encoder:expr => [ $($inner_val:tt),* $(,)? ]) => {
-        unsafe { $encoder.begin_array().unwrap_unchecked() };
+        unsafe { $encoder.begin_array(10).unwrap_unchecked() };
         $(fleece!(push $encoder => $inner_val);)*
         unsafe { $encoder.end_array().unwrap_unchecked() };
     };
-- 
2.43.0

