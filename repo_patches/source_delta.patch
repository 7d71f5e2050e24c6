From 607834463dfb881e81ccfc2e644984a999a4c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 01/34] fix: sysex8 stream id is written to the octet it is
 read from

---
 midi2/src/sysex8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0328a6a..93424ab 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -177,7 +177,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             .chunks_exact_mut(4)
             .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
         {
-            packet[0].set_octet(3, id);
+            packet[0].set_octet(2, id);
         }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
-- 
2.43.0


From f1eef445b762c2feecfff0294b4be2a321ae6a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 02/34] fix: splicing of sysex payloads no longer depends on
 size hints, and bounds are checked

---
 midi2/src/detail/helpers.rs | 149 ++++++++++++++----------------------
 midi2/src/error.rs          |   6 --
 midi2/src/sysex7.rs         |  64 ++++++++--------
 midi2/src/sysex8.rs         |  19 ++---
 midi2/src/traits.rs         |   9 ++-
 5 files changed, 100 insertions(+), 147 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 148bfb1..00c39b4 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -1,4 +1,4 @@
-use crate::traits::{SysexInternal, SysexTryResizeError};
+use crate::traits::SysexInternal;
 
 #[cfg(any(feature = "sysex7", feature = "sysex8", feature = "flex-data"))]
 pub fn group_from_packet(p: &[u32]) -> crate::ux::u4 {
@@ -32,6 +32,7 @@ pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
 pub const ERR_SYSEX_EXPECTED_END: &str = "Expected End packet";
 pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
+const ERR_SPLICE_RANGE_OUT_OF_BOUNDS: &str = "Splice range is out of bounds of the payload";
 
 // assumes that buffer contains valid messages
 #[cfg(any(
@@ -103,9 +104,7 @@ pub fn try_splice_sysex_data<
         Err(e) => {
             // if the write failed we reset the message
             // back to zero data
-            sysex
-                .try_resize(0)
-                .map_err(|_| crate::error::BufferOverflow)?;
+            sysex.try_resize(0)?;
             Err(e)
         }
         Ok(()) => Ok(()),
@@ -137,119 +136,83 @@ pub fn splice_sysex_data<
 mod detail {
     use crate::error::BufferOverflow;
 
-    use super::*;
-
     pub fn try_splice_sysex_data<
         B: crate::buffer::Buffer + crate::buffer::BufferMut,
         S: crate::traits::SysexInternal<B>,
         D: core::iter::Iterator<Item = <S as crate::traits::Sysex<B>>::Byte>,
-        R: Fn(&mut S, usize) -> core::result::Result<(), SysexTryResizeError>,
+        R: Fn(&mut S, usize) -> core::result::Result<(), BufferOverflow>,
         Rg: core::ops::RangeBounds<usize>,
     >(
         sysex: &mut S,
         data: D,
         resize: R,
         range: Rg,
-    ) -> core::result::Result<(), crate::error::BufferOverflow> {
+    ) -> core::result::Result<(), BufferOverflow> {
         // reformat first to ensure data is optimally filling the
         // underlying buffer
         sysex.compact();
 
-        // get an initial estimate for the size of the data
         let initial_size = sysex.payload_size();
 
         let splice_begin = match range.start_bound() {
-            core::ops::Bound::Included(&v) => v,
-            core::ops::Bound::Excluded(&v) => v + 1,
-            core::ops::Bound::Unbounded => 0,
-        };
+            core::ops::Bound::Included(&v) => Some(v),
+            core::ops::Bound::Excluded(&v) => v.checked_add(1),
+            core::ops::Bound::Unbounded => Some(0),
+        }
+        .expect(super::ERR_SPLICE_RANGE_OUT_OF_BOUNDS);
         let splice_end = match range.end_bound() {
-            core::ops::Bound::Included(&v) => v + 1,
-            core::ops::Bound::Excluded(&v) => v,
-            core::ops::Bound::Unbounded => initial_size,
-        };
-        let splice_size = splice_end - splice_begin;
-
-        let mut running_data_size_estimate = match data.size_hint() {
-            (_, Some(upper)) => upper,
-            // not the optimal case - could lead to additional copying
-            (lower, None) => lower,
-        };
-        let mut written = 0;
-        let mut additional_size_for_overflow = 1;
-        let mut data = data.peekable();
-
-        if splice_end < splice_end + running_data_size_estimate - splice_size {
-            // we need to grow
-            // initial buffer resize
-            if let Err(SysexTryResizeError(sz)) = resize(
-                sysex,
-                running_data_size_estimate + initial_size - splice_size,
-            ) {
-                // failed. we'll work with what we've got
-                running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-            };
+            core::ops::Bound::Included(&v) => v.checked_add(1),
+            core::ops::Bound::Excluded(&v) => Some(v),
+            core::ops::Bound::Unbounded => Some(initial_size),
         }
-
-        let mut tail = splice_end + running_data_size_estimate - splice_size;
-        sysex.move_payload_tail(splice_end, tail);
-
-        'main: loop {
-            while written < running_data_size_estimate {
-                match data.next() {
-                    Some(v) => {
-                        sysex.write_datum(v, splice_begin + written);
-                        written += 1;
-                    }
-                    None => {
-                        break 'main;
+        .expect(super::ERR_SPLICE_RANGE_OUT_OF_BOUNDS);
+        assert!(
+            splice_begin <= splice_end && splice_end <= initial_size,
+            "{}",
+            super::ERR_SPLICE_RANGE_OUT_OF_BOUNDS
+        );
+
+        // the number of bytes which follow the spliced range
+        let tail_size = initial_size - splice_end;
+
+        // The next byte is written at position `head`.
+        // The tail bytes currently sit at position `tail`.
+        // The space in between is free to be written to.
+        let mut head = splice_begin;
+        let mut tail = splice_end;
+
+        // If the data doesn't fit within the spliced range then we first grow
+        // by the amount that we know is needed. After that, if the data wasn't
+        // able to tell us it's exact size, we double with each reallocation.
+        let mut growth = data
+            .size_hint()
+            .0
+            .saturating_sub(splice_end - splice_begin)
+            .max(1);
+
+        for v in data {
+            if head == tail {
+                // we need to grow
+                // if there's not enough space then we make do with less
+                while resize(sysex, tail.saturating_add(growth).saturating_add(tail_size)).is_err()
+                {
+                    growth /= 2;
+                    if growth == 0 {
+                        return Err(BufferOverflow);
                     }
                 }
-            }
-            debug_assert_eq!(written, running_data_size_estimate);
-
-            if data.peek().is_none() {
-                // done
-                break;
+                sysex.move_payload_tail(tail, tail + growth);
+                tail += growth;
+                growth = growth.saturating_mul(2);
             }
 
-            // we underestimated.
-            running_data_size_estimate += additional_size_for_overflow;
-
-            {
-                let mut to = splice_begin + running_data_size_estimate;
-                if tail < to {
-                    // we need to grow
-                    // resize to make more space
-                    // and move tail
-
-                    if let Err(SysexTryResizeError(sz)) = resize(
-                        sysex,
-                        running_data_size_estimate + initial_size - splice_size,
-                    ) {
-                        // failed. we'll work with what we've got
-                        running_data_size_estimate = sz.saturating_sub(initial_size - splice_size);
-                        to = splice_begin + running_data_size_estimate - splice_size;
-                    };
-                }
-
-                sysex.move_payload_tail(tail, to);
-                tail = splice_begin + running_data_size_estimate;
-            }
-
-            additional_size_for_overflow *= 2;
-
-            if written >= running_data_size_estimate {
-                return Err(BufferOverflow);
-            }
+            sysex.write_datum(v, head);
+            head += 1;
         }
 
-        // we ensure the buffer is the correct size and move the tail
-        // to the final position
-        sysex.move_payload_tail(tail, splice_begin + written);
-        resize(sysex, written + initial_size - splice_size)
-            .map_err(|_| crate::error::BufferOverflow)?;
-
-        Ok(())
+        // move the tail to the final position and
+        // ensure that the buffer is the correct size
+        sysex.move_payload_tail(tail, head);
+        resize(sysex, head + tail_size)
     }
 }
diff --git a/midi2/src/error.rs b/midi2/src/error.rs
index 7a8b411..2c43e22 100644
--- a/midi2/src/error.rs
+++ b/midi2/src/error.rs
@@ -41,9 +41,3 @@ impl std::fmt::Display for InvalidData {
         <Self as std::fmt::Debug>::fmt(self, f)
     }
 }
-
-impl core::convert::From<crate::traits::SysexTryResizeError> for BufferOverflow {
-    fn from(_value: crate::traits::SysexTryResizeError) -> Self {
-        BufferOverflow
-    }
-}
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index e754d17..c7862b8 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -529,16 +529,11 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
         B: crate::buffer::BufferMut + crate::buffer::BufferResize,
     {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => {
-                let buffer_sz = payload_size + 2;
-                let old_payload_size = self.payload_size();
-                self.0.resize(buffer_sz);
-                if payload_size > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
-                }
-                self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
-            }
+            crate::buffer::UNIT_ID_U8 => try_resize_bytes(self, payload_size, |s, sz| {
+                s.0.resize(sz);
+                Ok(())
+            })
+            .unwrap(),
             crate::buffer::UNIT_ID_U32 => try_resize_ump(self, payload_size, |s, sz| {
                 s.0.resize(sz);
                 Ok(())
@@ -551,24 +546,13 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
     fn try_resize(
         &mut self,
         payload_size: usize,
-    ) -> core::result::Result<(), crate::traits::SysexTryResizeError>
+    ) -> core::result::Result<(), crate::error::BufferOverflow>
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                let old_payload_size = self.payload_size();
-                let mut buffer_sz = payload_size + 2;
-                let result = self.0.try_resize(buffer_sz).map_err(|_| {
-                    buffer_sz = self.0.buffer().len();
-                    crate::traits::SysexTryResizeError(buffer_sz.saturating_sub(2))
-                });
-                if buffer_sz > old_payload_size {
-                    // erase old end bit
-                    self.0.specialise_u8_mut()[old_payload_size + 1] = 0;
-                }
-                self.0.specialise_u8_mut()[buffer_sz - 1] = END_BYTE;
-                result
+                try_resize_bytes(self, payload_size, |s, sz| s.0.try_resize(sz))
             }
             crate::buffer::UNIT_ID_U32 => {
                 try_resize_ump(self, payload_size, |s, sz| s.0.try_resize(sz))
@@ -735,22 +719,38 @@ fn compact<B: crate::buffer::Buffer + crate::buffer::BufferMut>(sysex: &mut Syse
     try_resize_ump(sysex, payload_size, |_, _| Ok(())).expect("Resizing down should never fail");
 }
 
+fn try_resize_bytes<
+    B: crate::buffer::Buffer + crate::buffer::BufferMut,
+    ResizeBuffer: Fn(&mut Sysex7<B>, usize) -> Result<(), crate::error::BufferOverflow>,
+>(
+    sysex: &mut Sysex7<B>,
+    payload_size: usize,
+    try_resize_buffer: ResizeBuffer,
+) -> Result<(), crate::error::BufferOverflow> {
+    let old_payload_size = sysex.payload_size();
+    try_resize_buffer(sysex, payload_size.saturating_add(2))?;
+
+    let buffer = sysex.0.specialise_u8_mut();
+    if payload_size > old_payload_size {
+        // erase old end bit
+        buffer[old_payload_size + 1] = 0;
+    }
+    buffer[payload_size + 1] = END_BYTE;
+    Ok(())
+}
+
 fn try_resize_ump<
     B: crate::buffer::Buffer + crate::buffer::BufferMut,
     ResizeBuffer: Fn(&mut Sysex7<B>, usize) -> Result<(), crate::error::BufferOverflow>,
 >(
     sysex: &mut Sysex7<B>,
-    mut payload_size: usize,
+    payload_size: usize,
     try_resize_buffer: ResizeBuffer,
-) -> Result<(), crate::traits::SysexTryResizeError> {
+) -> Result<(), crate::error::BufferOverflow> {
     use ux::u4;
 
-    let mut buffer_size = buffer_size_from_payload_size_ump(payload_size);
-    let resize_result = try_resize_buffer(sysex, buffer_size);
-    if resize_result.is_err() {
-        buffer_size = sysex.0.buffer().len();
-        payload_size = (buffer_size / 2) * 6;
-    }
+    let buffer_size = buffer_size_from_payload_size_ump(payload_size);
+    try_resize_buffer(sysex, buffer_size)?;
 
     let mut iter = sysex
         .0
@@ -806,7 +806,7 @@ fn try_resize_ump<
         }
     }
 
-    resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
+    Ok(())
 }
 
 fn buffer_size_from_payload_size_ump(payload_size: usize) -> usize {
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 93424ab..0b79308 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -430,7 +430,7 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     fn try_resize(
         &mut self,
         payload_size: usize,
-    ) -> core::result::Result<(), crate::traits::SysexTryResizeError>
+    ) -> core::result::Result<(), crate::error::BufferOverflow>
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
@@ -497,18 +497,13 @@ fn try_resize<
     ResizeBuffer: Fn(&mut Sysex8<B>, usize) -> Result<(), crate::error::BufferOverflow>,
 >(
     sysex: &mut Sysex8<B>,
-    mut payload_size: usize,
+    payload_size: usize,
     try_resize_buffer: ResizeBuffer,
-) -> Result<(), crate::traits::SysexTryResizeError> {
+) -> Result<(), crate::error::BufferOverflow> {
     use ux::u4;
 
-    let mut buffer_size = buffer_size_from_payload_size(payload_size);
-    let resize_result = try_resize_buffer(sysex, buffer_size);
-    if resize_result.is_err() {
-        // resize failed. We make do with what we've got
-        buffer_size = sysex.0.buffer().len();
-        payload_size = (buffer_size / 4) * 13;
-    }
+    let buffer_size = buffer_size_from_payload_size(payload_size);
+    try_resize_buffer(sysex, buffer_size)?;
 
     let mut iter = sysex
         .0
@@ -564,7 +559,7 @@ fn try_resize<
         }
     }
 
-    resize_result.map_err(|_| crate::traits::SysexTryResizeError(payload_size))
+    Ok(())
 }
 
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
@@ -572,7 +567,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
         if payload_size == 0 {
             4
         } else {
-            payload_size * 4 / 13
+            payload_size / 13 * 4
         }
     } else {
         4 * (payload_size / 13 + 1)
diff --git a/midi2/src/traits.rs b/midi2/src/traits.rs
index 348a5f9..190e062 100644
--- a/midi2/src/traits.rs
+++ b/midi2/src/traits.rs
@@ -661,9 +661,6 @@ pub trait Sysex<B: crate::buffer::Buffer> {
     }
 }
 
-#[derive(Clone, Debug, PartialEq, Eq)]
-pub(crate) struct SysexTryResizeError(pub usize);
-
 pub(crate) trait SysexInternal<B: crate::buffer::Buffer>: Sysex<B> {
     // Ensure that the payload optimally fills the underlying buffer.
     fn compact(&mut self)
@@ -679,7 +676,11 @@ pub(crate) trait SysexInternal<B: crate::buffer::Buffer>: Sysex<B> {
         B: crate::buffer::BufferMut + crate::buffer::BufferResize;
 
     // fallible version of the above
-    fn try_resize(&mut self, payload_size: usize) -> core::result::Result<(), SysexTryResizeError>
+    // if the underlying buffer fails to resize then the message is left unchanged
+    fn try_resize(
+        &mut self,
+        payload_size: usize,
+    ) -> core::result::Result<(), crate::error::BufferOverflow>
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize;
 
-- 
2.43.0


From 050178d34678d0f43dcdfa828477c740d946c01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 03/34] fix: sysex8 packets added by a resize carry the
 message's stream id

---
 midi2/src/sysex8.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 0b79308..7846177 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -512,6 +512,7 @@ fn try_resize<
         .take(buffer_size / 4)
         .peekable();
     let mut group = None;
+    let mut stream_id = None;
 
     const MESSAGE_TYPE: u4 = u4::new(UMP_MESSAGE_TYPE);
     const STATUS_COMPLETE: u4 = u4::new(0x0);
@@ -523,6 +524,7 @@ fn try_resize<
     if let Some(first_packet) = iter.next() {
         first_packet[0].set_nibble(0, MESSAGE_TYPE);
         group = Some(first_packet[0].nibble(1));
+        stream_id = Some(first_packet[0].octet(2));
         if iter.peek().is_some() {
             // start packet
             first_packet[0].set_nibble(2, STATUS_START);
@@ -537,6 +539,7 @@ fn try_resize<
     while let Some(chunk) = iter.next() {
         chunk[0].set_nibble(0, MESSAGE_TYPE);
         chunk[0].set_nibble(1, group.unwrap());
+        chunk[0].set_octet(2, stream_id.unwrap());
         if iter.peek().is_some() {
             // middle packet
             chunk[0].set_nibble(2, STATUS_CONTINUE);
-- 
2.43.0


From cba4a9b51f143f3d7d103bffc8fa4b3e24a17426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 04/34] fix: unused bytes of a resized complete sysex packet
 are zeroed

---
 midi2/src/sysex7.rs |  4 ++++
 midi2/src/sysex8.rs | 18 ++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index c7862b8..043f1f6 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -778,6 +778,10 @@ fn try_resize_ump<
             // complete packet
             first_packet[0].set_nibble(2, STATUS_COMPLETE);
             first_packet[0].set_nibble(3, u4::new(payload_size as u8));
+            // zero off the end of the packet
+            for i in payload_size..6 {
+                first_packet[(i + 2) / 4].set_octet((i + 2) % 4, 0x0);
+            }
         }
     }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 7846177..c713cf4 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -424,7 +424,8 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
             s.0.resize(sz);
             Ok(())
         })
-        .unwrap()
+        .unwrap();
+        clear_complete_packet_padding(self, payload_size);
     }
 
     fn try_resize(
@@ -434,7 +435,9 @@ impl<B: crate::buffer::Ump> SysexInternal<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut + crate::buffer::BufferTryResize,
     {
-        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))
+        try_resize(self, payload_size, |s, sz| s.0.try_resize(sz))?;
+        clear_complete_packet_padding(self, payload_size);
+        Ok(())
     }
 
     fn write_datum(&mut self, datum: Self::Byte, payload_index: usize)
@@ -565,6 +568,17 @@ fn try_resize<
     Ok(())
 }
 
+// zero off the end of the packet when the whole payload fits in a complete packet
+fn clear_complete_packet_padding<B: crate::buffer::Ump + crate::buffer::BufferMut>(
+    sysex: &mut Sysex8<B>,
+    payload_size: usize,
+) {
+    let buffer = sysex.0.buffer_mut();
+    for i in payload_size..13 {
+        buffer[(i + 3) / 4].set_octet((i + 3) % 4, 0x0);
+    }
+}
+
 fn buffer_size_from_payload_size(payload_size: usize) -> usize {
     if payload_size.is_multiple_of(13) {
         if payload_size == 0 {
-- 
2.43.0


From 0d4e91523c8a0fbf0d7b1ce1beed28632a943a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:21 +0000
Subject: [PATCH 05/34] fix: stale end bytes don't truncate a growing sysex7
 byte message

---
 midi2/src/sysex7.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 043f1f6..5abecf6 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -732,8 +732,8 @@ fn try_resize_bytes<
 
     let buffer = sysex.0.specialise_u8_mut();
     if payload_size > old_payload_size {
-        // erase old end bit
-        buffer[old_payload_size + 1] = 0;
+        // erase old end byte along with any stale data which follows it
+        buffer[old_payload_size + 1..payload_size + 1].fill(0);
     }
     buffer[payload_size + 1] = END_BYTE;
     Ok(())
-- 
2.43.0


From db4cb974a9aeb793f0caf0be7967ebcd32089ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 06/34] fix: compactness of a sysex message is judged by all of
 its own packets only

---
 midi2/src/sysex7.rs | 8 +-------
 midi2/src/sysex8.rs | 7 +------
 2 files changed, 2 insertions(+), 13 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index 5abecf6..dbfcdbb 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -648,13 +648,7 @@ fn is_compact<B: crate::buffer::Buffer>(sysex: &Sysex7<B>) -> bool {
         crate::buffer::UNIT_ID_U8 => true,
         crate::buffer::UNIT_ID_U32 => {
             use crate::detail::BitOps;
-            for chunk in sysex
-                .0
-                .buffer()
-                .specialise_u32()
-                .chunks_exact(4)
-                .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-            {
+            for chunk in sysex.data().specialise_u32().chunks_exact(2) {
                 let status: u8 = chunk[0].nibble(2).into();
                 let is_begin = status == 0x1;
                 let is_continue = status == 0x2;
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index c713cf4..e00f392 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -594,12 +594,7 @@ fn buffer_size_from_payload_size(payload_size: usize) -> usize {
 // will determine whether the payload data in the message is maximally
 // compact in the underlying buffer
 fn is_compact<B: crate::buffer::Buffer<Unit = u32>>(sysex: &Sysex8<B>) -> bool {
-    for chunk in sysex
-        .0
-        .buffer()
-        .chunks_exact(4)
-        .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-    {
+    for chunk in sysex.data().chunks_exact(4) {
         let status: u8 = chunk[0].nibble(2).into();
         let is_begin = status == 0x1;
         let is_continue = status == 0x2;
-- 
2.43.0


From 9b0fc9ce3d09ab07826b56d1205629ead7a92b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 07/34] fix: writing a sysex payload byte checks its index and
 leaves no stale top bit

---
 midi2/src/detail/helpers.rs |  1 +
 midi2/src/sysex7.rs         | 13 +++++++++----
 midi2/src/sysex8.rs         |  6 ++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 00c39b4..e063290 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -32,6 +32,7 @@ pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
 pub const ERR_SYSEX_EXPECTED_END: &str = "Expected End packet";
 pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
+pub const ERR_INDEX_OUT_OF_BOUNDS: &str = "Index is out of bounds of the payload";
 const ERR_SPLICE_RANGE_OUT_OF_BOUNDS: &str = "Splice range is out of bounds of the payload";
 
 // assumes that buffer contains valid messages
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index dbfcdbb..ba57997 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -471,10 +471,15 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(
+            index < self.payload_size(),
+            "{}",
+            message_helpers::ERR_INDEX_OUT_OF_BOUNDS
+        );
+
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                let buffer = self.buffer_access_mut().specialise_u8_mut();
-                buffer[index + 1].set_septet(0, byte);
+                self.buffer_access_mut().specialise_u8_mut()[index + 1] = byte.into();
             }
             crate::buffer::UNIT_ID_U32 => {
                 // can't assume a compact payload here:
@@ -485,7 +490,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     let sz = (u8::from(buffer[packet_index * 2].nibble(3))) as usize;
                     if index < sz {
                         buffer[packet_index * 2 + (index + 2) / 4]
-                            .set_septet((index + 2) % 4, byte);
+                            .set_octet((index + 2) % 4, byte.into());
                         break;
                     }
                     index -= sz;
@@ -575,7 +580,7 @@ impl<B: crate::buffer::Buffer> SysexInternal<B> for Sysex7<B> {
                 let buffer_index = 2 * (payload_index / 6);
                 let byte_index = payload_index % 6;
                 self.0.specialise_u32_mut()[buffer_index + (byte_index + 2) / 4]
-                    .set_septet((byte_index + 2) % 4, datum);
+                    .set_octet((byte_index + 2) % 4, datum.into());
             }
             _ => unreachable!(),
         }
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index e00f392..8b90dca 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -375,6 +375,12 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
     where
         B: crate::buffer::BufferMut,
     {
+        assert!(
+            index < self.payload_size(),
+            "{}",
+            message_helpers::ERR_INDEX_OUT_OF_BOUNDS
+        );
+
         // can't assume a compact payload here:
         // linear complexity
 
-- 
2.43.0


From e893f74499b5246f27143644cf83d6b76d6a4eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 08/34] fix: data behind a sysex message doesn't take part in
 validating its packet sizes

---
 midi2/src/sysex7.rs |  1 +
 midi2/src/sysex8.rs | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ba57997..ced8efa 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -173,6 +173,7 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
             if buffer
                 .specialise_u32()
                 .chunks_exact(2)
+                .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
                 .any(|p| u8::from(p[0].nibble(3)) > 6)
             {
                 Err(crate::error::InvalidData(ERR_INVALID_PACKET_SIZE))
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 8b90dca..b9a7c73 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -66,10 +66,15 @@ impl<B: crate::buffer::Ump> crate::detail::property::Property<B> for ValidPacket
 impl<'a, B: crate::buffer::Ump> crate::detail::property::ReadProperty<'a, B> for ValidPacketSizes {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer.buffer().chunks_exact(4).any(|p| {
-            let number_bytes = u8::from(p[0].nibble(3));
-            !(1..=14).contains(&number_bytes)
-        }) {
+        if buffer
+            .buffer()
+            .chunks_exact(4)
+            .take_while(|p| u8::from(p[0].nibble(0)) == UMP_MESSAGE_TYPE)
+            .any(|p| {
+                let number_bytes = u8::from(p[0].nibble(3));
+                !(1..=14).contains(&number_bytes)
+            })
+        {
             Err(crate::error::InvalidData(
                 ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
             ))
-- 
2.43.0


From a6c1d9b695677d5466f67993c68fe2ececcb2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 09/34] fix: a multi-packet message with a truncated last
 packet is rejected

---
 midi2/src/detail/helpers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index e063290..6e2a8a6 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -31,6 +31,7 @@ pub const ERR_SYSEX_EXPECTED_COMPLETE: &str = "Expected Complete packet";
 pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
 pub const ERR_SYSEX_EXPECTED_END: &str = "Expected End packet";
+pub const ERR_TRUNCATED_PACKET: &str = "The last packet is truncated";
 pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
 pub const ERR_INDEX_OUT_OF_BOUNDS: &str = "Index is out of bounds of the payload";
 const ERR_SPLICE_RANGE_OUT_OF_BOUNDS: &str = "Splice range is out of bounds of the payload";
@@ -58,6 +59,15 @@ pub fn validate_sysex_group_statuses<
 ) -> Result<(), crate::error::InvalidData> {
     use crate::{detail::BitOps, error::InvalidData};
 
+    if buffer
+        .chunks(stride)
+        .take_while(|chunk| chunk[0].nibble(0) == ump_type)
+        .skip(1)
+        .any(|chunk| chunk.len() < stride)
+    {
+        return Err(InvalidData(ERR_TRUNCATED_PACKET));
+    }
+
     let mut iter = buffer
         .chunks(stride)
         .take_while(|chunk| chunk[0].nibble(0) == ump_type)
-- 
2.43.0


From eb6515097126736d22827bfa0946f89b5e2d0840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 10/34] fix: sysex7 byte messages with payload bytes wider than
 7 bits are rejected

---
 midi2/src/sysex7.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ced8efa..ad669ba 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -36,6 +36,7 @@ struct Sysex7 {
 
 const ERR_NO_BEGIN_BYTE: &str = "Sysex messages should begin 0xF0";
 const ERR_NO_END_BYTE: &str = "Sysex messages should end 0xF7";
+const ERR_INVALID_PAYLOAD_BYTE: &str = "Sysex payload bytes can not exceed 7 bits";
 const ERR_INVALID_PACKET_SIZE: &str = "Size field can not exceed 6";
 
 const START_BYTE: u8 = 0xF0;
@@ -95,12 +96,17 @@ impl<'a, B: crate::buffer::Buffer> crate::detail::property::ReadProperty<'a, B>
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
         match <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID {
-            crate::buffer::UNIT_ID_U8 => buffer
-                .specialise_u8()
-                .iter()
-                .position(|b| *b == 0xF7)
-                .map(|_| ())
-                .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE)),
+            crate::buffer::UNIT_ID_U8 => {
+                let bytes = buffer.specialise_u8();
+                let end = bytes
+                    .iter()
+                    .position(|b| *b == END_BYTE)
+                    .ok_or(crate::error::InvalidData(ERR_NO_END_BYTE))?;
+                if bytes[..end].iter().skip(1).any(|b| *b > 0x7F) {
+                    return Err(crate::error::InvalidData(ERR_INVALID_PAYLOAD_BYTE));
+                }
+                Ok(())
+            }
             crate::buffer::UNIT_ID_U32 => Ok(()),
             _ => unreachable!(),
         }
-- 
2.43.0


From 86ed439ab4209b1d0264ff5e0e51e650400d8a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 11/34] fix: nth on sysex packet payload iterators consumes the
 items it skips and returns

---
 midi2/src/sysex7/packet.rs | 4 ++--
 midi2/src/sysex8/packet.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7/packet.rs b/midi2/src/sysex7/packet.rs
index 9797cd6..9bf11e4 100644
--- a/midi2/src/sysex7/packet.rs
+++ b/midi2/src/sysex7/packet.rs
@@ -94,8 +94,8 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index = (self.index + n).min(6);
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 2) / 4].septet((self.index + n + 2) % 4);
diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 21a807e..98f2afc 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -122,12 +122,12 @@ impl core::iter::Iterator for PayloadIterator<'_> {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         use crate::detail::BitOps;
-        if self.index + n >= self.packet_size() {
-            self.index += n;
+        if n >= self.len() {
+            self.index = self.packet_size();
             return None;
         }
         let v = self.data[(self.index + n + 3) / 4].octet((self.index + n + 3) % 4);
-        self.index = (self.index + n).min(13);
+        self.index += n + 1;
         Some(v)
     }
 
-- 
2.43.0


From 57fab52b9d39fac4167b27e73161e576c57be2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 12/34] fix: sysex8 packets with an illegal byte count are
 rejected

---
 midi2/src/sysex8/packet.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/midi2/src/sysex8/packet.rs b/midi2/src/sysex8/packet.rs
index 98f2afc..70e1d5f 100644
--- a/midi2/src/sysex8/packet.rs
+++ b/midi2/src/sysex8/packet.rs
@@ -31,7 +31,16 @@ impl<'a> core::convert::TryFrom<&'a [u32]> for Packet {
             ));
         }
 
-        status_from_data(data)?;
+        let status = status_from_data(data)?;
+
+        // an unexpected end may mark the previous data as invalid
+        // in which case there's no payload
+        let valid_size = (1..=14).contains(&u8::from(data[0].nibble(3)));
+        if !valid_size && status != Status::UnexpectedEnd(PreviousDataValidity::Invalid) {
+            return Err(error::InvalidData(
+                sysex8::ERR_INVALID_NUMBER_OF_PAYLOAD_BYTES,
+            ));
+        }
 
         Ok(Packet({
             let mut buffer = [0x0; 4];
@@ -152,9 +161,11 @@ impl core::iter::ExactSizeIterator for PayloadIterator<'_> {
 impl PayloadIterator<'_> {
     fn packet_size(&self) -> usize {
         use crate::detail::BitOps;
-        let len = u8::from(self.data[0].nibble(3)) as usize - 1;
-        debug_assert!(len <= 13);
-        len
+        match u8::from(self.data[0].nibble(3)) {
+            sz @ 1..=14 => sz as usize - 1,
+            // unexpected end with invalid previous data: no payload
+            _ => 0,
+        }
     }
 }
 
-- 
2.43.0


From a661d23650077960d15c05fa1ae6cb6b7551aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:26 +0000
Subject: [PATCH 13/34] fix: sysex payload iterators stay within the message
 and report their exact size

---
 midi2/src/sysex7.rs | 7 ++++---
 midi2/src/sysex8.rs | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ad669ba..eb21bfa 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -443,7 +443,7 @@ impl<B: crate::buffer::Buffer> Sysex<B> for Sysex7<B> {
                     .map(PayloadIterator::<B::Unit>::packet_size)
                     .sum::<usize>();
                 PayloadIterator {
-                    data: self.0.buffer(),
+                    data: self.data(),
                     payload_index: 0,
                     packet_index: 0,
                     size_cache,
@@ -900,7 +900,7 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
         match U::UNIT_ID {
             crate::buffer::UNIT_ID_U8 => {
-                self.payload_index += n;
+                self.payload_index += n.min(self.len());
                 self.next()
             }
             crate::buffer::UNIT_ID_U32 => {
@@ -963,7 +963,8 @@ impl<U: crate::buffer::Unit> core::iter::Iterator for PayloadIterator<'_, U> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.size_cache, Some(self.size_cache))
+        let len = self.len();
+        (len, Some(len))
     }
 }
 
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index b9a7c73..89b9c37 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -281,7 +281,7 @@ impl core::iter::Iterator for PayloadIterator<'_> {
         if ret.is_none() {
             // if we failed it means we ran out of data
             // so we set the iterator into finished state
-            self.packet_index = self.data.len() / 2;
+            self.packet_index = self.data.len() / 4;
             self.size_cache = 0;
         }
         ret
@@ -344,7 +344,7 @@ impl<B: crate::buffer::Ump> Sysex<B> for Sysex8<B> {
         <B as crate::buffer::Buffer>::Unit: 'a,
     {
         PayloadIterator {
-            data: self.0.buffer(),
+            data: self.data(),
             packet_index: 0,
             payload_index: 0,
             size_cache: self
-- 
2.43.0


From 42d9fe9e86e8a41eabf6bb47c5777a6b982a7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:37 +0000
Subject: [PATCH 14/34] fix: sysex group and stream id writes leave data behind
 the message alone

---
 midi2/src/detail/helpers.rs | 15 +++++++++++++++
 midi2/src/sysex7.rs         |  6 +-----
 midi2/src/sysex8.rs         | 18 +++---------------
 3 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index 6e2a8a6..cbe8145 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -36,6 +36,21 @@ pub const ERR_EMPTY_MESSAGE: &str = "The message buffer is empty";
 pub const ERR_INDEX_OUT_OF_BOUNDS: &str = "Index is out of bounds of the payload";
 const ERR_SPLICE_RANGE_OUT_OF_BOUNDS: &str = "Splice range is out of bounds of the payload";
 
+// The packets of the sysex message at the start of the buffer,
+// leaving alone whatever follows the end of the message.
+#[cfg(any(feature = "sysex7", feature = "sysex8"))]
+pub fn sysex_message_packets_mut(
+    buffer: &mut [u32],
+    stride: usize,
+) -> impl core::iter::Iterator<Item = &mut [u32]> {
+    use crate::detail::BitOps;
+    let number_of_packets = buffer
+        .chunks_exact(stride)
+        .position(|p| matches!(u8::from(p[0].nibble(2)), 0x0 | 0x3))
+        .map_or(0, |last| last + 1);
+    buffer.chunks_exact_mut(stride).take(number_of_packets)
+}
+
 // assumes that buffer contains valid messages
 #[cfg(any(
     feature = "sysex7",
diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index eb21bfa..ef55d8d 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -234,11 +234,7 @@ impl<B: crate::buffer::Buffer + crate::buffer::BufferMut> crate::detail::propert
 {
     fn write(buffer: &mut B, group: Self::Type) {
         if <B::Unit as crate::buffer::UnitPrivate>::UNIT_ID == crate::buffer::UNIT_ID_U32 {
-            const TYPE: ux::u4 = ux::u4::new(UMP_MESSAGE_TYPE);
-            for packet in buffer
-                .specialise_u32_mut()
-                .chunks_exact_mut(2)
-                .take_while(|packet| packet[0].nibble(0) == TYPE)
+            for packet in message_helpers::sysex_message_packets_mut(buffer.specialise_u32_mut(), 2)
             {
                 packet[0].set_nibble(1, group);
             }
diff --git a/midi2/src/sysex8.rs b/midi2/src/sysex8.rs
index 89b9c37..612aeed 100644
--- a/midi2/src/sysex8.rs
+++ b/midi2/src/sysex8.rs
@@ -88,11 +88,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for ValidPacketSizes
 {
     fn write(buffer: &mut B, _: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_message_packets_mut(buffer.buffer_mut(), 4) {
             let sz = packet[0].nibble(3);
             packet[0].set_nibble(3, sz.max(ux::u4::new(1)));
         }
@@ -128,11 +124,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for GroupProperty
 {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_message_packets_mut(buffer.buffer_mut(), 4) {
             packet[0].set_nibble(1, group);
         }
     }
@@ -177,11 +169,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
     for StreamIdProperty
 {
     fn write(buffer: &mut B, id: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_helpers::sysex_message_packets_mut(buffer.buffer_mut(), 4) {
             packet[0].set_octet(2, id);
         }
     }
-- 
2.43.0


From d12261732acac0a72b6c7dc833369adcd694fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:59 +0000
Subject: [PATCH 15/34] fix: per-note controller indices of chorus send level
 and effect depth 5

---
 midi2/src/channel_voice2/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/midi2/src/channel_voice2/controller.rs b/midi2/src/channel_voice2/controller.rs
index bf385c5..5073580 100644
--- a/midi2/src/channel_voice2/controller.rs
+++ b/midi2/src/channel_voice2/controller.rs
@@ -118,8 +118,9 @@ pub fn to_index_and_data(c: Controller) -> (u8, u32) {
         Controller::ReverbSendLevel(data) => (91, data),
         Controller::EffectDepth { index: 2, data } => (92, data),
         Controller::EffectDepth { index: 3, data } => (93, data),
-        Controller::ChorusSendLevel(data) => (91, data),
+        Controller::ChorusSendLevel(data) => (93, data),
         Controller::EffectDepth { index: 4, data } => (94, data),
+        Controller::EffectDepth { index: 5, data } => (95, data),
         _ => unreachable!(),
     }
 }
-- 
2.43.0


From cc7d3d9ad6c3c9f5a64a70207c27ebc7ba872ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:03 +0000
Subject: [PATCH 16/34] fix: per-note management detach and reset flags were
 swapped

---
 midi2/src/channel_voice2/per_note_management.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/channel_voice2/per_note_management.rs b/midi2/src/channel_voice2/per_note_management.rs
index 5e98455..c3b8fb0 100644
--- a/midi2/src/channel_voice2/per_note_management.rs
+++ b/midi2/src/channel_voice2/per_note_management.rs
@@ -21,9 +21,9 @@ struct PerNoteManagement {
     group: u4,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
     note_number: u7,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
-    detach: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0002, 0x0, 0x0, 0x0>>)]
+    detach: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0x0000_0001, 0x0, 0x0, 0x0>>)]
     reset: bool,
 }
 
-- 
2.43.0


From 882afc27c991582f39853b38fd222160ac14cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:06 +0000
Subject: [PATCH 17/34] fix: function block discovery filter bits were swapped

---
 midi2/src/ump_stream/function_block_discovery.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index 78c7595..d15c13a 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -17,9 +17,9 @@ struct FunctionBlockDiscovery {
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
-    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-    requesting_function_block_info: bool,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0001, 0x0, 0x0, 0x0>>)]
+    requesting_function_block_info: bool,
+    #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
     requesting_function_block_name: bool,
 }
 
-- 
2.43.0


From d5ce0a52f8921da49d5455850cc99145919c3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:09 +0000
Subject: [PATCH 18/34] fix: flex data aggregate recognises the last three
 metadata text messages

---
 midi2/src/flex_data.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 13ad909..7be72ef 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -874,11 +874,11 @@ impl<'a> TryFrom<&'a [u32]> for FlexData<&'a [u32]> {
             0x01_09 => PrimaryPerformerName(
                 primary_performer_name::PrimaryPerformerName::try_from(value)?,
             ),
-            0x01_10 => AccompanyingPerformerName(
+            0x01_0A => AccompanyingPerformerName(
                 accompanying_performer_name::AccompanyingPerformerName::try_from(value)?,
             ),
-            0x01_11 => RecordingDate(recording_date::RecordingDate::try_from(value)?),
-            0x01_12 => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
+            0x01_0B => RecordingDate(recording_date::RecordingDate::try_from(value)?),
+            0x01_0C => RecordingLocation(recording_location::RecordingLocation::try_from(value)?),
             0x02_00 => UnknownPerformanceText(
                 unknown_performance_text::UnknownPerformanceText::try_from(value)?,
             ),
-- 
2.43.0


From 4f9a671dd182b65f6f41e3ee0dcf6ef803d4e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 19/34] fix: unknown metadata text implements FlexDataMessage

---
 midi2/src/flex_data/unknown_metadata_text.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/midi2/src/flex_data/unknown_metadata_text.rs b/midi2/src/flex_data/unknown_metadata_text.rs
index 376a06c..2230dfa 100644
--- a/midi2/src/flex_data/unknown_metadata_text.rs
+++ b/midi2/src/flex_data/unknown_metadata_text.rs
@@ -47,6 +47,8 @@ impl<B: crate::buffer::Ump> crate::traits::Size<B> for UnknownMetadataText<B> {
     }
 }
 
+impl<B: crate::buffer::Ump> flex_data::FlexDataMessage<B> for UnknownMetadataText<B> {}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 2c0c8ddd0365c7d62384d4e6151271cc0588e690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 20/34] fix: flex data text is read from exactly the message's
 own packets

---
 midi2/src/flex_data.rs      | 22 ++++++++++++++++++----
 midi2/src/flex_data/text.rs |  8 +++++---
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 7be72ef..2ec97dd 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -926,8 +926,7 @@ impl<const STATUS: u8, B: Ump> Property<B> for StatusProperty<STATUS> {
 impl<'a, const STATUS: u8, B: Ump> ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
+        if message_packets(buffer.buffer())
             .chunks_exact(4)
             .all(|packet| packet[0].octet(3) == STATUS)
         {
@@ -957,8 +956,7 @@ impl<const BANK: u8, B: Ump> Property<B> for BankProperty<BANK> {
 impl<'a, const BANK: u8, B: Ump> ReadProperty<'a, B> for BankProperty<BANK> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
+        if message_packets(buffer.buffer())
             .chunks_exact(4)
             .all(|packet| packet[0].octet(2) == BANK)
         {
@@ -1165,6 +1163,22 @@ fn flex_data_dyn_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
         + 4
 }
 
+fn message_size(buffer: &[u32]) -> usize {
+    buffer
+        .chunks_exact(4)
+        .position(|p| {
+            let format: u8 = p[0].crumb(4).into();
+            format == COMPLETE_FORMAT || format == END_FORMAT
+        })
+        .map_or(buffer.len(), |last| 4 * last + 4)
+}
+
+// The packets of the message at the start of the buffer
+// without any data which follows the end of the message.
+fn message_packets(buffer: &[u32]) -> &[u32] {
+    &buffer[..message_size(buffer)]
+}
+
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
     buffer[0].octet(2)
 }
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index d097c26..3a53755 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -135,7 +135,9 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 12, Some(self.buffer.len() * 12))
+        let remaining = (self.buffer.len() / 4 - self.packet_index) * 12 - self.byte_index;
+        // zero bytes are skipped
+        (0, Some(remaining))
     }
 }
 
@@ -143,7 +145,7 @@ impl core::iter::FusedIterator for TextBytesIterator<'_> {}
 
 impl TextBytesIterator<'_> {
     fn finished(&self) -> bool {
-        self.packet_index == self.buffer.len() / 4 - 1 && self.byte_index == 11
+        self.packet_index >= self.buffer.len() / 4
     }
     fn advance(&mut self) {
         self.byte_index += 1;
@@ -170,7 +172,7 @@ impl<'a, B: Ump> Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: flex_data::message_packets(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
         }
-- 
2.43.0


From 88b392871f4a5274bfc0b481ffb59febbba9624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 21/34] fix: flex data channel is written to every packet of
 the message

---
 midi2/src/flex_data.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index 2ec97dd..a35fb92 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1021,9 +1021,9 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for OptionalChannelProperty {
     fn write(buffer: &mut B, v: Self::Type) {
-        let buffer_slice = buffer.buffer_mut();
-        let data = buffer_slice;
-        optional_channel_to_slice(data, v);
+        for packet in message_packets_mut(buffer.buffer_mut()).chunks_exact_mut(4) {
+            optional_channel_to_slice(packet, v);
+        }
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
@@ -1134,11 +1134,7 @@ impl<'a, B: Ump> ReadProperty<'a, B> for GroupProperty {
 
 impl<B: Ump + BufferMut> WriteProperty<B> for GroupProperty {
     fn write(buffer: &mut B, group: Self::Type) {
-        for packet in buffer
-            .buffer_mut()
-            .chunks_exact_mut(4)
-            .take_while(|packet| u8::from(packet[0].nibble(0)) == UMP_MESSAGE_TYPE)
-        {
+        for packet in message_packets_mut(buffer.buffer_mut()).chunks_exact_mut(4) {
             packet[0].set_nibble(1, group);
         }
     }
@@ -1179,6 +1175,11 @@ fn message_packets(buffer: &[u32]) -> &[u32] {
     &buffer[..message_size(buffer)]
 }
 
+fn message_packets_mut(buffer: &mut [u32]) -> &mut [u32] {
+    let size = message_size(buffer);
+    &mut buffer[..size]
+}
+
 fn bank_from_buffer(buffer: &[u32]) -> u8 {
     buffer[0].octet(2)
 }
-- 
2.43.0


From 749843f0997bc7d4f0a20fc0b9e049004eee79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:46 +0000
Subject: [PATCH 22/34] fix: flex data messages with inconsistent channels
 across packets are rejected

---
 midi2/src/flex_data.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/midi2/src/flex_data.rs b/midi2/src/flex_data.rs
index a35fb92..220890c 100755
--- a/midi2/src/flex_data.rs
+++ b/midi2/src/flex_data.rs
@@ -1014,8 +1014,18 @@ impl<'a, B: Ump> ReadProperty<'a, B> for OptionalChannelProperty {
     fn read(buffer: &'a B) -> Self::Type {
         optional_channel_from_slice(buffer.buffer())
     }
-    fn validate(_buffer: &B) -> Result<(), crate::error::InvalidData> {
-        Ok(())
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        let channel = optional_channel_from_slice(buffer.buffer());
+        if message_packets(buffer.buffer())
+            .chunks_exact(4)
+            .all(|packet| optional_channel_from_slice(packet) == channel)
+        {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData(
+                "Inconsistent channels across packets",
+            ))
+        }
     }
 }
 
-- 
2.43.0


From 24e81192d95ab7d2b44fc83c98ea7527bacc8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:49 +0000
Subject: [PATCH 23/34] fix: ump stream properties apply to exactly the
 message's own packets

---
 midi2/src/ump_stream.rs                     | 36 ++++++++++++++-------
 midi2/src/ump_stream/endpoint_name.rs       |  2 +-
 midi2/src/ump_stream/function_block_name.rs |  9 +++---
 midi2/src/ump_stream/product_instance_id.rs |  2 +-
 4 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 8123312..87e9e9a 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -123,9 +123,8 @@ impl<const STATUS: u16, B: Ump> property::Property<B> for StatusProperty<STATUS>
 impl<'a, const STATUS: u16, B: Ump> property::ReadProperty<'a, B> for StatusProperty<STATUS> {
     fn read(_buffer: &'a B) -> Self::Type {}
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        if buffer
-            .buffer()
-            .chunks_exact(4)
+        if message_packets(buffer.buffer())
+            .chunks(4)
             .all(|packet| status_from_buffer(packet) == STATUS)
         {
             Ok(())
@@ -140,7 +139,7 @@ impl<const STATUS: u16, B: Ump + BufferMut> property::WriteProperty<B> for Statu
         Ok(())
     }
     fn write(buffer: &mut B, _v: Self::Type) {
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in message_packets_mut(buffer.buffer_mut()).chunks_mut(4) {
             packet[0] &= !0x03FF_0000;
             packet[0] |= (STATUS as u32) << 16;
         }
@@ -176,7 +175,9 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for ConsistentFormatsProperty {
 impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsProperty {
     fn default() -> Self::Type {}
     fn write(buffer: &mut B, _v: Self::Type) {
-        set_format_fields(buffer.buffer_mut())
+        use crate::detail::BitOps;
+        // messages are initialised with a single packet
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
     }
     fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
         Ok(())
@@ -271,7 +272,10 @@ impl core::iter::Iterator for TextBytesIterator<'_> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        ((self.buffer.len() - 1) * 14, Some(self.buffer.len() * 14))
+        let remaining =
+            (self.buffer.len() / 4 - self.packet_index) * (14 - self.offset) - self.byte_index;
+        // zero bytes are skipped
+        (0, Some(remaining))
     }
 }
 
@@ -306,7 +310,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: message_packets(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 0,
@@ -415,19 +419,27 @@ fn write_message_header_data(buffer: &mut [u32], size: usize) {
     }
 }
 
-fn message_size<B: crate::buffer::Ump>(buffer: &B) -> usize {
+fn message_size(buffer: &[u32]) -> usize {
     use crate::detail::BitOps;
 
     buffer
-        .buffer()
         .chunks_exact(4)
         .position(|p| {
             let format: u8 = p[0].crumb(2).into();
             format == COMPLETE_FORMAT || format == END_FORMAT
         })
-        .expect("Message is in an invalid state. Couldn't find end packet.")
-        * 4
-        + 4
+        .map_or(buffer.len(), |last| 4 * last + 4)
+}
+
+// The packets of the message at the start of the buffer
+// without any data which follows the end of the message.
+fn message_packets(buffer: &[u32]) -> &[u32] {
+    &buffer[..message_size(buffer)]
+}
+
+fn message_packets_mut(buffer: &mut [u32]) -> &mut [u32] {
+    let size = message_size(buffer);
+    &mut buffer[..size]
 }
 
 fn status_from_buffer(buffer: &[u32]) -> u16 {
diff --git a/midi2/src/ump_stream/endpoint_name.rs b/midi2/src/ump_stream/endpoint_name.rs
index 422bb5f..9c90dc8 100644
--- a/midi2/src/ump_stream/endpoint_name.rs
+++ b/midi2/src/ump_stream/endpoint_name.rs
@@ -25,7 +25,7 @@ struct EndpointName {
 
 impl<B: crate::buffer::Ump> crate::traits::Size<B> for EndpointName<B> {
     fn size(&self) -> usize {
-        ump_stream::message_size(&self.0)
+        ump_stream::message_size(self.0.buffer())
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index 04f0d4b..ba144cc 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -32,7 +32,7 @@ struct FunctionBlockName {
 
 impl<B: Ump> crate::traits::Size<B> for FunctionBlockName<B> {
     fn size(&self) -> usize {
-        ump_stream::message_size(&self.0)
+        ump_stream::message_size(self.0.buffer())
     }
 }
 
@@ -47,8 +47,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for FunctionBlockProperty {
         use crate::detail::BitOps;
 
         let function_block = buffer.buffer()[0].octet(2);
-        if !buffer
-            .buffer()
+        if !ump_stream::message_packets(buffer.buffer())
             .chunks_exact(4)
             .all(|packet| packet[0].octet(2) == function_block)
         {
@@ -74,7 +73,7 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for FunctionBlockProperty {
     }
     fn write(buffer: &mut B, v: Self::Type) {
         use crate::detail::BitOps;
-        for packet in buffer.buffer_mut().chunks_exact_mut(4) {
+        for packet in ump_stream::message_packets_mut(buffer.buffer_mut()).chunks_exact_mut(4) {
             packet[0].set_octet(2, v);
         }
     }
@@ -89,7 +88,7 @@ impl<'a, B: Ump> property::Property<B> for TextReadBytesProperty<'a> {
 impl<'a, B: 'a + Ump> property::ReadProperty<'a, B> for TextReadBytesProperty<'a> {
     fn read(buffer: &'a B) -> <Self as property::Property<B>>::Type {
         ump_stream::TextBytesIterator {
-            buffer: buffer.buffer(),
+            buffer: ump_stream::message_packets(buffer.buffer()),
             packet_index: 0,
             byte_index: 0,
             offset: 1,
diff --git a/midi2/src/ump_stream/product_instance_id.rs b/midi2/src/ump_stream/product_instance_id.rs
index 5bb9666..797fd0b 100644
--- a/midi2/src/ump_stream/product_instance_id.rs
+++ b/midi2/src/ump_stream/product_instance_id.rs
@@ -25,7 +25,7 @@ struct ProductInstanceId {
 
 impl<B: crate::buffer::Ump> crate::traits::Size<B> for ProductInstanceId<B> {
     fn size(&self) -> usize {
-        ump_stream::message_size(&self.0)
+        ump_stream::message_size(self.0.buffer())
     }
 }
 
-- 
2.43.0


From 87982006178331515248094bf7836fc7f3ddf892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 24/34] fix: packets added to a function block name carry its
 function block number

---
 midi2/src/ump_stream.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 87e9e9a..564aee5 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -231,7 +231,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.resize(buffer_size);
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
     }
 
@@ -243,7 +243,7 @@ impl<const OFFSET: usize, B: Ump + BufferMut> property::ResizeProperty<B>
         buffer.try_resize(buffer_size)?;
         clear_payload::<OFFSET>(buffer.buffer_mut());
 
-        write_message_header_data(buffer.buffer_mut(), buffer_size);
+        write_message_header_data::<OFFSET>(buffer.buffer_mut(), buffer_size);
         set_format_fields(buffer.buffer_mut());
 
         Ok(())
@@ -402,16 +402,21 @@ fn required_buffer_size_for_str<const OFFSET: usize>(s: &str) -> usize {
     }
 }
 
-fn write_message_header_data(buffer: &mut [u32], size: usize) {
+fn write_message_header_data<const OFFSET: usize>(buffer: &mut [u32], size: usize) {
     use crate::detail::BitOps;
     use crate::ux::u4;
 
     let status = status_from_buffer(buffer);
+    let function_block = buffer[0].octet(2);
 
     for packet in buffer[..size].chunks_exact_mut(4) {
         packet[0].set_nibble(0, u4::new(UMP_MESSAGE_TYPE));
         packet[0] &= !0x03FF_0000;
         packet[0] |= (status as u32) << 16;
+        if OFFSET == 1 {
+            // the text is preceded by the function block number
+            packet[0].set_octet(2, function_block);
+        }
     }
 
     for packet in buffer[size..].chunks_exact_mut(4) {
-- 
2.43.0


From 0c1d03f2eff63452418d72d221ebd515e73ef48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:33 +0000
Subject: [PATCH 25/34] fix: single packet ump stream messages are complete in
 their own packet

---
 midi2/src/ump_stream.rs                       | 30 +++++++++++++++++++
 midi2/src/ump_stream/device_identity.rs       |  4 +--
 midi2/src/ump_stream/end_of_clip.rs           |  4 +--
 midi2/src/ump_stream/endpoint_discovery.rs    |  4 +--
 midi2/src/ump_stream/endpoint_info.rs         |  4 +--
 .../ump_stream/function_block_discovery.rs    |  4 +--
 midi2/src/ump_stream/function_block_info.rs   |  4 +--
 midi2/src/ump_stream/start_of_clip.rs         |  4 +--
 .../stream_configuration_notification.rs      |  4 +--
 .../stream_configuration_request.rs           |  4 +--
 10 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 564aee5..0ea897d 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -184,6 +184,36 @@ impl<B: Ump + BufferMut> property::WriteProperty<B> for ConsistentFormatsPropert
     }
 }
 
+// The format of messages which always fit within a single packet.
+struct CompleteFormatProperty;
+
+impl<B: Ump> property::Property<B> for CompleteFormatProperty {
+    type Type = ();
+}
+
+impl<'a, B: Ump> property::ReadProperty<'a, B> for CompleteFormatProperty {
+    fn read(_buffer: &'a B) -> Self::Type {}
+    fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
+        use crate::detail::BitOps;
+        if u8::from(buffer.buffer()[0].crumb(2)) == COMPLETE_FORMAT {
+            Ok(())
+        } else {
+            Err(crate::error::InvalidData("Incorrect message format"))
+        }
+    }
+}
+
+impl<B: Ump + BufferMut> property::WriteProperty<B> for CompleteFormatProperty {
+    fn default() -> Self::Type {}
+    fn write(buffer: &mut B, _v: Self::Type) {
+        use crate::detail::BitOps;
+        buffer.buffer_mut()[0].set_crumb(2, crate::ux::u2::new(COMPLETE_FORMAT));
+    }
+    fn validate(_v: &Self::Type) -> Result<(), crate::error::InvalidData> {
+        Ok(())
+    }
+}
+
 struct TextWriteStrProperty<'a, const OFFSET: usize>(core::marker::PhantomData<&'a u8>);
 
 impl<'a, const OFFSET: usize, B: Ump> property::Property<B> for TextWriteStrProperty<'a, OFFSET> {
diff --git a/midi2/src/ump_stream/device_identity.rs b/midi2/src/ump_stream/device_identity.rs
index 3718afd..6ffc7e6 100644
--- a/midi2/src/ump_stream/device_identity.rs
+++ b/midi2/src/ump_stream/device_identity.rs
@@ -13,8 +13,8 @@ struct DeviceIdentity {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<[u7; 3], schema::Ump<0x0, 0x007F_7F7F, 0x0, 0x0>>)]
     device_manufacturer: [u7; 3],
     #[property(common_properties::UmpSchemaProperty<u14, schema::Ump<0x0, 0x0, 0x7F7F_0000, 0x0>>)]
diff --git a/midi2/src/ump_stream/end_of_clip.rs b/midi2/src/ump_stream/end_of_clip.rs
index 91e151d..c2490c4 100644
--- a/midi2/src/ump_stream/end_of_clip.rs
+++ b/midi2/src/ump_stream/end_of_clip.rs
@@ -8,8 +8,8 @@ struct EndOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/endpoint_discovery.rs b/midi2/src/ump_stream/endpoint_discovery.rs
index 2a2e782..e3a51b7 100644
--- a/midi2/src/ump_stream/endpoint_discovery.rs
+++ b/midi2/src/ump_stream/endpoint_discovery.rs
@@ -12,8 +12,8 @@ struct EndpointDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/endpoint_info.rs b/midi2/src/ump_stream/endpoint_info.rs
index 0d1dc37..ee50688 100644
--- a/midi2/src/ump_stream/endpoint_info.rs
+++ b/midi2/src/ump_stream/endpoint_info.rs
@@ -13,8 +13,8 @@ struct EndpointInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     ump_version_major: u8,
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_00FF, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/function_block_discovery.rs b/midi2/src/ump_stream/function_block_discovery.rs
index d15c13a..766dc6b 100644
--- a/midi2/src/ump_stream/function_block_discovery.rs
+++ b/midi2/src/ump_stream/function_block_discovery.rs
@@ -12,8 +12,8 @@ struct FunctionBlockDiscovery {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     function_block_number: u8,
diff --git a/midi2/src/ump_stream/function_block_info.rs b/midi2/src/ump_stream/function_block_info.rs
index 410945b..037a2c9 100644
--- a/midi2/src/ump_stream/function_block_info.rs
+++ b/midi2/src/ump_stream/function_block_info.rs
@@ -13,8 +13,8 @@ struct FunctionBlockInfo {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_1000_0000_0000_0000, 0x0, 0x0, 0x0>>)]
     active: bool,
     #[property(common_properties::UmpSchemaProperty<u7, schema::Ump<0x0000_7F00, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/start_of_clip.rs b/midi2/src/ump_stream/start_of_clip.rs
index ac94fb9..b15c65a 100644
--- a/midi2/src/ump_stream/start_of_clip.rs
+++ b/midi2/src/ump_stream/start_of_clip.rs
@@ -8,8 +8,8 @@ struct StartOfClip {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
 }
 
 #[cfg(test)]
diff --git a/midi2/src/ump_stream/stream_configuration_notification.rs b/midi2/src/ump_stream/stream_configuration_notification.rs
index 554bdeb..ba353c6 100644
--- a/midi2/src/ump_stream/stream_configuration_notification.rs
+++ b/midi2/src/ump_stream/stream_configuration_notification.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationNotification {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
diff --git a/midi2/src/ump_stream/stream_configuration_request.rs b/midi2/src/ump_stream/stream_configuration_request.rs
index 8cf3879..764fb36 100644
--- a/midi2/src/ump_stream/stream_configuration_request.rs
+++ b/midi2/src/ump_stream/stream_configuration_request.rs
@@ -12,8 +12,8 @@ struct StreamConfigurationRequest {
     ump_type: (),
     #[property(ump_stream::StatusProperty<STATUS>)]
     status: (),
-    #[property(ump_stream::ConsistentFormatsProperty)]
-    consistent_formats: (),
+    #[property(ump_stream::CompleteFormatProperty)]
+    format: (),
     #[property(common_properties::UmpSchemaProperty<u8, schema::Ump<0x0000_FF00, 0x0, 0x0, 0x0>>)]
     protocol: u8,
     #[property(common_properties::UmpSchemaProperty<bool, schema::Ump<0b0000_0000_0000_0000_0000_0000_0000_0010, 0x0, 0x0, 0x0>>)]
-- 
2.43.0


From 3b7718a38ac9e60bc33dcfde4bc1100be453d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 26/34] fix: byte sizes of time code, song position pointer and
 tune request

---
 midi2/src/system_common.rs                       | 2 +-
 midi2/src/system_common/song_position_pointer.rs | 2 +-
 midi2/src/system_common/time_code.rs             | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/midi2/src/system_common.rs b/midi2/src/system_common.rs
index f3122ac..500ce5e 100644
--- a/midi2/src/system_common.rs
+++ b/midi2/src/system_common.rs
@@ -20,7 +20,7 @@ mod tune_request {
         Via(system_common::SystemCommon),
         FixedSize,
         MinSizeUmp(1),
-        MinSizeBytes(2)
+        MinSizeBytes(1)
     )]
     struct TuneRequest {
         #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/song_position_pointer.rs b/midi2/src/system_common/song_position_pointer.rs
index ea23dd6..1753655 100644
--- a/midi2/src/system_common/song_position_pointer.rs
+++ b/midi2/src/system_common/song_position_pointer.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF2;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(2)
+    MinSizeBytes(3)
 )]
 struct SongPositionPointer {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
diff --git a/midi2/src/system_common/time_code.rs b/midi2/src/system_common/time_code.rs
index 97ba7cd..74ece8b 100644
--- a/midi2/src/system_common/time_code.rs
+++ b/midi2/src/system_common/time_code.rs
@@ -12,7 +12,7 @@ pub const STATUS: u8 = 0xF1;
     Via(system_common::SystemCommon),
     FixedSize,
     MinSizeUmp(1),
-    MinSizeBytes(3)
+    MinSizeBytes(2)
 )]
 struct TimeCode {
     #[property(common_properties::UmpMessageTypeProperty<UMP_MESSAGE_TYPE>)]
-- 
2.43.0


From d726457010d2b2be83f84114f2fbdf0a10b6a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:14 +0000
Subject: [PATCH 27/34] fix: a key signature of zero flats can be written

---
 midi2/src/flex_data/set_key_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midi2/src/flex_data/set_key_signature.rs b/midi2/src/flex_data/set_key_signature.rs
index e45f479..9845121 100644
--- a/midi2/src/flex_data/set_key_signature.rs
+++ b/midi2/src/flex_data/set_key_signature.rs
@@ -76,7 +76,7 @@ impl<B: crate::buffer::Ump + crate::buffer::BufferMut> crate::detail::property::
             0,
             match v {
                 SharpsFlats::Sharps(v) => u4::from(v),
-                SharpsFlats::Flats(v) => u4::new((!u8::from(v) & 0b0000_1111) + 1),
+                SharpsFlats::Flats(v) => u4::new(u8::from(v).wrapping_neg() & 0b0000_1111),
                 SharpsFlats::NonStandard => u4::new(0x8),
             },
         );
-- 
2.43.0


From b3abf194d52828b87288f4470cf7f03e686c9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 28/34] fix: ci discovery queries which end before their last
 field are rejected

---
 midi2_proc/src/generate_ci.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 3850a26..34a583e 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -548,6 +548,9 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
                     return Err(crate::error::InvalidData("Incorrect CI version"));
                 }
                 let sysex7 = crate::sysex7::Sysex7::try_from(buffer)?;
+                if crate::Data::<&[u8]>::data(&sysex7).len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
+                    return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
+                }
                 let buffer = sysex7.buffer_access();
                 #validation_steps
                 Ok(#root_ident(sysex7))
-- 
2.43.0


From 00fee675aa584227b11026f413dc4a0d2bac247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:49 +0000
Subject: [PATCH 29/34] fix: removing a note attribute clears its data

---
 midi2/src/channel_voice2/attribute.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/midi2/src/channel_voice2/attribute.rs b/midi2/src/channel_voice2/attribute.rs
index cd2de49..5fb7f19 100644
--- a/midi2/src/channel_voice2/attribute.rs
+++ b/midi2/src/channel_voice2/attribute.rs
@@ -36,6 +36,7 @@ pub fn write_attribute(bytes: &mut [u32], attr: Option<Attribute>) -> &mut [u32]
     match attr {
         None => {
             bytes[0].set_octet(3, 0x0);
+            bytes[1].set_word(1, 0x0);
         }
         Some(a) => match a {
             Attribute::ManufacturerSpecific(d) => {
-- 
2.43.0


From 963b6017e510511375feca5ad5961fb5e26030b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:31 +0000
Subject: [PATCH 30/34] fix: new messages start zeroed whatever a default
 buffer contains

---
 midi2_proc/src/generate_message.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 6264864..578b61d 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -486,7 +486,11 @@ fn new_impl(
             {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
                 let buffer_ref_mut = &mut buffer;
-                buffer_ref_mut.resize(<Self as crate::traits::MinSize<B>>::MIN_SIZE);
+                let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
+                buffer_ref_mut.resize(sz);
+                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #initialise_properties
                 #root_ident::<B>(buffer)
             }
@@ -607,8 +611,12 @@ fn try_new_impl(
             pub fn try_new() -> core::result::Result<#root_ident<B>, crate::error::BufferOverflow>
             {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
-                buffer.try_resize(<Self as crate::traits::MinSize<B>>::MIN_SIZE)?;
                 let buffer_ref_mut = &mut buffer;
+                let sz = <Self as crate::traits::MinSize<B>>::MIN_SIZE;
+                buffer_ref_mut.try_resize(sz)?;
+                for b in &mut buffer_ref_mut.buffer_mut()[..sz] {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #initialise_properties
                 Ok(#root_ident::<B>(buffer))
             }
-- 
2.43.0


From 856c3d93446767ada82bbd516ce246c9fc984cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:45 +0000
Subject: [PATCH 31/34] fix: byte and ump conversions start from a zeroed
 buffer

---
 midi2_proc/src/generate_message.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/midi2_proc/src/generate_message.rs b/midi2_proc/src/generate_message.rs
index 578b61d..f9c7bdb 100644
--- a/midi2_proc/src/generate_message.rs
+++ b/midi2_proc/src/generate_message.rs
@@ -665,6 +665,9 @@ fn from_bytes_impl(root_ident: &syn::Ident, properties: &[Property]) -> TokenStr
             fn from_bytes(other: #root_ident<A>) -> Self {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
                 buffer.resize(<#root_ident<B> as crate::traits::MinSize<B>>::MIN_SIZE);
+                for b in buffer.buffer_mut() {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #convert_properties
                 Self(buffer)
             }
@@ -702,6 +705,9 @@ fn try_from_bytes_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
             fn try_from_bytes(other: #root_ident<A>) -> core::result::Result<Self, crate::error::BufferOverflow> {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
                 buffer.try_resize(<#root_ident<B> as crate::traits::MinSize<B>>::MIN_SIZE)?;
+                for b in buffer.buffer_mut() {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #convert_properties
                 Ok(Self(buffer))
             }
@@ -740,6 +746,9 @@ fn from_ump_impl(root_ident: &syn::Ident, properties: &[Property]) -> TokenStrea
             fn from_ump(other: #root_ident<A>) -> Self {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
                 buffer.resize(<#root_ident<B> as crate::traits::MinSize<B>>::MIN_SIZE);
+                for b in buffer.buffer_mut() {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #convert_properties
                 Self(buffer)
             }
@@ -777,6 +786,9 @@ fn try_from_ump_impl(root_ident: &syn::Ident, properties: &[Property]) -> TokenS
             fn try_from_ump(other: #root_ident<A>) -> core::result::Result<Self, crate::error::BufferOverflow> {
                 let mut buffer = <B as crate::buffer::BufferDefault>::default();
                 buffer.try_resize(<#root_ident<B> as crate::traits::MinSize<B>>::MIN_SIZE)?;
+                for b in buffer.buffer_mut() {
+                    *b = <<B as crate::buffer::Buffer>::Unit as crate::buffer::Unit>::zero();
+                }
                 #convert_properties
                 Ok(Self(buffer))
             }
-- 
2.43.0


From 04755f1715615ec68026acb0cc37e5164fa8d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:47 +0000
Subject: [PATCH 32/34] fix: sysex7 conversions start from a zeroed buffer

---
 midi2/src/sysex7.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/midi2/src/sysex7.rs b/midi2/src/sysex7.rs
index ef55d8d..b517568 100644
--- a/midi2/src/sysex7.rs
+++ b/midi2/src/sysex7.rs
@@ -383,6 +383,9 @@ fn try_from_other<
         &mut buffer,
         <Sysex7<B> as crate::traits::MinSize<B>>::MIN_SIZE,
     )?;
+    for unit in buffer.buffer_mut() {
+        *unit = <B::Unit as crate::buffer::Unit>::zero();
+    }
 
     convert_generated_properties(&other.0, &mut buffer);
 
-- 
2.43.0


From 72944bdba5b70d2cbbd2d775044868dc408360ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:53 +0000
Subject: [PATCH 33/34] fix: ci queries of an unsupported version are rejected
 when parsing

---
 midi2_proc/src/generate_ci.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/midi2_proc/src/generate_ci.rs b/midi2_proc/src/generate_ci.rs
index 34a583e..7f5b2f9 100644
--- a/midi2_proc/src/generate_ci.rs
+++ b/midi2_proc/src/generate_ci.rs
@@ -522,7 +522,12 @@ fn ci_impl(root_ident: &syn::Ident) -> TokenStream {
     }
 }
 
-fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> TokenStream {
+fn try_from_slice_impl(
+    root_ident: &syn::Ident,
+    properties: &[Property],
+    args: &GenerateCiArgs,
+) -> TokenStream {
+    let supported_versions = args.supported_versions.iter().map(|v| v.version);
     let mut validation_steps = TokenStream::new();
     for property in properties.iter().filter(|p| !p.writeonly) {
         let meta_type = &property.meta_type;
@@ -541,6 +546,9 @@ fn try_from_slice_impl(root_ident: &syn::Ident, properties: &[Property]) -> Toke
         impl<'a, const VERSION: u8> core::convert::TryFrom<&'a [u8]> for #root_ident<VERSION, &'a [u8]> {
             type Error = crate::error::InvalidData;
             fn try_from(buffer: &'a [u8]) -> core::result::Result<Self, Self::Error> {
+                if !matches!(VERSION, #(#supported_versions)|*) {
+                    return Err(crate::error::InvalidData("Unsupported CI version"));
+                }
                 if buffer.len() < <Self as crate::traits::MinSize<&[u8]>>::MIN_SIZE {
                     return Err(crate::error::InvalidData(crate::detail::common_err_strings::ERR_SLICE_TOO_SHORT));
                 }
@@ -605,7 +613,7 @@ pub fn generate_ci(attrs: TokenStream1, item: TokenStream1) -> TokenStream1 {
     let deref_sysex7_impl = deref_sysex7_impl(root_ident);
     let message_impl = message_impl(root_ident, &properties);
     let ci_impl = ci_impl(root_ident);
-    let try_from_slice_impl = try_from_slice_impl(root_ident, &properties);
+    let try_from_slice_impl = try_from_slice_impl(root_ident, &properties, &args);
     let rebuffer_from_impl = rebuffer_from_impl(root_ident);
     let try_rebuffer_from_impl = try_rebuffer_from_impl(root_ident);
 
-- 
2.43.0


From d5adb0817ba49bdb2f92eb0f370ea3c7681ae482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:51 +0000
Subject: [PATCH 34/34] fix: parsing a message with a text doesn't allocate

---
 midi2/src/detail/helpers.rs                 | 25 +++++++++++++++++++++
 midi2/src/flex_data/text.rs                 |  6 +----
 midi2/src/ump_stream.rs                     |  6 +----
 midi2/src/ump_stream/function_block_name.rs |  6 +----
 4 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/midi2/src/detail/helpers.rs b/midi2/src/detail/helpers.rs
index cbe8145..376f605 100644
--- a/midi2/src/detail/helpers.rs
+++ b/midi2/src/detail/helpers.rs
@@ -27,6 +27,31 @@ pub fn sysex_group_consistent_groups(
     }
 }
 
+#[cfg(all(feature = "std", any(feature = "flex-data", feature = "ump-stream")))]
+pub const ERR_INVALID_UTF8: &str = "Payload bytes do not represent a valid utf string";
+
+// Checks that the bytes form a utf8 string, one character at a time,
+// without collecting them.
+#[cfg(all(feature = "std", any(feature = "flex-data", feature = "ump-stream")))]
+pub fn validate_utf8(mut bytes: impl Iterator<Item = u8>) -> Result<(), crate::error::InvalidData> {
+    while let Some(lead) = bytes.next() {
+        let size = match lead {
+            0xC0..=0xDF => 2,
+            0xE0..=0xEF => 3,
+            0xF0.. => 4,
+            _ => 1,
+        };
+        let mut character = [lead, 0, 0, 0];
+        for byte in &mut character[1..size] {
+            *byte = bytes.next().unwrap_or_default();
+        }
+        if core::str::from_utf8(&character[..size]).is_err() {
+            return Err(crate::error::InvalidData(ERR_INVALID_UTF8));
+        }
+    }
+    Ok(())
+}
+
 pub const ERR_SYSEX_EXPECTED_COMPLETE: &str = "Expected Complete packet";
 pub const ERR_SYSEX_EXPECTED_BEGIN: &str = "Expected Begin packet";
 pub const ERR_SYSEX_EXPECTED_CONTINUE: &str = "Expected Continue packet";
diff --git a/midi2/src/flex_data/text.rs b/midi2/src/flex_data/text.rs
index 3a53755..04cd887 100644
--- a/midi2/src/flex_data/text.rs
+++ b/midi2/src/flex_data/text.rs
@@ -197,10 +197,6 @@ impl<'a, B: Ump> ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
diff --git a/midi2/src/ump_stream.rs b/midi2/src/ump_stream.rs
index 0ea897d..d95aa4b 100644
--- a/midi2/src/ump_stream.rs
+++ b/midi2/src/ump_stream.rs
@@ -366,11 +366,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
diff --git a/midi2/src/ump_stream/function_block_name.rs b/midi2/src/ump_stream/function_block_name.rs
index ba144cc..90f68bd 100644
--- a/midi2/src/ump_stream/function_block_name.rs
+++ b/midi2/src/ump_stream/function_block_name.rs
@@ -114,11 +114,7 @@ impl<'a, B: Ump> property::ReadProperty<'a, B> for TextReadStringProperty {
         std::string::String::from_utf8(bytes).unwrap()
     }
     fn validate(buffer: &B) -> Result<(), crate::error::InvalidData> {
-        let bytes = TextReadBytesProperty::read(buffer).collect();
-        std::string::String::from_utf8(bytes).map_err(|_| {
-            crate::error::InvalidData("Payload bytes do not represent a valid utf string")
-        })?;
-        Ok(())
+        crate::detail::helpers::validate_utf8(TextReadBytesProperty::read(buffer))
     }
 }
 
-- 
2.43.0

