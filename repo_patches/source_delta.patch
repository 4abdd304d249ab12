From 73ffeac785ee7c7d0d2370f33f5928c8c78c35d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 01/35] fix: order reference count updates between threads

Dropping a handle did not order its earlier uses before the release of the
storage by whichever thread drops the last one, and the uniqueness tests did
not order them before the storage is taken over. Cloning a SharedBytes no
longer makes an exclusive reference to the shared header.
---
 src/bytes_1/shared_bytes.rs |  6 ++++--
 src/external.rs             |  6 ++++--
 src/shared_bytes.rs         | 14 ++++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index 2b186a7..ea2c4c3 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -48,14 +48,16 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
     is_unique: |data| unsafe {
         let p = data.load(Ordering::Relaxed);
         let meta = &*(p as *const crate::SharedBytesMeta);
-        meta.refcnt.load(Ordering::Relaxed) == 1
+        meta.refcnt.load(Ordering::Acquire) == 1
     },
     drop: |data, _ptr, _len| unsafe {
         let p = data.load(Ordering::Relaxed) as *mut u8;
         let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Relaxed) != 1 {
+        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
             return;
         }
+        // every use through the other handles happens before the release of the memory
+        core::sync::atomic::fence(Ordering::Acquire);
         let layout =
             alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
         alloc::alloc::dealloc(p, layout);
diff --git a/src/external.rs b/src/external.rs
index ed01151..c15880d 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -361,7 +361,7 @@ impl ExtBytes {
         // SAFETY: `ExtBytesRef.data` is a valid pointer to `ExtBytesWrapper`.
         let ee = unsafe { &*dd.data };
         if ee.kind != core::any::TypeId::of::<T>()
-            || ee.ref_count.load(core::sync::atomic::Ordering::Relaxed) != 1
+            || ee.ref_count.load(core::sync::atomic::Ordering::Acquire) != 1
         {
             return Err(self);
         }
@@ -400,8 +400,10 @@ impl Drop for ExtBytes {
         let header = unsafe { &*ext_ref.data };
         let ref_count = header
             .ref_count
-            .fetch_sub(1, core::sync::atomic::Ordering::Relaxed);
+            .fetch_sub(1, core::sync::atomic::Ordering::Release);
         if ref_count == 1 {
+            // every use through the other handles happens before the owner goes away
+            core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index d2b9553..622368c 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -195,7 +195,7 @@ impl SharedBytes {
         let meta = dat.cast::<SharedBytesMeta>();
         // SAFETY: `meta` is a valid pointer.
         let meta = unsafe { &*meta };
-        meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1
+        meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1
     }
 
     /// Returns the bytes as a slice.
@@ -413,9 +413,9 @@ impl Clone for SharedBytes {
             return Self::EMPTY;
         }
         #[allow(clippy::cast_ptr_alignment)]
-        let dat = dat.cast::<SharedBytesMeta>().cast_mut();
-        // SAFETY: `dat` is a valid pointer.
-        unsafe { &mut *dat }
+        let meta = dat.cast::<SharedBytesMeta>();
+        // SAFETY: `meta` is a valid pointer.
+        unsafe { &*meta }
             .refcnt
             .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
         Self {
@@ -435,7 +435,9 @@ impl Drop for SharedBytes {
             // SAFETY: `dat` should point to a `SharedBytesMeta`.
             let meta = unsafe { &*dat.cast::<SharedBytesMeta>() };
             let refcnt = &meta.refcnt;
-            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Relaxed) == 1 {
+            if refcnt.fetch_sub(1, core::sync::atomic::Ordering::Release) == 1 {
+                // every use through the other handles happens before the release of the memory
+                core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
                 #[allow(clippy::unwrap_used)]
                 let layout =
                     core::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
@@ -541,7 +543,7 @@ impl From<SharedBytes> for SharedBytesBuilder {
         #[allow(clippy::cast_ptr_alignment)]
         let meta = unsafe { &*dat_dat.cast::<SharedBytesMeta>() };
         let align = meta.align();
-        if meta.refcnt.load(core::sync::atomic::Ordering::Relaxed) == 1 {
+        if meta.refcnt.load(core::sync::atomic::Ordering::Acquire) == 1 {
             let len = meta.len;
             let dat_len = dat.len;
             let dataptr = dat_dat.cast_mut();
-- 
2.43.0


From aaf6a7bed72d724a2f464de68361b96fc370c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 02/35] fix: release the shared storage when a Bytes view is
 turned into Vec or BytesMut

---
 src/bytes_1/shared_bytes.rs | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/bytes_1/shared_bytes.rs b/src/bytes_1/shared_bytes.rs
index ea2c4c3..7440f2c 100644
--- a/src/bytes_1/shared_bytes.rs
+++ b/src/bytes_1/shared_bytes.rs
@@ -8,6 +8,28 @@ use ::bytes_1 as bytes;
 
 use crate::SharedBytes;
 
+#[cfg(not(feature = "bytes_1_safe"))]
+/// Gives up one reference to the shared storage when dropped.
+struct Release(*mut ());
+
+#[cfg(not(feature = "bytes_1_safe"))]
+impl Drop for Release {
+    fn drop(&mut self) {
+        let p = self.0.cast::<u8>();
+        // SAFETY: the pointer comes from a live `SharedBytes` reference.
+        let meta = unsafe { &*p.cast::<crate::SharedBytesMeta>() };
+        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
+            return;
+        }
+        // every use through the other handles happens before the release of the memory
+        core::sync::atomic::fence(Ordering::Acquire);
+        let layout =
+            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
+        // SAFETY: this was the last reference, and the layout is the one it was allocated with.
+        unsafe { alloc::alloc::dealloc(p, layout) };
+    }
+}
+
 #[cfg(not(feature = "bytes_1_safe"))]
 /// A vtable compatible with bytes::Vtable.
 static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
@@ -23,7 +45,9 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         .into_bytes()
     },
-    to_vec: |_data, ptr, len| {
+    to_vec: |data, ptr, len| {
+        // the caller hands its reference over
+        let _release = Release(data.load(Ordering::Relaxed));
         if len == 0 {
             return Vec::new();
         }
@@ -34,7 +58,9 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         }
         vec
     },
-    to_mut: |_data, ptr, len| {
+    to_mut: |data, ptr, len| {
+        // the caller hands its reference over
+        let _release = Release(data.load(Ordering::Relaxed));
         if len == 0 {
             return bytes::BytesMut::new();
         }
@@ -50,17 +76,8 @@ static SHARED_BYTES_BVT: super::SBytesVtable = super::SBytesVtable {
         let meta = &*(p as *const crate::SharedBytesMeta);
         meta.refcnt.load(Ordering::Acquire) == 1
     },
-    drop: |data, _ptr, _len| unsafe {
-        let p = data.load(Ordering::Relaxed) as *mut u8;
-        let meta = &*(p as *const crate::SharedBytesMeta);
-        if meta.refcnt.fetch_sub(1, Ordering::Release) != 1 {
-            return;
-        }
-        // every use through the other handles happens before the release of the memory
-        core::sync::atomic::fence(Ordering::Acquire);
-        let layout =
-            alloc::alloc::Layout::from_size_align(meta.len as usize, meta.align()).unwrap();
-        alloc::alloc::dealloc(p, layout);
+    drop: |data, _ptr, _len| {
+        drop(Release(data.load(Ordering::Relaxed)));
     },
 };
 
-- 
2.43.0


From 8ef6228838ed8ad7eac1c877df74a8bf3095adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 03/35] fix: an external ByteData cut down to nothing is empty

---
 src/bytedata.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index cf853eb..6133a58 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -491,7 +491,17 @@ impl<'a> ByteData<'a> {
             }
             .is_empty(),
             #[cfg(feature = "alloc")]
-            Kind::External => false,
+            // SAFETY: External state has been checked.
+            Kind::External => {
+                unsafe {
+                    core::mem::transmute::<
+                        &core::mem::ManuallyDrop<crate::external::ExtBytes>,
+                        &crate::external::ExtBytes,
+                    >(&self.external)
+                }
+                .len()
+                    == 0
+            }
         }
     }
 
-- 
2.43.0


From 59342b290beee3a23791387ac814c6d33c2f7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 04/35] fix: count the chamber chunk moved into a node by
 ByteQueue::append

It was left out of the chunk count, and dropped altogether when it was the
only chunk of the appended queue.
---
 src/queue/linked_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 91962b3..892cb48 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -272,8 +272,9 @@ impl<'a> LinkedRoot<'a> {
             other.count -= 1;
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
             if let Some(fst) = unsafe { other.first.as_mut() } {
-                if let Err(val) = fst.data.push_front(chamber) {
-                    self.push_back(val);
+                match fst.data.push_front(chamber) {
+                    Ok(()) => other.count += 1,
+                    Err(val) => self.push_back(val),
                 }
             } else {
                 self.push_back(chamber);
-- 
2.43.0


From 023e52aa6f66f8c5db0c9de92826243190d12e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:35 +0000
Subject: [PATCH 05/35] fix: count the bytes a ByteQueue is extended with from
 text

---
 src/queue/byte_queue.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 8fbdb8d..df4dde5 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -699,7 +699,7 @@ impl<'a> Extend<crate::StringData<'a>> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = crate::StringData<'a>>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(i.into_bytedata());
+            self.push_back(i.into_bytedata());
         }
     }
 }
@@ -708,7 +708,7 @@ impl<'a> Extend<&'a str> for ByteQueue<'a> {
     #[inline]
     fn extend<T: IntoIterator<Item = &'a str>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_borrowed(i.as_bytes()));
+            self.push_back(ByteData::from_borrowed(i.as_bytes()));
         }
     }
 }
@@ -720,7 +720,7 @@ impl Extend<alloc::string::String> for ByteQueue<'_> {
     #[inline]
     fn extend<T: IntoIterator<Item = alloc::string::String>>(&mut self, iter: T) {
         for i in iter {
-            self.queue.push_back(ByteData::from_owned(i.into_bytes()));
+            self.push_back(ByteData::from_owned(i.into_bytes()));
         }
     }
 }
-- 
2.43.0


From 02b2c5177c4861d922bc877ef0171ad801c8f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 06/35] fix: refuse ranges whose bounds overflow or are
 reversed

In release builds the arithmetic on the bounds wrapped around, so that such a
range was accepted and a view outside of the data could be produced.
---
 src/byte_chunk.rs       | 12 ++++++------
 src/external.rs         |  8 ++++----
 src/queue/byte_queue.rs |  2 +-
 src/shared_bytes.rs     | 20 +++++++++++---------
 src/stringdata.rs       |  4 ++--
 5 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/byte_chunk.rs b/src/byte_chunk.rs
index cabffe3..db6fc9a 100644
--- a/src/byte_chunk.rs
+++ b/src/byte_chunk.rs
@@ -129,11 +129,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -151,11 +151,11 @@ impl ByteChunk {
     ) -> Self {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
@@ -171,11 +171,11 @@ impl ByteChunk {
     ) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => self.len as usize,
         };
diff --git a/src/external.rs b/src/external.rs
index c15880d..36e0b28 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -242,11 +242,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&st) => st,
-            core::ops::Bound::Excluded(&st) => st + 1,
+            core::ops::Bound::Excluded(&st) => st.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
@@ -275,11 +275,11 @@ impl ExtBytes {
         let len = dd.len();
         let start = match range.start_bound() {
             core::ops::Bound::Included(&start) => start,
-            core::ops::Bound::Excluded(&start) => start + 1,
+            core::ops::Bound::Excluded(&start) => start.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(&end) => end + 1,
+            core::ops::Bound::Included(&end) => end.saturating_add(1),
             core::ops::Bound::Excluded(&end) => end,
             core::ops::Bound::Unbounded => len,
         };
diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index df4dde5..0ba0ad7 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -180,7 +180,7 @@ impl<'a> ByteQueue<'a> {
         };
         let start = match range.start_bound() {
             core::ops::Bound::Included(vv) => *vv,
-            core::ops::Bound::Excluded(vv) => *vv + 1,
+            core::ops::Bound::Excluded(vv) => vv.saturating_add(1),
             core::ops::Bound::Unbounded => 0,
         };
         assert!(
diff --git a/src/shared_bytes.rs b/src/shared_bytes.rs
index 622368c..ac16571 100644
--- a/src/shared_bytes.rs
+++ b/src/shared_bytes.rs
@@ -255,7 +255,7 @@ impl SharedBytes {
             "SharedBytes::sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::sliced: offset + len out of bounds"
         );
         if len == 0 {
@@ -288,11 +288,11 @@ impl SharedBytes {
     pub fn sliced_range<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
@@ -314,7 +314,7 @@ impl SharedBytes {
             "SharedBytes::into_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::into_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -335,7 +335,7 @@ impl SharedBytes {
             "SharedBytes::make_sliced: offset out of bounds"
         );
         assert!(
-            offset + len <= self.len as usize,
+            len <= self.len as usize - offset,
             "SharedBytes::make_sliced: offset + len out of bounds"
         );
         self.len = len as u32;
@@ -354,14 +354,15 @@ impl SharedBytes {
     pub fn into_sliced_range<R: RangeBounds<usize>>(self, range: R) -> Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::into_sliced_range: end < start");
         self.into_sliced(start, end - start)
     }
 
@@ -375,14 +376,15 @@ impl SharedBytes {
     pub fn make_sliced_range<R: RangeBounds<usize>>(&mut self, range: R) -> &mut Self {
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len as usize,
         };
+        assert!(end >= start, "SharedBytes::make_sliced_range: end < start");
         self.make_sliced(start, end - start)
     }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d434ee9..d5e7867 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -284,11 +284,11 @@ impl<'a> StringData<'a> {
         let by = self.data.as_slice();
         let start = match range.start_bound() {
             Bound::Included(start) => *start,
-            Bound::Excluded(start) => *start + 1,
+            Bound::Excluded(start) => start.saturating_add(1),
             Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            Bound::Included(end) => end + 1,
+            Bound::Included(end) => end.saturating_add(1),
             Bound::Excluded(end) => *end,
             Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 024f362628f951b3d4c496f0df2342376a85b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 07/35] fix: release an external owner's storage when its code
 panics or an allocation fails

The owner, its header or a reference was leaked (or, for make_sliced and
into_sliced, dropped twice) if as_slice or drop of the owner panicked, or if
the allocation of the view failed.
---
 src/bytedata.rs |  24 ++++-----
 src/external.rs | 138 +++++++++++++++++++++++++-----------------------
 2 files changed, 82 insertions(+), 80 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 6133a58..031c676 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -633,11 +633,7 @@ impl<'a> ByteData<'a> {
                 };
                 dat.make_sliced_range(range);
                 if dat.len() <= crate::byte_chunk::ByteChunk::LEN {
-                    let ret = Self::from_chunk_slice(dat.as_slice());
-                    // SAFETY: safe drop because the data is valid on the line above.
-                    unsafe { core::ptr::drop_in_place(dat) };
-                    core::mem::forget(self);
-                    ret
+                    Self::from_chunk_slice(dat.as_slice())
                 } else {
                     self
                 }
@@ -697,14 +693,16 @@ impl<'a> ByteData<'a> {
                     return;
                 }
                 let ret = crate::ByteChunk::from_slice(dat.as_slice());
-                // SAFETY: safe drop because the data is valid on the lines above.
-                unsafe {
-                    core::ptr::drop_in_place(dat);
-                };
-                self.chunk = DataKind {
-                    kind: KIND_CHUNK_MASK,
-                    data: ret,
-                };
+                // replaced before the old value is dropped, as dropping the external data may panic
+                core::mem::drop(core::mem::replace(
+                    self,
+                    Self {
+                        chunk: DataKind {
+                            kind: KIND_CHUNK_MASK,
+                            data: ret,
+                        },
+                    },
+                ));
             }
         }
     }
diff --git a/src/external.rs b/src/external.rs
index 36e0b28..e86b026 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -148,68 +148,65 @@ impl ExtBytes {
             offset += align - (offset % align);
         }
 
-        let (data, len, ptr) = {
-            #[allow(clippy::unwrap_used)]
-            let layout = core::alloc::Layout::from_size_align(alloc, align).unwrap();
-            // SAFETY: `layout` is a valid layout.
-            let data = unsafe { alloc::alloc::alloc(layout) };
-            if data.is_null() {
-                alloc::alloc::handle_alloc_error(layout);
-            }
+        let mut ext_ref = alloc::boxed::Box::new(ExtBytesRef {
+            data: core::ptr::null(),
+            ptr: core::ptr::null(),
+            len: 0,
+        });
 
-            // SAFETY: `data` is a valid pointer to an allocated area.
-            let payload = unsafe { data.add(offset).cast::<T::External>() };
-            // SAFETY: writing to the location we just calculated is safe.
-            unsafe {
-                payload.write(ext_bytes);
-            };
+        #[allow(clippy::unwrap_used)]
+        let layout = core::alloc::Layout::from_size_align(alloc, align).unwrap();
+        // SAFETY: `layout` is a valid layout.
+        let data = unsafe { alloc::alloc::alloc(layout) };
+        if data.is_null() {
+            alloc::alloc::handle_alloc_error(layout);
+        }
 
-            // SAFETY: `payload` is a valid pointer to `T::External` as we just wrote to it.
-            let sl = as_slice(unsafe { &*payload });
-            let len = sl.len();
-            let ptr = sl.as_ptr();
+        // SAFETY: `data` is a valid pointer to an allocated area.
+        let payload = unsafe { data.add(offset).cast::<T::External>() };
+        // SAFETY: writing to the location we just calculated is safe.
+        unsafe {
+            payload.write(ext_bytes);
+        };
 
-            if len <= crate::ByteChunk::LEN {
-                let aa = crate::ByteData::from_chunk_slice(sl);
-                if let Some(drop) = <T::External>::OPS.drop {
-                    // SAFETY: `payload` is a valid pointer to `T` which should be dropped.
-                    unsafe { drop(payload) };
-                }
-                // SAFETY: `data` is a valid pointer to an allocated area.
-                unsafe { alloc::alloc::dealloc(data, layout) };
-                return aa;
-            }
+        #[allow(clippy::cast_ptr_alignment)]
+        let header = data.cast::<ExtBytesWrapper>();
+        let item = ExtBytesWrapper {
+            // SAFETY: `T::OPS.drop` is an optional function pointer.
+            drop: unsafe {
+                core::mem::transmute::<
+                    Option<unsafe fn(*mut T::External)>,
+                    Option<unsafe fn(*mut ())>,
+                >(<T::External>::OPS.drop)
+            },
+            alloc,
+            ref_count: core::sync::atomic::AtomicU32::new(1),
+            #[allow(clippy::cast_possible_truncation)]
+            align: align as u32,
+            kind: core::any::TypeId::of::<T::External>(),
+        };
+        // SAFETY: `header` is a valid pointer to `ExtBytesWrapper`.
+        unsafe { header.write(item) };
 
-            #[allow(clippy::cast_ptr_alignment)]
-            let header = data.cast::<ExtBytesWrapper>();
-            let item = ExtBytesWrapper {
-                // SAFETY: `T::OPS.drop` is an optional function pointer.
-                drop: unsafe {
-                    core::mem::transmute::<
-                        Option<unsafe fn(*mut T::External)>,
-                        Option<unsafe fn(*mut ())>,
-                    >(<T::External>::OPS.drop)
-                },
-                alloc,
-                ref_count: core::sync::atomic::AtomicU32::new(1),
-                #[allow(clippy::cast_possible_truncation)]
-                align: align as u32,
-                kind: core::any::TypeId::of::<T::External>(),
-            };
-            // SAFETY: `header` is a valid pointer to `ExtBytesWrapper`.
-            unsafe { header.write(item) };
-
-            (header, len, ptr)
+        ext_ref.data = header;
+        // from here on everything is released by `ret`, even if `as_slice` panics
+        let ret = Self {
+            magic: Self::MAGIC,
+            data: alloc::boxed::Box::into_raw(ext_ref),
         };
 
-        let data =
-            alloc::boxed::Box::into_raw(alloc::boxed::Box::new(ExtBytesRef { data, ptr, len }));
+        // SAFETY: `payload` is a valid pointer to `T::External` as we just wrote to it.
+        let sl = as_slice(unsafe { &*payload });
+        if sl.len() <= crate::ByteChunk::LEN {
+            return crate::ByteData::from_chunk_slice(sl);
+        }
+        // SAFETY: `ret.data` is a valid and unique pointer to `ExtBytesRef`.
+        let bref = unsafe { &mut *ret.data.cast_mut() };
+        bref.ptr = sl.as_ptr();
+        bref.len = sl.len();
 
         crate::ByteData {
-            external: core::mem::ManuallyDrop::new(Self {
-                magic: Self::MAGIC,
-                data,
-            }),
+            external: core::mem::ManuallyDrop::new(ret),
         }
     }
 
@@ -394,7 +391,8 @@ impl Drop for ExtBytes {
         debug_assert!(!self.data.is_null(), "null pointer in ExtBytes");
 
         // SAFETY: `data` is a valid pointer to a boxed `ExtBytesRef`.
-        let ext_ref = unsafe { &mut *self.data.cast_mut() };
+        let ext_ref = unsafe { alloc::boxed::Box::from_raw(self.data.cast_mut()) };
+        self.data = core::ptr::null();
         debug_assert!(!ext_ref.data.is_null(), "null pointer in ExtBytes");
         // SAFETY: `ext_ref.data` is a valid pointer to a `ExtBytesWrapper`.
         let header = unsafe { &*ext_ref.data };
@@ -404,6 +402,11 @@ impl Drop for ExtBytes {
         if ref_count == 1 {
             // every use through the other handles happens before the owner goes away
             core::sync::atomic::fence(core::sync::atomic::Ordering::Acquire);
+            #[allow(clippy::unwrap_used)]
+            let layout =
+                core::alloc::Layout::from_size_align(header.alloc, header.align as usize).unwrap();
+            // the area is released even if dropping the data panics
+            let _area = Area(ext_ref.data.cast::<u8>().cast_mut(), layout);
             if let Some(drop) = header.drop {
                 let mut offset = core::mem::size_of::<ExtBytesWrapper>();
                 let align_mod = offset % header.align as usize;
@@ -415,15 +418,17 @@ impl Drop for ExtBytes {
                 // SAFETY: `ptr` is a valid pointer to the data, which should be dropped.
                 unsafe { drop(ptr.cast()) };
             }
-            #[allow(clippy::unwrap_used)]
-            let layout =
-                core::alloc::Layout::from_size_align(header.alloc, header.align as usize).unwrap();
-            // SAFETY: `ext_ref.data` is a valid pointer to an allocated area.
-            unsafe { alloc::alloc::dealloc(ext_ref.data.cast::<u8>().cast_mut(), layout) };
         }
-        // SAFETY: `ext_ref` is a valid pointer to a boxed `ExtBytesRef`.
-        core::mem::drop(unsafe { alloc::boxed::Box::from_raw(ext_ref) });
-        self.data = core::ptr::null();
+    }
+}
+
+/// An allocated area which is released when dropped.
+struct Area(*mut u8, core::alloc::Layout);
+
+impl Drop for Area {
+    fn drop(&mut self) {
+        // SAFETY: the pointer is an allocated area with the given layout.
+        unsafe { alloc::alloc::dealloc(self.0, self.1) };
     }
 }
 
@@ -441,15 +446,14 @@ impl Clone for ExtBytes {
 
         // SAFETY: `ext_ref.data` is a valid pointer to a `ExtBytesWrapper`.
         let header = unsafe { &*(ext_ref.data) };
-        header
-            .ref_count
-            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
-
         let ret = alloc::boxed::Box::new(ExtBytesRef {
             data: ext_ref.data,
             ptr: ext_ref.ptr,
             len: ext_ref.len,
         });
+        header
+            .ref_count
+            .fetch_add(1, core::sync::atomic::Ordering::Relaxed);
 
         Self {
             magic: Self::MAGIC,
-- 
2.43.0


From f963e33b94f2e68e0b13a98073d408506f049e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 08/35] fix: keep a ByteQueue's chunks and counts consistent
 when a push, append or chunk drop unwinds

---
 src/queue/byte_queue.rs       | 10 +++--
 src/queue/linked_node_data.rs | 17 +++----
 src/queue/linked_root.rs      | 85 ++++++++++++++++++++---------------
 3 files changed, 65 insertions(+), 47 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index 0ba0ad7..b760bbe 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -60,8 +60,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_back(data);
+        self.remain += len;
     }
 
     /// Prepend bytes into the queue.
@@ -71,8 +72,9 @@ impl<'a> ByteQueue<'a> {
         if data.is_empty() {
             return;
         }
-        self.remain += data.len();
+        let len = data.len();
         self.queue.push_front(data);
+        self.remain += len;
     }
 
     /// Remove bytes from the front of the queue.
@@ -433,10 +435,10 @@ impl<'a> ByteQueue<'a> {
     #[inline]
     #[cfg(feature = "alloc")]
     pub fn append(&mut self, mut other: Self) {
-        self.remain += other.remain;
-        other.remain = 0;
+        let len = core::mem::replace(&mut other.remain, 0);
         self.queue
             .append(core::mem::replace(&mut other.queue, LinkedRoot::new()));
+        self.remain += len;
     }
 
     /// Split the queue at a certain index.
diff --git a/src/queue/linked_node_data.rs b/src/queue/linked_node_data.rs
index 847e9f0..5901b8c 100644
--- a/src/queue/linked_node_data.rs
+++ b/src/queue/linked_node_data.rs
@@ -113,15 +113,16 @@ impl<'a> LinkedNodeData<'a> {
 
 impl Drop for LinkedNodeData<'_> {
     fn drop(&mut self) {
-        let mut beg = self.beg as usize;
+        /// Drops the remaining items even if dropping one of them panics.
+        struct Items<'a, 'b>(&'b mut LinkedNodeData<'a>);
 
-        #[allow(clippy::integer_division_remainder_used)]
-        for _ in 0..self.len {
-            // SAFETY: `b` is a valid index so we must drop it
-            unsafe {
-                self.data[beg].as_mut_ptr().drop_in_place();
-            };
-            beg = (beg + 1) % self.data.len();
+        impl Drop for Items<'_, '_> {
+            fn drop(&mut self) {
+                while self.0.pop_front().is_some() {}
+            }
         }
+
+        let items = Items(self);
+        while items.0.pop_front().is_some() {}
     }
 }
diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 892cb48..42e14fe 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -150,8 +150,13 @@ impl<'a> LinkedRoot<'a> {
         self.last = node;
     }
 
+    /// Makes `data` the chamber and moves the previous chamber to a new node.
     fn push_front_alloc(&mut self, data: ByteData<'a>) {
-        let node = alloc::boxed::Box::new(super::linked_node_leaf::LinkedNodeLeaf::with_item(data));
+        let mut node = alloc::boxed::Box::new(
+            super::linked_node_leaf::LinkedNodeLeaf::with_item(ByteData::empty()),
+        );
+        // nothing is moved before there is a place for it, as the allocation may fail
+        node.data.data[0].write(core::mem::replace(&mut self.chamber, data));
         let node = alloc::boxed::Box::into_raw(node);
         self.count += 1;
         // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
@@ -257,15 +262,6 @@ impl<'a> LinkedRoot<'a> {
             *self = other;
             return;
         }
-        if self.count == 1 && !self.chamber.is_empty() {
-            other.push_front(core::mem::replace(
-                &mut self.chamber,
-                ByteData::from_chunk(&[0]),
-            ));
-            *self = other;
-            return;
-        }
-
         // attempt to move the chambered item without allocating
         if !other.chamber.is_empty() {
             let chamber = core::mem::replace(&mut other.chamber, ByteData::empty());
@@ -284,6 +280,14 @@ impl<'a> LinkedRoot<'a> {
             }
         }
 
+        // an emptied node may only remain as long as it is the only one
+        if self.last().is_some_and(|x| x.len == 0) {
+            // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
+            core::mem::drop(unsafe { alloc::boxed::Box::from_raw(self.last) });
+            self.first = core::ptr::null_mut();
+            self.last = core::ptr::null_mut();
+        }
+
         // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
         if let Some(last) = unsafe { self.last.as_mut() } {
             // SAFETY: if the pointer is non-null it points to a valid `LinkedNodeLeaf`.
@@ -337,37 +341,36 @@ impl<'a> LinkedRoot<'a> {
         self.push_back_alloc(data);
     }
 
-    pub(super) fn push_front(&mut self, mut data: ByteData<'a>) {
+    pub(super) fn push_front(&mut self, data: ByteData<'a>) {
         if data.is_empty() {
             return;
         }
         #[cfg(feature = "alloc")]
-        {
-            core::mem::swap(&mut self.chamber, &mut data);
-            if data.is_empty() {
+        let data = {
+            if self.chamber.is_empty() {
+                self.chamber = data;
                 self.count += 1;
                 return;
             }
-        }
-        #[allow(unused_assignments)]
+            if self.first().map_or(true, |x| x.len as usize == x.data.len()) {
+                self.push_front_alloc(data);
+                return;
+            }
+            core::mem::replace(&mut self.chamber, data)
+        };
         if let Some(first) = self.first_mut() {
-            data = match first.push_front(data) {
-                Ok(()) => {
-                    #[cfg(feature = "alloc")]
-                    {
-                        self.count += 1;
-                    };
-                    return;
-                }
-                Err(val) => val,
-            };
+            if first.push_front(data).is_ok() {
+                #[cfg(feature = "alloc")]
+                {
+                    self.count += 1;
+                };
+                return;
+            }
         }
         #[cfg(not(feature = "alloc"))]
         panic!(
             "ByteQueue::push_front: out of space, use `alloc` feature to enable dynamic allocation"
         );
-        #[cfg(feature = "alloc")]
-        self.push_front_alloc(data);
     }
 
     #[inline]
@@ -406,14 +409,26 @@ impl Default for LinkedRoot<'_> {
 impl Drop for LinkedRoot<'_> {
     #[cfg(feature = "alloc")]
     fn drop(&mut self) {
-        let mut node = self.first;
-        // SAFETY: if the pointer is non-null, it is a valid pointer to a `LinkedNodeLeaf`.
-        while let Some(n) = unsafe { node.as_mut() } {
-            // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
-            let n = unsafe { alloc::boxed::Box::from_raw(n) };
-            node = n.next;
-            core::mem::drop(n);
+        /// Frees the remaining nodes even if dropping one of them panics.
+        struct Nodes<'a>(*mut super::linked_node_leaf::LinkedNodeLeaf<'a>);
+
+        impl Drop for Nodes<'_> {
+            fn drop(&mut self) {
+                free(self);
+            }
+        }
+
+        fn free(nodes: &mut Nodes<'_>) {
+            while !nodes.0.is_null() {
+                // SAFETY: the pointer is a valid and non-null pointer to a boxed `LinkedNodeLeaf`.
+                let node = unsafe { alloc::boxed::Box::from_raw(nodes.0) };
+                nodes.0 = node.next;
+                core::mem::drop(node);
+            }
         }
+
+        let mut nodes = Nodes(self.first);
+        free(&mut nodes);
     }
 
     #[cfg(not(feature = "alloc"))]
-- 
2.43.0


From fe6c0f3f9628fceeafd7f855c2ad865daec8ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 09/35] fix: drop an empty queue's emptied chunk before taking
 a new one

---
 src/queue/linked_root.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 42e14fe..67156ca 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -259,6 +259,8 @@ impl<'a> LinkedRoot<'a> {
             return;
         }
         if self.count == 0 {
+            // dropped before anything changes, as dropping it may panic
+            core::mem::drop(core::mem::replace(&mut self.chamber, ByteData::empty()));
             *self = other;
             return;
         }
@@ -316,6 +318,8 @@ impl<'a> LinkedRoot<'a> {
         }
         #[cfg(feature = "alloc")]
         if self.count == 0 {
+            // dropped before anything changes, as dropping it may panic
+            core::mem::drop(core::mem::replace(&mut self.chamber, ByteData::empty()));
             self.chamber = data;
             self.count = 1;
             return;
@@ -348,6 +352,8 @@ impl<'a> LinkedRoot<'a> {
         #[cfg(feature = "alloc")]
         let data = {
             if self.chamber.is_empty() {
+                // dropped before anything changes, as dropping it may panic
+                core::mem::drop(core::mem::replace(&mut self.chamber, ByteData::empty()));
                 self.chamber = data;
                 self.count += 1;
                 return;
-- 
2.43.0


From 99ffd1d542aae1dc8a058c3d1189f6b3cb3b2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:33 +0000
Subject: [PATCH 10/35] fix: StringQueue::slice refuses every range off a
 character boundary

---
 src/queue/string_queue.rs | 43 +++------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 4fce109..7676802 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -159,47 +159,10 @@ impl<'a> StringQueue<'a> {
     #[inline]
     #[must_use]
     pub fn slice<R: core::ops::RangeBounds<usize>>(&self, range: R) -> Self {
-        fn inner(slic: ByteQueue<'_>) -> StringQueue<'_> {
-            #[allow(clippy::expect_used)]
-            let front = slic.front().expect("not empty");
-            assert!(
-                front[0] & 0b1100_0000 != 0b1000_0000,
-                "StringQueue: Invalid UTF-8 start in range"
-            );
-            #[allow(clippy::expect_used)]
-            let by = slic.back().expect("not empty");
-            let end_byte = by[by.len() - 1];
-            assert!(
-                end_byte & 0b1100_0000 != 0b1100_0000,
-                "StringQueue: Invalid UTF-8 end in range"
-            );
-            if end_byte & 0b1100_0000 == 0b1000_0000 {
-                // compute backwards to find the start of the char to see if the number of bytes is correct
-                let mut i = by.len() - 2;
-                while by[i] & 0b1100_0000 == 0b1000_0000 {
-                    i -= 1;
-                }
-                let char_len = by.len() - i;
-                assert!(
-                    !(char_len == 2 && by[i] & 0b1110_0000 != 0b1100_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 3 && by[i] & 0b1111_0000 != 0b1110_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-                assert!(
-                    !(char_len == 4 && by[i] & 0b1111_1000 != 0b1111_0000),
-                    "StringQueue: Invalid UTF-8 end in range"
-                );
-            }
-            StringQueue { queue: slic }
-        }
-        let slic = self.queue.slice(range);
-        if slic.is_empty() {
-            return Self::new();
+        let (start, end) = self.check_range(range);
+        StringQueue {
+            queue: self.queue.slice(start..end),
         }
-        inner(slic)
     }
 
     /// Iterates over each character in the queue.
-- 
2.43.0


From 0060623d2eda0fb577c55ed1ae2165c5d530a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 11/35] fix: honour the alignment asked of
 SharedBytesBuilder::with_aligned_capacity

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index f6f01bb..724e258 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -107,12 +107,12 @@ impl SharedBytesBuilder {
             return Self::with_alignment(alignment);
         }
         assert!(alignment <= 512, "SharedBytesBuilder::with_aligned_capacity: alignment must be less than or equal to 512");
-        let align = Self::cap_check(cap, core::mem::align_of::<SharedBytesMeta>());
         let align2 = alignment.next_power_of_two();
         assert!(
             align2 == alignment,
             "SharedBytesBuilder::with_aligned_capacity: alignment must be a power of two"
         );
+        let align = Self::cap_check(cap, alignment);
         #[allow(clippy::cast_possible_truncation)]
         let cap = cap as u32;
         Self::with_capacity_u32(cap, align)
-- 
2.43.0


From 3e33c1e40145b8a5b47c034b287f62fe6ee065ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 12/35] fix: SharedBytesBuilder::truncate does nothing when the
 length given is 4 GiB or more

---
 src/shared_bytes_builder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 724e258..91d2e58 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -285,11 +285,12 @@ impl SharedBytesBuilder {
         if self.len == 0 {
             return;
         }
+        if len >= self.len() {
+            return;
+        }
         #[allow(clippy::cast_possible_truncation)]
         let data_off = SharedBytesMeta::compute_start_offset(self.align).saturating_add(len as u32);
-        if self.off > data_off {
-            self.off = data_off;
-        }
+        self.off = data_off;
     }
 
     /// Freezes the builder and returns a [`SharedBytes`] representing the data.
-- 
2.43.0


From 78a9accd6f06d3f9560c5de866e00462438d4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 13/35] fix: apply_borrowed_buf appends what was filled instead
 of growing the recorded allocation

---
 src/shared_bytes_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 91d2e58..8064ffb 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -628,7 +628,7 @@ impl SharedBytesBuilder {
         let ret = fun(&mut bb);
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
-        self.len += len;
+        self.off += len;
         ret
     }
 }
-- 
2.43.0


From 37e7abaa2126ae5b8ec4211ae74fffa6ffb765f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:46 +0000
Subject: [PATCH 14/35] fix: SharedBytesBuilder::reserve refuses what it cannot
 provide instead of returning without the room

---
 src/shared_bytes_builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 8064ffb..1038825 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -161,6 +161,10 @@ impl SharedBytesBuilder {
             return;
         }
         let new_off = off.saturating_add(additional);
+        assert!(
+            new_off <= 0xFFFF_FFFF,
+            "SharedBytesBuilder::reserve: capacity too large"
+        );
         let new_len = if new_off >= 0x0000_8000 {
             (new_off & 0xFFFF_8000)
                 .saturating_add(0x0000_8000)
-- 
2.43.0


From c3b39384f9df37fe05af52a07011f4fd2aedbb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 15/35] fix: reading ByteData or SharedBytes into a longer
 buffer reads what there is instead of panicking

---
 src/std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index 2731f71..a4ce064 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -44,7 +44,7 @@ impl Read for ByteData<'_> {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len..);
         Ok(len)
     }
@@ -111,7 +111,7 @@ impl Read for SharedBytes {
     #[inline]
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
         let len = buf.len().min(self.len());
-        buf.copy_from_slice(&self.as_slice()[..len]);
+        buf[..len].copy_from_slice(&self.as_slice()[..len]);
         self.make_sliced(len, self.len() - len);
         Ok(len)
     }
-- 
2.43.0


From 76caa49993dd36d38fc49f6843cca048ea06ae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 16/35] fix: a vectored read stops at the end of the data
 instead of reading past it

---
 src/std.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/std.rs b/src/std.rs
index a4ce064..e6fe767 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -28,7 +28,7 @@ fn read_vectored_inner(mut slic: *const u8, len: usize, bufs: &mut [IoSliceMut<'
             continue;
         }
 
-        let blen = buf.len().min(len);
+        let blen = buf.len().min(left);
         // SAFETY: we know that the buffer is large enough as we checked it before
         unsafe { core::ptr::copy_nonoverlapping(slic, buf.as_mut_ptr(), blen) };
         // SAFETY: the pointer gets moved by `blen` which is guaranteed to be in bounds
-- 
2.43.0


From e7e9beab62daebe4a9d03dfaf372fbdf1c49868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 17/35] fix: OwnedByteIter::take keeps exactly the bytes asked
 for

---
 src/queue/byte_iter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index 9005032..c100d9a 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -186,7 +186,8 @@ impl<'a> OwnedByteIter<'a> {
             if self.len() >= n {
                 continue;
             }
-            av.make_sliced(..av.len() - n);
+            let keep = n - self.len();
+            av.make_sliced(..keep);
             self.inner.push_back(av);
             break;
         }
-- 
2.43.0


From 6cc8086fb5ae72e99d52056c87fc07e74f1f16af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 18/35] fix: skipping more bytes than can be counted ends a
 byte iterator

---
 src/queue/byte_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queue/byte_iter.rs b/src/queue/byte_iter.rs
index c100d9a..b4dbc5a 100644
--- a/src/queue/byte_iter.rs
+++ b/src/queue/byte_iter.rs
@@ -26,7 +26,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     #[inline]
     #[must_use]
     pub const fn skip(mut self, n: usize) -> Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
@@ -38,7 +38,7 @@ impl<'a, 'b> ByteIter<'a, 'b> {
     /// Skip the next `n` bytes.
     #[inline]
     pub(crate) fn skip_mut(&mut self, n: usize) -> &mut Self {
-        self.offset += n;
+        self.offset = self.offset.saturating_add(n);
         if self.offset >= self.len {
             self.chunk = None;
             self.offset = 0;
-- 
2.43.0


From 019cb62c394b43fb7163465e33abda16aedd7ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 19/35] fix: find_slice and split_on report the right places in
 queues of several chunks

---
 src/queue/byte_queue.rs | 115 ++++++++++------------------------------
 src/queue/split.rs      |  70 ++++++------------------
 2 files changed, 44 insertions(+), 141 deletions(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index b760bbe..c07b416 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -284,101 +284,44 @@ impl<'a> ByteQueue<'a> {
     }
 
     /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
+    #[allow(clippy::missing_inline_in_public_items)]
     #[must_use]
     pub fn find_slice_after(&self, data: &[u8], start: usize) -> Option<usize> {
-        self.find_slice_pos(data, 0, start, start)
-            .map(|(av, _, _)| av)
-    }
-
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    #[inline]
-    pub(crate) fn find_slice_pos(
-        &self,
-        data: &[u8],
-        start_chunk: usize,
-        start_offset: usize,
-        start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        if data.is_empty() {
-            return Some((0, 0, 0));
-        }
-        self.find_slice_pos_nonempty(data, start_chunk, start_offset, start_byte)
-    }
+        let Some((first_byte, rest)) = data.split_first() else {
+            return Some(0);
+        };
+        // the last position at which the sequence still fits
+        let last = self.len().checked_sub(data.len())?;
 
-    /// Check if the queue contains a certain byte sequence and return its starting position.
-    fn find_slice_pos_nonempty(
-        &self,
-        data: &[u8],
-        mut start_chunk: usize,
-        mut start_offset: usize,
-        mut start_byte: usize,
-    ) -> Option<(usize, usize, usize)> {
-        debug_assert!(!data.is_empty(), "data is empty");
-        // the first byte in the sequence to match possible sequences
-        let first_byte = data[0];
-
-        'outer: loop {
-            let mut chunks = self.chunks().skip(start_chunk);
-            let mut sect = chunks.next()?;
-            let len = sect.len();
-            if start_offset >= len {
-                start_offset -= len;
-                start_chunk += 1;
-                continue;
+        let mut chunk_start = 0;
+        for (index, chunk) in self.chunks().enumerate() {
+            if chunk_start > last {
+                return None;
             }
-            let marked_byte = loop {
-                let sl = &sect.as_slice()[start_offset..];
-                let Some(av) = sl.iter().position(|x| *x == first_byte) else {
-                    sect = match chunks.next() {
-                        Some(vv) => vv,
-                        _ => return None,
-                    };
-                    start_offset = 0;
-                    start_chunk += 1;
-                    continue;
-                };
-                start_offset += av;
-                start_byte += av;
-                break start_byte;
-            };
-            let marked_chunk = start_chunk;
-            let marked_offset = start_offset;
-            let mut found_in = false;
-            let mut skipped_bytes = 0;
-            let data = data.iter().skip(1);
-            let mut sl = sect.as_slice()[(start_offset + 1)..].iter();
-            for av in data {
-                let bv = loop {
-                    let nxt = sl.next();
-                    let Some(bv) = nxt else {
-                        sect = match chunks.next() {
-                            Some(vv) => vv,
-                            _ => return None,
-                        };
-                        sl = sect.as_slice().iter();
-                        continue;
-                    };
-                    break *bv;
+            let chunk = chunk.as_slice();
+            let mut offset = start.saturating_sub(chunk_start);
+            while offset < chunk.len() {
+                let Some(skip) = chunk[offset..].iter().position(|x| x == first_byte) else {
+                    break;
                 };
-                if !found_in && bv == first_byte {
-                    found_in = true;
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
-                    start_offset -= 1;
-                }
-                if bv == *av {
-                    skipped_bytes += 1;
-                    continue;
+                offset += skip;
+                if chunk_start + offset > last {
+                    return None;
                 }
-                if !found_in {
-                    start_byte += skipped_bytes;
-                    start_offset += skipped_bytes;
+                // compare what follows, which may lie in the next chunks
+                let follows = chunk[offset + 1..].iter().chain(
+                    self.chunks()
+                        .skip(index + 1)
+                        .flat_map(|x| x.as_slice().iter()),
+                );
+                if rest.iter().eq(follows.take(rest.len())) {
+                    return Some(chunk_start + offset);
                 }
-                continue 'outer;
+                offset += 1;
             }
-            return Some((marked_byte, marked_chunk, marked_offset));
+            chunk_start += chunk.len();
         }
+        None
     }
 
     /// Split the queue on a certain byte sequence.
diff --git a/src/queue/split.rs b/src/queue/split.rs
index 4eedbdf..066ac82 100644
--- a/src/queue/split.rs
+++ b/src/queue/split.rs
@@ -3,9 +3,7 @@
 pub struct SplitOn<'a, 'b> {
     queue: &'b super::ByteQueue<'a>,
     needle: &'b [u8],
-    start_chunk: usize,
-    start_offset: usize,
-    start_byte: usize,
+    start: usize,
     max: usize,
     done: bool,
 }
@@ -16,9 +14,7 @@ impl<'a, 'b> SplitOn<'a, 'b> {
         Self {
             queue,
             needle,
-            start_chunk: 0,
-            start_offset: 0,
-            start_byte: 0,
+            start: 0,
             max,
             done,
         }
@@ -30,60 +26,24 @@ impl<'a> Iterator for SplitOn<'a, '_> {
 
     #[inline]
     fn next(&mut self) -> Option<Self::Item> {
-        fn inner<'a>(this: &mut SplitOn<'a, '_>) -> super::ByteQueue<'a> {
-            let val = this.queue.find_slice_pos(
-                this.needle,
-                this.start_chunk,
-                this.start_offset,
-                this.start_byte,
-            );
-            if let Some((chunk, offset, byte)) = val {
-                let mut chunks = this.queue.chunks().skip(this.start_chunk);
-                let new_q = if this.start_chunk == chunk {
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    super::ByteQueue::with_item(chunk_next.sliced(this.start_offset..offset))
-                } else {
-                    let mut new_q = super::ByteQueue::new();
-                    #[allow(clippy::unwrap_used)]
-                    let chunk_next = chunks.next().unwrap();
-                    new_q.push_back(chunk_next.sliced(this.start_offset..));
-                    for chunkdata in chunks.take(chunk - this.start_chunk - 1) {
-                        new_q.push_back(chunkdata.clone());
-                    }
-                    if offset != 0 {
-                        chunks = this.queue.chunks().skip(chunk);
-                        #[allow(clippy::unwrap_used)]
-                        let chunk_nexter = chunks.next().unwrap();
-                        new_q.push_back(chunk_nexter.sliced(..offset));
-                    }
-                    new_q
-                };
-                this.start_chunk = chunk;
-                this.start_offset = offset;
-                this.start_byte = byte;
-                if this.max != 0 {
-                    this.max -= 1;
-                }
-                new_q
-            } else {
-                this.done = true;
-                this.queue.slice(this.start_byte..)
-            }
-        }
-
         if self.done {
             return None;
         }
-        if self.start_byte == self.queue.len() {
-            self.done = true;
-            return Some(super::ByteQueue::new());
-        }
-        if self.max == 1 {
+        let found = if self.max == 1 || self.needle.is_empty() {
+            None
+        } else {
+            self.queue.find_slice_after(self.needle, self.start)
+        };
+        let Some(end) = found else {
             self.done = true;
-            return Some(self.queue.slice(self.start_byte..));
+            return Some(self.queue.slice(self.start..));
+        };
+        let part = self.queue.slice(self.start..end);
+        self.start = end + self.needle.len();
+        if self.max != 0 {
+            self.max -= 1;
         }
-        Some(inner(self))
+        Some(part)
     }
 
     #[inline]
-- 
2.43.0


From b7844e47313380bae4c7d5c829478a6a4fc19521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:55 +0000
Subject: [PATCH 20/35] fix: ByteData::split_on skips the separator instead of
 yielding empty parts forever

---
 src/bytedata.rs   | 22 ++++++++--------------
 src/stringdata.rs |  2 +-
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 031c676..58b397c 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -854,13 +854,13 @@ impl<'a> ByteData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `ByteData` at the first occurrence of the given byte sequence.
+    /// Split the `ByteData` at every occurrence of the given byte sequence.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b [u8]) -> impl Iterator<Item = ByteData<'a>> + Send + 'b
     where
         'a: 'b,
     {
-        struct It<'a, 'b>(ByteData<'a>, &'b [u8], bool);
+        struct It<'a, 'b>(ByteData<'a>, &'b [u8]);
         impl<'a> Iterator for It<'a, '_> {
             type Item = ByteData<'a>;
 
@@ -868,19 +868,13 @@ impl<'a> ByteData<'a> {
                 if self.0.is_empty() {
                     return None;
                 }
-                let aa = if let Some((aa, _)) =
-                    crate::const_split_once_bytes(self.0.as_slice(), self.1)
-                {
-                    aa.len()
-                } else {
-                    return Some(core::mem::replace(&mut self.0, ByteData::empty()));
+                let aa = match crate::const_split_once_bytes(self.0.as_slice(), self.1) {
+                    Some((aa, _)) if !self.1.is_empty() => aa.len(),
+                    _ => return Some(core::mem::replace(&mut self.0, ByteData::empty())),
                 };
-                if aa == 0 && self.2 {
-                    self.2 = false;
-                    return Some(ByteData::empty());
-                }
-                self.2 = false;
                 let aa = self.0.take_bytes(aa);
+                // The separator belongs to neither part.
+                self.0.make_sliced(self.1.len()..);
                 Some(aa)
             }
 
@@ -896,7 +890,7 @@ impl<'a> ByteData<'a> {
                 }
             }
         }
-        It(self, needle, true)
+        It(self, needle)
     }
 }
 
diff --git a/src/stringdata.rs b/src/stringdata.rs
index d5e7867..0a077c7 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -395,7 +395,7 @@ impl<'a> StringData<'a> {
         Ok(self.split_at(aa))
     }
 
-    /// Split the `StringData` at the first occurrence of the given str sequence.
+    /// Split the `StringData` at every occurrence of the given str sequence.
     #[inline]
     pub fn split_on<'b>(self, needle: &'b str) -> impl Iterator<Item = Self> + Send + 'b
     where
-- 
2.43.0


From eb8a93affeb2bab9495f54328a84ba1bc4e60660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 21/35] fix: StringData::take_line takes the newline along with
 the line

---
 src/stringdata.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stringdata.rs b/src/stringdata.rs
index 0a077c7..fafb43b 100644
--- a/src/stringdata.rs
+++ b/src/stringdata.rs
@@ -367,8 +367,9 @@ impl<'a> StringData<'a> {
         let Some(position) = self.as_str().find('\n') else {
             return core::mem::replace(self, Self::empty());
         };
-        let av = self.sliced(0..position);
-        self.make_sliced(position..);
+        let end = position + 1;
+        let av = self.sliced(0..end);
+        self.make_sliced(end..);
         av
     }
 
-- 
2.43.0


From 01e58d23b4045dfaf7acc6a044f1ef74f641acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 22/35] fix: do not count bytes of a buffer swapped in by the
 function given to apply_borrowed_buf

---
 src/shared_bytes_builder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/shared_bytes_builder.rs b/src/shared_bytes_builder.rs
index 1038825..c3e8586 100644
--- a/src/shared_bytes_builder.rs
+++ b/src/shared_bytes_builder.rs
@@ -629,7 +629,14 @@ impl SharedBytesBuilder {
             let data = unsafe { core::slice::from_raw_parts_mut(data, len) };
             core::io::BorrowedBuf::from(data)
         };
+        let start = bb.filled().as_ptr();
+        let spare = bb.capacity();
         let ret = fun(&mut bb);
+        // the function may have put another buffer in the place of the one it was given
+        assert!(
+            bb.len() <= spare && core::ptr::eq(bb.filled().as_ptr(), start),
+            "the borrowed buffer was replaced"
+        );
         #[allow(clippy::cast_possible_truncation)]
         let len = bb.len() as u32;
         self.off += len;
-- 
2.43.0


From 02bcbcfbcf26bc8530a464e7117035439f49712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 23/35] fix: a fixed-size queue made from empty data must be
 empty

---
 src/queue/linked_root.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/queue/linked_root.rs b/src/queue/linked_root.rs
index 67156ca..de49899 100644
--- a/src/queue/linked_root.rs
+++ b/src/queue/linked_root.rs
@@ -36,6 +36,11 @@ impl<'a> LinkedRoot<'a> {
 
     #[inline]
     pub(super) const fn with_item(item: ByteData<'a>) -> Self {
+        if item.is_empty() {
+            // an empty chunk is never stored; without `alloc` it owns nothing to release
+            core::mem::forget(item);
+            return Self::new();
+        }
         Self {
             data: super::linked_node_data::LinkedNodeData::with_item(item),
         }
-- 
2.43.0


From ecd83ca24d2f1a4a81a2508056664c45619a32b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 24/35] fix: nom parsers that need at least one item must fail
 recoverably, so that alternatives are tried

---
 src/nom_7/bytedata.rs    | 4 ++--
 src/nom_7/bytequeue.rs   | 4 ++--
 src/nom_7/stringdata.rs  | 4 ++--
 src/nom_7/stringqueue.rs | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 93b5719..709e31f 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -214,7 +214,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -253,7 +253,7 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
         for (i, bv) in av.iter().enumerate() {
             if predicate(*bv) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index e9d8469..17c4c92 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -277,7 +277,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
@@ -310,7 +310,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
     {
         match self.find_byte(predicate) {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
         }
     }
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index fe9114e..e9a81b0 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -254,7 +254,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
@@ -291,7 +291,7 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
         for (i, b) in self.as_str().char_indices() {
             if predicate(b) {
                 if i == 0 {
-                    return Err(nom::Err::Failure(E::from_error_kind(self.clone(), e)));
+                    return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
                 }
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 3be4e80..50b1609 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -261,7 +261,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Err(nom::Err::Incomplete(nom::Needed::new(1))),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
@@ -302,7 +302,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .map(|(i, _)| i);
         match a {
             None => Ok((Self::new(), self.clone())),
-            Some(0) => Err(nom::Err::Failure(E::from_error_kind(self.clone(), e))),
+            Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
         }
     }
-- 
2.43.0


From 432554381157cb13ccabe36eaf224fc8979295f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 25/35] fix: nom parsers that need at least one item must not
 accept empty input

---
 src/nom_7/bytedata.rs    | 3 +++
 src/nom_7/bytequeue.rs   | 1 +
 src/nom_7/stringdata.rs  | 3 +++
 src/nom_7/stringqueue.rs | 1 +
 4 files changed, 8 insertions(+)

diff --git a/src/nom_7/bytedata.rs b/src/nom_7/bytedata.rs
index 709e31f..44b00c1 100644
--- a/src/nom_7/bytedata.rs
+++ b/src/nom_7/bytedata.rs
@@ -258,6 +258,9 @@ impl nom::InputTakeAtPosition for crate::ByteData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index 17c4c92..ab90cae 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -309,6 +309,7 @@ impl nom::InputTakeAtPosition for crate::ByteQueue<'_> {
         P: Fn(Self::Item) -> bool,
     {
         match self.find_byte(predicate) {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(aa) => Ok((self.slice(aa..), self.slice(..aa))),
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index e9a81b0..6f4ef33 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -296,6 +296,9 @@ impl nom::InputTakeAtPosition for crate::StringData<'_> {
                 return Ok((self.sliced(i..), self.sliced(..i)));
             }
         }
+        if self.is_empty() {
+            return Err(nom::Err::Error(E::from_error_kind(self.clone(), e)));
+        }
         Ok((Self::empty(), self.clone()))
     }
 }
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 50b1609..920b065 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -301,6 +301,7 @@ impl nom::InputTakeAtPosition for crate::StringQueue<'_> {
             .find(|&(_, ch)| predicate(ch))
             .map(|(i, _)| i);
         match a {
+            None if self.is_empty() => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             None => Ok((Self::new(), self.clone())),
             Some(0) => Err(nom::Err::Error(E::from_error_kind(self.clone(), e))),
             Some(a) => Ok((self.slice(a..), self.slice(..a))),
-- 
2.43.0


From 9f03eb47c750bf79f522c657b369dd68d7c3325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 26/35] fix: nom offsets of characters in text must be byte
 offsets, not counts

---
 src/nom_7/mod.rs         | 34 ++++++++++++++++++++++++++++++++++
 src/nom_7/stringdata.rs  |  4 ++--
 src/nom_7/stringqueue.rs |  4 ++--
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/mod.rs b/src/nom_7/mod.rs
index 99a944b..57c0980 100644
--- a/src/nom_7/mod.rs
+++ b/src/nom_7/mod.rs
@@ -8,3 +8,37 @@ mod stringqueue;
 
 #[cfg(test)]
 mod tests;
+
+/// An iterator over the characters of a text and their byte offsets, as [`nom::InputIter::iter_indices`] gives.
+///
+/// [`nom::InputIter::iter_indices`]: nom_7::InputIter::iter_indices
+#[derive(Clone)]
+#[allow(missing_debug_implementations)]
+pub struct CharOffsets<I> {
+    chars: I,
+    offset: usize,
+}
+
+impl<I> CharOffsets<I> {
+    #[inline]
+    const fn new(chars: I) -> Self {
+        Self { chars, offset: 0 }
+    }
+}
+
+impl<I: Iterator<Item = char>> Iterator for CharOffsets<I> {
+    type Item = (usize, char);
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        let ch = self.chars.next()?;
+        let offset = self.offset;
+        self.offset += ch.len_utf8();
+        Some((offset, ch))
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.chars.size_hint()
+    }
+}
diff --git a/src/nom_7/stringdata.rs b/src/nom_7/stringdata.rs
index 6f4ef33..d0b0d04 100644
--- a/src/nom_7/stringdata.rs
+++ b/src/nom_7/stringdata.rs
@@ -176,12 +176,12 @@ impl nom::HexDisplay for crate::StringData<'_> {
 
 impl nom::InputIter for crate::StringData<'_> {
     type Item = char;
-    type Iter = core::iter::Enumerate<Self>;
+    type Iter = super::CharOffsets<Self>;
     type IterElem = Self;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone())
+        super::CharOffsets::new(self.clone())
     }
 
     #[inline]
diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index 920b065..a052461 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -172,12 +172,12 @@ impl nom::HexDisplay for crate::StringQueue<'_> {
 
 impl<'a> nom::InputIter for crate::StringQueue<'a> {
     type Item = char;
-    type Iter = core::iter::Enumerate<crate::queue::OwnedCharIter<'a>>;
+    type Iter = super::CharOffsets<crate::queue::OwnedCharIter<'a>>;
     type IterElem = crate::queue::OwnedCharIter<'a>;
 
     #[inline]
     fn iter_indices(&self) -> Self::Iter {
-        Iterator::enumerate(self.clone().into_chars())
+        super::CharOffsets::new(self.clone().into_chars())
     }
 
     #[inline]
-- 
2.43.0


From 405fa9378b34d3de8cd4af3a1093673f20d7d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 27/35] fix: nom positions in a StringQueue must be byte
 offsets, and counts must be of characters

---
 src/nom_7/stringqueue.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nom_7/stringqueue.rs b/src/nom_7/stringqueue.rs
index a052461..ec95436 100644
--- a/src/nom_7/stringqueue.rs
+++ b/src/nom_7/stringqueue.rs
@@ -190,15 +190,24 @@ impl<'a> nom::InputIter for crate::StringQueue<'a> {
     where
         P: Fn(Self::Item) -> bool,
     {
-        self.chars().position(predicate)
+        self.chars_indecies()
+            .find(|&(_, ch)| predicate(ch))
+            .map(|(i, _)| i)
     }
 
     #[inline]
     fn slice_index(&self, count: usize) -> Result<usize, nom::Needed> {
-        if self.len() >= count {
-            Ok(count)
+        let mut left = count;
+        for (i, _) in self.chars_indecies() {
+            if left == 0 {
+                return Ok(i);
+            }
+            left -= 1;
+        }
+        if left == 0 {
+            Ok(self.len())
         } else {
-            Err(nom::Needed::new(count - self.len()))
+            Err(nom::Needed::Unknown)
         }
     }
 }
-- 
2.43.0


From a7a2956973bc5230afbc2279d714919a0d04c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 28/35] fix: the hash of a ByteQueue must not depend on its
 chunks

---
 src/queue/byte_queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/queue/byte_queue.rs b/src/queue/byte_queue.rs
index c07b416..f947cf6 100644
--- a/src/queue/byte_queue.rs
+++ b/src/queue/byte_queue.rs
@@ -840,8 +840,12 @@ impl Eq for ByteQueue<'_> {}
 impl core::hash::Hash for ByteQueue<'_> {
     #[inline]
     fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
+        // the hash may not depend on how the bytes are split into chunks
+        state.write_usize(self.len());
         for chunk in self.chunks() {
-            chunk.as_slice().hash(state);
+            for &byte in chunk.as_slice() {
+                state.write_u8(byte);
+            }
         }
     }
 }
-- 
2.43.0


From 05d3dcc2c3b6fc0b769dba1dd91d0b2bd940eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 29/35] fix: Display of a StringQueue must apply width and
 precision to the whole text

---
 src/queue/string_queue.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/queue/string_queue.rs b/src/queue/string_queue.rs
index 7676802..b7be667 100644
--- a/src/queue/string_queue.rs
+++ b/src/queue/string_queue.rs
@@ -501,8 +501,31 @@ impl core::fmt::Display for crate::StringQueue<'_> {
     #[inline]
     #[allow(clippy::min_ident_chars)]
     fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
-        for chunk in self.chunks() {
-            core::fmt::Display::fmt(chunk, f)?;
+        use core::fmt::{Alignment, Write};
+        if f.width().is_none() && f.precision().is_none() {
+            for chunk in self.chunks() {
+                f.write_str(chunk.as_str())?;
+            }
+            return Ok(());
+        }
+        // width and precision apply to the text as a whole, not to each chunk
+        let max = f.precision().unwrap_or(usize::MAX);
+        let count = self.chars().take(max).count();
+        let padding = f.width().unwrap_or(0).saturating_sub(count);
+        let before = match f.align() {
+            Some(Alignment::Right) => padding,
+            Some(Alignment::Center) => padding / 2,
+            Some(Alignment::Left) | None => 0,
+        };
+        let fill = f.fill();
+        for _ in 0..before {
+            f.write_char(fill)?;
+        }
+        for ch in self.chars().take(max) {
+            f.write_char(ch)?;
+        }
+        for _ in before..padding {
+            f.write_char(fill)?;
         }
         Ok(())
     }
-- 
2.43.0


From cbe475630362cff1d7d59f7ea74252ba99e95796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 30/35] fix: collecting into ByteData must not trust a far-off
 upper bound of the size hint

---
 src/bytedata.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytedata.rs b/src/bytedata.rs
index 58b397c..fd3c048 100644
--- a/src/bytedata.rs
+++ b/src/bytedata.rs
@@ -1227,7 +1227,8 @@ impl FromIterator<u8> for ByteData<'_> {
     fn from_iter<T: IntoIterator<Item = u8>>(iter: T) -> Self {
         let iter = iter.into_iter();
         let siz = match iter.size_hint() {
-            (min, Some(siz)) => min + (siz.saturating_sub(min) >> 2_u8),
+            // the upper bound may be far above what is given, so it only counts within reason
+            (min, Some(siz)) => min.saturating_add((siz.saturating_sub(min) >> 2_u8).min(0x1000)),
             (siz, None) => siz,
         };
         let mut dat = crate::shared_bytes_builder::SharedBytesBuilder::with_capacity(siz);
-- 
2.43.0


From 2ccd88b5eae99bdbb0f15b03a9995dc6bf71bbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 31/35] fix: owners of external bytes must be Send, as they are
 dropped by whichever thread drops the last view

---
 src/external.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external.rs b/src/external.rs
index e86b026..6252172 100644
--- a/src/external.rs
+++ b/src/external.rs
@@ -38,7 +38,7 @@ impl IntoExternalBytes for alloc::string::String {
 }
 
 /// A trait for types that can be used as external byte data.
-pub trait ExternalBytes: core::any::Any + Sync + Sized + 'static {
+pub trait ExternalBytes: core::any::Any + Send + Sync + Sized + 'static {
     /// The operations that can be performed on this type.
     const OPS: ExternalOps<Self>;
 }
-- 
2.43.0


From f0e715d65e9dd07c276a8745de2b4132fd1a2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 32/35] fix: hex dumps of a ByteQueue have the format and
 addresses of nom's, and an address past the data does not overflow

---
 src/nom_7/bytequeue.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/nom_7/bytequeue.rs b/src/nom_7/bytequeue.rs
index ab90cae..bc51d1e 100644
--- a/src/nom_7/bytequeue.rs
+++ b/src/nom_7/bytequeue.rs
@@ -180,17 +180,9 @@ impl nom::HexDisplay for crate::ByteQueue<'_> {
 
     #[inline]
     fn to_hex_from(&self, chunk_size: usize, from: usize) -> alloc::string::String {
-        use core::fmt::Write;
-        let len = self.len() - from;
-        #[allow(clippy::integer_division)]
-        let mut st = alloc::string::String::with_capacity((len << 1) + 1 + (len / chunk_size));
-        for (i, chunk) in self.bytes().skip(from).enumerate() {
-            if i % chunk_size == 0 {
-                st.push('\n');
-            }
-            write!(st, "{chunk:02x}").unwrap();
-        }
-        st
+        // the bytes on a line need not be from a single chunk
+        let flat: alloc::vec::Vec<u8> = self.bytes().collect();
+        nom::HexDisplay::to_hex_from(flat.as_slice(), chunk_size, from)
     }
 }
 
-- 
2.43.0


From 4aac71fb8ad29a0b7de3fb52c8bf79475ba7094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 33/35] fix: read_to_end and read_until of a ByteQueue keep the
 data if allocating room for it fails

---
 src/std.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/std.rs b/src/std.rs
index e6fe767..571fb9e 100644
--- a/src/std.rs
+++ b/src/std.rs
@@ -303,8 +303,9 @@ impl Read for crate::ByteQueue<'_> {
         if len == 0 {
             return Ok(0);
         }
-        let swapped = core::mem::replace(self, crate::ByteQueue::new());
+        // the data is lost if allocating fails after it got taken out of the queue
         buf.reserve(len);
+        let swapped = core::mem::replace(self, crate::ByteQueue::new());
         for aa in swapped.into_iter() {
             buf.extend_from_slice(&aa);
         }
@@ -338,7 +339,8 @@ impl BufRead for crate::ByteQueue<'_> {
         ) -> usize {
             let mut offs = 0;
 
-            while let Some(mut aa) = queue.pop_front() {
+            // a chunk is left in the queue until its data was copied, as that may fail
+            while let Some(aa) = queue.front() {
                 let len = aa.len();
                 let bb = aa.as_slice();
                 let mut i = 0;
@@ -347,14 +349,14 @@ impl BufRead for crate::ByteQueue<'_> {
                         i += 1;
                         buf.extend_from_slice(&bb[..i]);
                         offs += i;
-                        aa.make_sliced(i..);
-                        queue.push_front(aa);
+                        queue.consume(i);
                         return offs;
                     }
                     i += 1;
                 }
-                buf.extend_from_slice(aa.as_slice());
+                buf.extend_from_slice(bb);
                 offs += len;
+                queue.consume(len);
             }
 
             offs
-- 
2.43.0


From d1f4cc442cbbbeaf7a46b885410abbd3f072d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 34/35] fix: arbitrary_take_rest of StringData ends once the
 supply of randomness is used up

---
 src/arbitrary_1/stringdata.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arbitrary_1/stringdata.rs b/src/arbitrary_1/stringdata.rs
index 8e93ad4..3eec7a7 100644
--- a/src/arbitrary_1/stringdata.rs
+++ b/src/arbitrary_1/stringdata.rs
@@ -107,7 +107,9 @@ impl<'a> Arbitrary<'a> for StringData<'a> {
             #[cfg(feature = "alloc")]
             &Choice::Shared => {
                 let mut buffer = crate::SharedBytesBuilder::new();
-                while let Ok(ch) = <char as Arbitrary>::arbitrary(&mut u) {
+                // an exhausted supply yields characters as well, without end
+                while !u.is_empty() {
+                    let ch = <char as Arbitrary>::arbitrary(&mut u)?;
                     buffer.reserve(4);
                     buffer.apply_unfilled(|buf| {
                         // SAFETY: The bytes may be uninitialized, but we are about to fill them.
-- 
2.43.0


From edc722e06edaac6a4b3042d261e894caeab68060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 35/35] fix: feature serde_1 builds without alloc

---
 src/serde_1/bytedata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serde_1/bytedata.rs b/src/serde_1/bytedata.rs
index 0bad6f7..0a6f73f 100644
--- a/src/serde_1/bytedata.rs
+++ b/src/serde_1/bytedata.rs
@@ -87,7 +87,7 @@ impl<'de> serde::de::DeserializeSeed<'de> for StaticByteDataVisitor {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(self)
+            deserializer.deserialize_bytes(self)
         }
     }
 }
@@ -193,7 +193,7 @@ impl<'de: 'a, 'a> serde::de::Deserialize<'de> for ByteData<'a> {
         }
         #[cfg(not(feature = "alloc"))]
         {
-            deserializer.deserialize_byte(ByteDataVisitor)
+            deserializer.deserialize_bytes(ByteDataVisitor)
         }
     }
 }
-- 
2.43.0

