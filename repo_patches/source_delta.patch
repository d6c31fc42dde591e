From 1a846935499ca72a91ceee9ff6ec579b831e9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 01/14] fix: field access on messages whose body is too short
 for the announced headers

ecu_id(), extended_header() and payload() panicked on a message whose flags
announce more bytes than its body holds. They return None now, as timestamp()
did already.
---
 rapiddlt/src/dlt_v1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 68d285d..a2de903 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -345,7 +345,7 @@ impl<'bytes> DltEntry<'bytes> {
     #[inline(always)]
     pub fn ecu_id(&self) -> Option<u32> {
         if self.header.header_type.is_with_ecu_id() {
-            Some(U32::ref_from_prefix(&self.tail[..4])?.get())
+            Some(U32::ref_from_prefix(self.tail)?.get())
         } else {
             None
         }
@@ -385,7 +385,7 @@ impl<'bytes> DltEntry<'bytes> {
         if self.header.header_type.is_with_timestamp() {
             offset += 4;
         }
-        DltExtendedHeader::ref_from_prefix(&self.tail[offset..])
+        DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)
     }
 
     #[inline(always)]
@@ -401,7 +401,7 @@ impl<'bytes> DltEntry<'bytes> {
             offset += 4;
         }
         if self.header.header_type.is_extended_header() {
-            DltExtendedHeader::ref_from_prefix(&self.tail[offset..])?;
+            DltExtendedHeader::ref_from_prefix(self.tail.get(offset..)?)?;
             offset += DltExtendedHeader::size();
         }
         if offset > self.tail.len() {
-- 
2.43.0


From ed39633a0705014c46eebeea53532e36d82264bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 02/14] fix: message info encodes and decodes type and type
 info

The mask for the type info covered only every other bit, so for example
verbose log messages were read as info or not at all, and
create_message_type() wrote the low bits of a function address instead of
the message type.
---
 rapiddlt/src/dlt_v1.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index a2de903..7b3dc32 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -204,7 +204,7 @@ pub enum DltControlMessageTypeInfo {
 enum DltMessageInfoMask {
     Verbose = 0x1,
     MessageType = 0x7 << 1,
-    MessageTypeInfo = 0x15 << 4,
+    MessageTypeInfo = 0xf << 4,
 }
 
 #[derive(AsBytes,FromBytes,FromZeroes)]
@@ -239,19 +239,19 @@ impl MessageType {
         }
         match typ {
             DltMessageType::DltTypeLog(mtin) => {
-                msin |= ((DltMessageType::DltTypeLog as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x0 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeAppTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeAppTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x1 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeNwTrace(mtin) => {
-                msin |= ((DltMessageType::DltTypeNwTrace as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x2 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
             DltMessageType::DltTypeControl(mtin) => {
-                msin |= ((DltMessageType::DltTypeControl as u8) << 1) & (DltMessageInfoMask::MessageType as u8);
+                msin |= (0x3 << 1) & (DltMessageInfoMask::MessageType as u8);
                 msin |= ((mtin as u8) << 4) & (DltMessageInfoMask::MessageTypeInfo as u8);
             },
         }
-- 
2.43.0


From 00cf76ef4837dc67039971b3f40c96942f8c57fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 03/14] fix: the longest DLT message with storage header has
 65551 bytes

max_len() of DltStorageEntry did not count the storage header, so a search
that goes back by max_len() missed the longest messages.
---
 rapiddlt/src/dlt_v1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rapiddlt/src/dlt_v1.rs b/rapiddlt/src/dlt_v1.rs
index 7b3dc32..592b2fa 100644
--- a/rapiddlt/src/dlt_v1.rs
+++ b/rapiddlt/src/dlt_v1.rs
@@ -331,7 +331,7 @@ impl<'bytes> FromBytesReadableTrait<'bytes> for DltStorageEntry<'bytes> {
     }
 
     fn max_len() -> usize {
-        u16::MAX as usize
+        u16::MAX as usize + DltStorageHeader::size()
     }
 }
 
-- 
2.43.0


From be5ca2b7f040e85cba375de87423911fc27d4fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:27 +0000
Subject: [PATCH 04/14] fix: sequential reading continues behind a marker
 without a valid message

ReadFallbackIterator stopped for good at the first corrupted or truncated
message, hiding all intact messages behind it.
---
 matchit/src/searchable/readfallbackit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 90e0836..8b30372 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -57,7 +57,14 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
                     Some((_off, val))
                 },
                 None => {
-                    None
+                    // a marker without a valid T, continue behind it with the next marker that has one
+                    loop {
+                        self.offset += T::marker().len();
+                        self.offset += search_marker::<T>(self.bytes.get(self.offset..)?)?;
+                        if T::try_read_valid_marker(&self.bytes[self.offset..]).is_some() {
+                            return self.next()
+                        }
+                    }
                 }
             }
         } else {
-- 
2.43.0


From a28310723cfd91053a6ac68693e4ad01dec0d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 05/14] fix: sequential reading from an offset far behind the
 end

The addition overflowed for offsets close to usize::MAX.
---
 matchit/src/searchable/readfallbackit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matchit/src/searchable/readfallbackit.rs b/matchit/src/searchable/readfallbackit.rs
index 8b30372..22151f5 100644
--- a/matchit/src/searchable/readfallbackit.rs
+++ b/matchit/src/searchable/readfallbackit.rs
@@ -45,7 +45,7 @@ impl<'bytes, T> Iterator for ReadFallbackIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<WithOffset<T>> {
-        if self.offset + T::marker().len() >= self.bytes.len() {
+        if self.offset.saturating_add(T::marker().len()) >= self.bytes.len() {
             return None
         }
         if &self.bytes[self.offset..self.offset+T::marker().len()] == T::marker() {
-- 
2.43.0


From f338bf469eac96c51f6b1f5baabda7b696981e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 06/14] fix: container search without recursion over every
 pattern before the range

contained_by() took exponential time and deep recursion on nested or repeated
message images, returned embedded messages that only a not yet closed
candidate hid, and gave nothing for ranges that end with the buffer. It goes
back to a position no message spans now and reads on from there, as
sequential reading does.
---
 matchit/src/lib.rs | 58 +++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index 753bb5a..c6a2d5b 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -6,7 +6,7 @@ pub mod readit;
 
 use std::{marker::PhantomData};
 
-use memchr::memmem::Finder;
+use memchr::memmem::{Finder, FinderRev};
 use searchable::SearchableMarkerTrait;
 
 pub type WithOffset<T> = (usize, T);
@@ -55,7 +55,7 @@ where
 }
 
 /// Stores a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
-pub struct ContainedBySearch<T>(Finder<'static>, PhantomData<T>);
+pub struct ContainedBySearch<T>(Finder<'static>, FinderRev<'static>, PhantomData<T>);
 
 impl<'bytes, T> ContainedBySearch<T> 
 where
@@ -63,45 +63,51 @@ where
 {
     /// Initializes a ``memchr::memmem::Finder`` for searching ``T::marker()`` patterns.
     pub fn new() -> Self {
-        Self(Finder::new(T::marker()), PhantomData)
+        Self(Finder::new(T::marker()), FinderRev::new(T::marker()), PhantomData)
     }
 
-    /// Recursively searches for a valid ``T``that contains the slice ``(payload.0 .. payload.1)``.
+    /// Searches for a valid ``T`` that contains the slice ``(payload.0 .. payload.1)``.
     /// 
     /// Let's assume ``T(payload)`` denotes that ``payload`` is contained by ``T``.
-    /// If a valid ``T0(payload)`` is found, the algorithm makes sure this is in turn not
-    /// contained by a previous ``T1(T0(payload))``.
-    /// This validity check is performed recursively until no containing ``T_n(...(T1(payload))`` 
-    /// is found anymore.
+    /// A valid ``T0(payload)`` counts only if it is in turn not contained by a previous
+    /// ``T1(T0(payload))``, and so on, i.e. if it is found when reading ``bytes`` from the start.
     #[inline(always)]
     pub fn contained_by(&self, bytes: &'bytes [u8], payload: (usize, usize)) -> Option<(usize, T)> 
     {
-        if payload.0 >= bytes.len() || payload.1 >= bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
+        if payload.0 >= bytes.len() || payload.1 > bytes.len() || payload.0 >= payload.1 || payload.1 == 0 {
             return None
         }
         
-        // go back max payload size
-        let backwards_offset = match payload.0.checked_sub(T::max_len()) {
-            Some(val) => val,
-            None => 0,
-        };
-        
-        let iter = self.0.find_iter(&bytes[backwards_offset..]);
-        
-        for candidate_idx in iter.map(|x| x + backwards_offset) {
-            if candidate_idx >= payload.0 {
-                return None
+        let marker_len = T::marker().len();
+        let end = (payload.0 + marker_len - 1).min(bytes.len());
+
+        // go back to a position that is not spanned by any ``T``: reading may start there
+        let mut offset = payload.0;
+        for candidate_idx in self.1.rfind_iter(&bytes[..end]) {
+            if candidate_idx + T::max_len() <= offset {
+                break
             }
             if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
+                if candidate_idx + container.len() > offset {
+                    offset = candidate_idx;
+                }
+            }
+        }
 
+        // read on from there to the ``T`` that spans the start of the payload
+        while let Some(position) = self.0.find(&bytes[offset..end]) {
+            let candidate_idx = offset + position;
+            if let Some((_, container)) = T::try_read(&bytes[candidate_idx..]) {
+                offset = candidate_idx + container.len();
                 // needs to contain payload.1
-                if candidate_idx + container.len() >= payload.1 {
-                    // recursively check whether the current container is contained in another container
-                    return match self.contained_by(bytes, (candidate_idx, candidate_idx + T::marker().len())) {
-                        Some(_) => continue,
-                        None => Some((candidate_idx, container)),
-                    };
+                if offset >= payload.1 {
+                    return Some((candidate_idx, container))
+                }
+                if offset > payload.0 {
+                    return None
                 }
+            } else {
+                offset = candidate_idx + marker_len;
             }
         }
         None
-- 
2.43.0


From ff45a952d4277d16bef79f106ace7ba9e22d8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:07 +0000
Subject: [PATCH 07/14] fix: partitioning covers the whole buffer

partition_from() dropped the rest of the buffer behind a message longer than
a partition, behind the last full partition, and everything if there were
more partitions requested than bytes.
---
 matchit/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/matchit/src/lib.rs b/matchit/src/lib.rs
index c6a2d5b..4761a79 100644
--- a/matchit/src/lib.rs
+++ b/matchit/src/lib.rs
@@ -120,16 +120,25 @@ where
 pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], num: usize) -> Vec<&'bytes [u8]> {
     let mut result: Vec<&[u8]> = vec![];
 
-    let size = bytes.len() / num;
+    let size = (bytes.len() / num).max(1);
     let mut candidate = (0, size);
 
     let search = ContainedBySearch::<T>::new();
     loop {
         // out of bounds checks: canidates may not exceed ``bytes`` slice and
-        if candidate.0 > bytes.len() || candidate.1 > bytes.len() {
+        if candidate.0 >= bytes.len() {
+            break;
+        }
+        // what remains is the last partition
+        if candidate.1 >= bytes.len() {
+            result.push(&bytes[candidate.0..]);
             break;
         }
         candidate.1 = match search.contained_by(bytes, (candidate.1, candidate.1+1)) {
+            Some((container, t)) if container <= candidate.0 => {
+                // T is longer than a partition and stays in one piece
+                container + t.len()
+            },
             Some((container ,_)) => {
                 // in ~99 percent of the cases, candidate.1 points to a valid T.
                 container
@@ -141,11 +150,6 @@ pub fn partition_from<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [
             },
         };
         
-        // candidate.1 may not point to a container that is part of another partition
-        if candidate.0 >= candidate.1 {
-            break;
-        }
-
         // store result and check for the next candidate for a split
         if candidate.1 + size /4 >= bytes.len() {
             result.push(&bytes[candidate.0..]);
-- 
2.43.0


From 87b68ef12ba1f21a22ddca3fe118999266cc7aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 08/14] fix: grep and capture search look at every message

A match that began outside of a message or ran over its end hid matches in
the messages behind, a message was reported for a match behind its end, the
capture search left out messages or reported some twice, and both recursed
once per match outside of a message.
---
 matchit/src/searchable/grepit.rs | 93 +++++++++++++++++---------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/matchit/src/searchable/grepit.rs b/matchit/src/searchable/grepit.rs
index a23914d..7acec1f 100644
--- a/matchit/src/searchable/grepit.rs
+++ b/matchit/src/searchable/grepit.rs
@@ -3,7 +3,14 @@ use std::marker::PhantomData;
 use regex::bytes::Regex;
 use crate::{TIterator, WithOffset};
 
-use super::{searchit::RevSearchIterator, SearchableMarkerTrait};
+use super::{search_marker, searchit::RevSearchIterator, SearchableMarkerTrait};
+
+/// Returns the end of the first marker that ends behind ``offset``: the next ``T`` starts with it.
+fn next_candidate<'bytes, T: SearchableMarkerTrait<'bytes>>(bytes: &'bytes [u8], offset: usize) -> Option<usize> {
+    let start = (offset + 1).saturating_sub(T::marker().len());
+    let position = search_marker::<T>(&bytes[start..])?;
+    Some(start + position + T::marker().len())
+}
 
 #[derive(Debug)]
 pub struct GrepIterator<'bytes, T>
@@ -32,28 +39,28 @@ impl<'bytes, T> GrepIterator<'bytes, T>
 {
     #[inline(always)]
     pub fn search(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<T>> {
-        if offset >= bytes.len() {
-            return None
-        }
-        let foundit = self.finder.find_at(bytes, offset)?.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
+        let mut offset = offset;
+        loop {
+            if offset >= bytes.len() {
+                return None
+            }
+            let foundit = self.finder.find_at(bytes, offset)?.range();
+
+            match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    if foundit.end <= end || self.finder.find_at(&bytes[..end], foundit.start).is_some() {
+                        return Some((_off, val))
+                    }
                     // match not included
-                    self.search(bytes, foundit.end)
-                } else {
-                    Some((_off, val))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.search(bytes, foundit.end)
-            },
+                    offset = end;
+                },
+                _ => {
+                    // match outside of any T
+                    offset = next_candidate::<T>(bytes, foundit.start)?;
+                },
+            }
         }
-
     }
 }
 
@@ -101,29 +108,28 @@ where
 {
     #[inline(always)]
     pub fn capture(&self, bytes: &'bytes [u8], offset: usize) -> Option<WithOffset<(usize,usize)>> {
-        if offset >= bytes.len() {
-            return None
-        }
+        let mut offset = offset;
         let mut locs = self.finder.capture_locations();
-        let captures = self.finder.captures_read_at(&mut locs, bytes, offset)?;
-
-        let foundit = captures.range();
-
-        match self.iter.search(bytes, foundit.start) {
-            Some((_off, val)) => {
-                if _off < foundit.start &&  _off + val.len() < foundit.end {
+        loop {
+            if offset >= bytes.len() {
+                return None
+            }
+            let foundit = self.finder.captures_read_at(&mut locs, bytes, offset)?.range();
+
+            match self.iter.search(bytes, foundit.start) {
+                Some((_off, val)) if foundit.start < _off + val.len() => {
+                    let end = _off + val.len();
+                    if foundit.end <= end || self.finder.captures_read_at(&mut locs, &bytes[..end], foundit.start).is_some() {
+                        return Some((_off, locs.get(1)?))
+                    }
                     // match not included
-                    self.capture(bytes, foundit.end)
-                } else {
-                    Some((_off, locs.get(1)?))
-                }
-            },
-            None => {
-                if foundit.end >= bytes.len() {
-                    return None
-                }
-                self.capture(bytes, foundit.end)
-            },
+                    offset = end;
+                },
+                _ => {
+                    // match outside of any T
+                    offset = next_candidate::<T>(bytes, foundit.start)?;
+                },
+            }
         }
     }
 }
@@ -140,7 +146,8 @@ where
 
         // we need to go at the end of a DLT entry in order
         // not to emit the same DLT entry twice
-        self.offset = offset + val.1;
+        let (_, entry) = T::try_read_valid_marker(&self.bytes[offset..])?;
+        self.offset = offset + entry.len();
 
         Some((offset, val))
     }
-- 
2.43.0


From f9ab66273717d844e21d18c16dbfb1038727cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 09/14] fix: forward and backward search without recursion

Both recursed once per marker length of skipped bytes and searched the same
bytes again each time; the backward search did not end when asked again
behind its end, and gave nothing for a start behind the end of the buffer.
---
 matchit/src/searchable/searchit.rs | 49 ++++++++++++++++--------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/matchit/src/searchable/searchit.rs b/matchit/src/searchable/searchit.rs
index e543534..517abe1 100644
--- a/matchit/src/searchable/searchit.rs
+++ b/matchit/src/searchable/searchit.rs
@@ -51,17 +51,17 @@ impl<'bytes, T> Iterator for SearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset + t.len();
-                Some((offset, t))
-            }
-            None => {
-                self.offset += T::marker().len();
-                if self.offset >= self.bytes.len() {
-                    return None
+        loop {
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset + t.len();
+                    return Some((offset, t))
+                }
+                None => {
+                    // no valid T at the next marker, continue behind it
+                    let position = self.finder.find(self.bytes.get(self.offset..)?)?;
+                    self.offset += position + T::marker().len();
                 }
-                self.next()
             }
         }
     }
@@ -107,20 +107,23 @@ impl<'bytes, T> Iterator for RevSearchIterator<'bytes, T>
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        match self.search(self.bytes, self.offset) {
-            Some((offset, t)) => {
-                self.offset = offset;
-                Some((self.offset, t))
-            }
-            None => {
-                match self.offset.checked_sub(T::marker().len()) {
-                    Some(sub) => self.offset = sub,
-                    None => self.offset = usize::MAX,
-                };
-                if self.offset == usize::MAX {
-                    return None
+        self.offset = self.offset.min(self.bytes.len());
+        loop {
+            match self.search(self.bytes, self.offset) {
+                Some((offset, t)) => {
+                    self.offset = offset;
+                    return Some((self.offset, t))
+                }
+                None => {
+                    // no valid T at the last marker, continue before it
+                    match self.finder.rfind(&self.bytes[..self.offset]) {
+                        Some(position) => self.offset = position,
+                        None => {
+                            self.offset = 0;
+                            return None
+                        }
+                    };
                 }
-                self.next()
             }
         }
     }
-- 
2.43.0


From ff25ed263a946619b1ad72d049ba48b42d61b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 10/14] fix: grouping goes on behind an element that is not
 related to itself

With a relation that is not reflexive, a single element that belongs to no
group was kept as the predecessor of everything behind it.
---
 matchit/src/generator/groupby.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index f1fc265..841d7e8 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -47,6 +47,7 @@ where
                     self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(Some((prev.clone(), prev.clone())))
                 } else {
+                    self.1 = GroupByState::Consumed(next);
                     ControlFlow::Continue(None)
                 }
             },
-- 
2.43.0


From 787deb6df891b9f6826da3800a81f98d4260f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:59 +0000
Subject: [PATCH 11/14] fix: merging goes on with the merged value

A value that joined two of the values merged so far left the joined ones side
by side, so that the result depended on the order of the input.
---
 matchit/src/generator/groupby.rs | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/matchit/src/generator/groupby.rs b/matchit/src/generator/groupby.rs
index 841d7e8..665b8b3 100644
--- a/matchit/src/generator/groupby.rs
+++ b/matchit/src/generator/groupby.rs
@@ -125,22 +125,25 @@ where
 
 
     #[inline(always)]
-    fn adapt(&mut self, next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
-        let mut consumed = None;
+    fn adapt(&mut self, mut next: Self::Input) -> ControlFlow<(), Option<Self::Output>> {
+        loop {
+            let mut consumed = None;
 
-        for (_, prev) in self.2.iter() {
-            let ret = (self.0)(prev, &next);
-            if let Some(val) = ret {
-                consumed = Some((prev.clone(), val));
-                break;
+            for (_, prev) in self.2.iter() {
+                let ret = (self.0)(prev, &next);
+                if let Some(val) = ret {
+                    consumed = Some((prev.clone(), val));
+                    break;
+                }
+            }
+            if let Some((prev, val)) = consumed {
+                // the merged value may have to be merged with others in turn
+                self.2.remove(&(self.1)(&prev));
+                next = val;
+            } else {
+                self.2.insert((self.1)(&next), next);
+                return ControlFlow::Continue(None)
             }
         }
-        if let Some((prev, val)) = consumed {
-            self.2.remove(&(self.1)(&prev));
-            self.2.insert((self.1)(&val), val);
-        } else {
-            self.2.insert((self.1)(&next), next);
-        }
-        ControlFlow::Continue(None)
     }
 }
-- 
2.43.0


From dfa362e628acd141a52188511f451939655d1986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 12/14] fix: file access reports read errors and takes empty
 files

read_file() ignored read errors, so that a directory was an empty log and a
log was cut at the first error; mmap_file() failed on an empty file.
---
 rapiddlt/src/dltbuffer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rapiddlt/src/dltbuffer.rs b/rapiddlt/src/dltbuffer.rs
index 7eac240..dddd201 100644
--- a/rapiddlt/src/dltbuffer.rs
+++ b/rapiddlt/src/dltbuffer.rs
@@ -9,6 +9,11 @@ pub enum DltBuffer {
 impl DltBuffer {
     pub fn mmap_file (filename: &str) -> Result<Self,io::Error> {
         let file = File::open(filename)?;
+        let metadata = file.metadata()?;
+        if metadata.is_file() && metadata.len() == 0 {
+            // an empty file can't be mapped
+            return Self::read_file(filename)
+        }
         let mmap = unsafe { MmapOptions::new().map(&file)? };
         Ok(DltBuffer::Mmap(mmap))
     }
@@ -16,7 +21,7 @@ impl DltBuffer {
         let file = File::open(filename)?;
         let mut rdr = BufReader::new(file);
         let mut buf: Vec<u8> = vec![];
-        let _ = rdr.read_to_end(&mut buf);
+        rdr.read_to_end(&mut buf)?;
         Ok(DltBuffer::Read(buf))
     }
     pub fn len(&self) -> usize {
-- 
2.43.0


From 3ffb572b558564dad9cbcad000bce110ffce4cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:14 +0000
Subject: [PATCH 13/14] fix: dd_dlt rejects payload sizes there is no message
 for

With payload size 0 it wrote empty messages without end, above 65517 bytes
the length field overflowed.
---
 dd_dlt/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index ec4950d..3cc44b2 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -17,8 +17,9 @@ fn main() -> Result<(), std::io::Error> {
     let appid = args[2].as_bytes();
 
     let payload_size: u16 = match args[3].parse::<u16>() {
-        Ok(val) => val,
-        Err(_) => panic!("wrong parameter"),
+        // standard header, timestamp and extended header count for the length of the message as well
+        Ok(val) if val > 0 && val <= u16::MAX - (4 + 10 + 4) => val,
+        _ => panic!("wrong parameter"),
     };
 
     let mut buf = vec![0u8; payload_size as usize];
-- 
2.43.0


From e78911aae46f9c58d6d22c462e4cf7fd96887134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 14/14] fix: dd_dlt writes whole messages and reports I/O
 errors

write() may write less than it is given, as it does on a line buffered output
for payloads with line ends; a failing input was taken for its end, a failing
output at the end was not noticed.
---
 dd_dlt/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dd_dlt/src/main.rs b/dd_dlt/src/main.rs
index 3cc44b2..ade4abc 100644
--- a/dd_dlt/src/main.rs
+++ b/dd_dlt/src/main.rs
@@ -28,7 +28,8 @@ fn main() -> Result<(), std::io::Error> {
     loop {
         match io::stdin().lock().read_exact(&mut buf) {
             Ok(_) => (),
-            _ => {break;}
+            Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {break;}
+            Err(e) => return Err(e),
         };
 
         // DltStorageHeader
@@ -48,15 +49,16 @@ fn main() -> Result<(), std::io::Error> {
                 appid.try_into().expect("app id incorrect")
         );
 
-        io::stdout().write(sh.as_bytes())?;
-        io::stdout().write(h.as_bytes())?;
+        io::stdout().write_all(sh.as_bytes())?;
+        io::stdout().write_all(h.as_bytes())?;
         // TODO ecu_id, session_id
-        io::stdout().write(U32::from(count * 100).as_bytes())?;
-        io::stdout().write(eh.as_bytes())?;
-        io::stdout().write(buf.as_bytes())?;
+        io::stdout().write_all(U32::from(count * 100).as_bytes())?;
+        io::stdout().write_all(eh.as_bytes())?;
+        io::stdout().write_all(buf.as_bytes())?;
 
         count += 1;
     }
+    io::stdout().flush()?;
     eprintln!("wrote {} DLT messages with payload size={}b", count, payload_size);
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0

