From 248c8c006d18a5fbb70fe8274d19a5f7a2ea5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 1/9] fix: default DOS timestamp is 1980-01-01, not the invalid
 all-zero date

---
 src/structs.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/structs.rs b/src/structs.rs
index 5cd147b..2438b15 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -174,13 +174,24 @@ pub enum Compression {
     Store = 0,
 }
 
-#[derive(Copy, Clone, Debug, Default, PackedStruct, PartialEq, Eq)]
+#[derive(Copy, Clone, Debug, PackedStruct, PartialEq, Eq)]
 #[packed_struct(endian = "lsb", size_bytes = "4")]
 pub struct DosDatetime {
     time: u16,
     date: u16,
 }
 
+impl Default for DosDatetime {
+    /// The earliest representable time, 1980-01-01T00:00:00.
+    /// Note that all bits zero would not be a valid date, because days and months are counted from one.
+    fn default() -> Self {
+        DosDatetime {
+            time: 0,
+            date: 1 | (1 << 5),
+        }
+    }
+}
+
 impl DosDatetime {
     /// Constructs a new `DosDateTime`.
     /// Returns `None` if any value is out of range.
-- 
2.43.0


From 9fce3a17a4da04ba668716c7cf49ac7975feaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 2/9] fix: datetime setters with default fallback reset a
 previously set time

---
 src/builder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index e83c57a..7ecf64f 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -155,7 +155,9 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`SystemTime`].
     pub fn datetime_system_or_default(&mut self, datetime: SystemTime) -> &mut Self {
-        self.datetime_system(datetime);
+        if self.datetime_system(datetime).is_none() {
+            self.datetime = None;
+        }
         self
     }
 
@@ -188,15 +190,14 @@ impl<D: EntryData> BuilderEntry<D> {
     ///
     /// This is equivalent to calling [`BuilderEntry::datetime_fields_or_default()`] with converted [`NaiveDateTime`].
     pub fn datetime_or_default(&mut self, datetime: NaiveDateTime) -> &mut Self {
-        self.datetime_fields(
+        self.datetime_fields_or_default(
             datetime.year(),
             datetime.month(),
             datetime.day(),
             datetime.hour(),
             datetime.minute(),
             datetime.second(),
-        );
-        self
+        )
     }
 
     /// Sets the entry to be a file.
-- 
2.43.0


From f926090d9f9c8df4ed2a46689da4eb20d826e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 3/9] fix: count bytes delivered before a pending source into
 the reader position

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b1f506e..10e5193 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -771,7 +771,8 @@ impl ReadState {
                     Poll::Pending if output.remaining() == initial_remaining => {
                         return Poll::Pending
                     }
-                    _ => return Poll::Ready(Ok(())),
+                    // Something was already written to the output, finish this call normally
+                    _ => break,
                 }
             };
         }
-- 
2.43.0


From e14fc8594da47977a5857b60d7ca894e5f1c7a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:55 +0000
Subject: [PATCH 4/9] fix: a cloned BytesStream gets a buffer of its own

---
 src/bytes.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index ea2bd7c..3059e10 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -15,7 +15,7 @@ use crate::{Reader, entry_data::EntryData, reader::READ_SIZE};
 ///
 /// This is useful for streaming the output of the ZIP reader, for example,
 /// to a network socket or other byte-based sink.
-#[derive(Clone, Debug)]
+#[derive(Debug)]
 #[pin_project]
 pub struct BytesStream<D: EntryData> {
     #[pin]
@@ -77,6 +77,13 @@ impl<D: EntryData> BytesStream<D> {
     }
 }
 
+impl<D: EntryData + Clone> Clone for BytesStream<D> {
+    fn clone(&self) -> Self {
+        // The buffer is empty between polls, but cloning it would not preserve its capacity
+        BytesStream::new(self.reader.clone())
+    }
+}
+
 impl<D: EntryData> From<Reader<D>> for BytesStream<D> {
     fn from(value: Reader<D>) -> Self {
         BytesStream::new(value)
-- 
2.43.0


From 077743c289598b81004cde867eab1a2bd51e9009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 5/9] fix: reading can be retried after opening an entry failed

---
 src/reader.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 10e5193..b5bcc19 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -70,8 +70,14 @@ impl<D: EntryData> ReaderEntry<D> {
         }
 
         if let ReaderPinnedProj::ReaderFuture(ref mut reader_future) = pinned.as_mut().project() {
-            let reader = ready!(reader_future.as_mut().poll(ctx))?;
-            pinned.set(ReaderPinned::FileReader(CrcReader::new(reader)));
+            match ready!(reader_future.as_mut().poll(ctx)) {
+                Ok(reader) => pinned.set(ReaderPinned::FileReader(CrcReader::new(reader))),
+                Err(e) => {
+                    // The finished future must not be polled again, the next attempt starts with a new one
+                    pinned.set(ReaderPinned::Nothing);
+                    return Poll::Ready(Err(e));
+                }
+            }
         }
 
         match pinned.project() {
-- 
2.43.0


From 5c1fb1652de1d90663fe2926ca5a68c4d1536f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:05 +0000
Subject: [PATCH 6/9] fix: a failed seek of an entry is not left marked as in
 progress

---
 src/crc_reader.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/crc_reader.rs b/src/crc_reader.rs
index f3b537b..c5a803a 100644
--- a/src/crc_reader.rs
+++ b/src/crc_reader.rs
@@ -77,8 +77,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
     fn start_seek(self: Pin<&mut Self>, data: &D, pos: SeekFrom) -> Result<()> {
         let projected = self.project();
         *projected.did_seek = true;
+        projected.inner_reader.start_seek(data, pos)?;
         *projected.seek_in_progress = true;
-        projected.inner_reader.start_seek(data, pos)
+        Ok(())
     }
 
     fn poll_seek_complete(
@@ -87,9 +88,9 @@ impl<D, T: EntryReader<D>> EntryReader<D> for CrcReader<T> {
         cx: &mut Context<'_>,
     ) -> Poll<Result<u64>> {
         let projected = self.project();
-        let pos = ready!(projected.inner_reader.poll_seek_complete(data, cx))?;
+        let result = ready!(projected.inner_reader.poll_seek_complete(data, cx));
         *projected.seek_in_progress = false;
-        Poll::Ready(Ok(pos))
+        Poll::Ready(result)
     }
 }
 
-- 
2.43.0


From 833d34ab422af843c724bd02ec098528ba955e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 7/9] fix: a failing entry does not lose the data written
 before it in the same read

---
 src/reader.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b5bcc19..1e4cd01 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -768,12 +768,21 @@ impl ReadState {
         output: &mut ReadBuf<'_>,
     ) -> Poll<std::io::Result<()>> {
         let initial_remaining = output.remaining();
+        let initial_filled = output.filled().len();
 
         macro_rules! zippity_ready {
             ($expression:expr) => {
                 match $expression {
                     Poll::Ready(Ok(x)) => x,
-                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                    Poll::Ready(Err(e)) => {
+                        if output.remaining() != initial_remaining {
+                            // Take back what this call has written, the caller only sees the error
+                            output.set_filled(initial_filled);
+                            self.seek_from_start(sizes, entries, self.position);
+                            pinned.set(ReaderPinned::Nothing);
+                        }
+                        return Poll::Ready(Err(e));
+                    }
                     Poll::Pending if output.remaining() == initial_remaining => {
                         return Poll::Pending
                     }
-- 
2.43.0


From 51287f1ddff3028b1b599785473906e6e0ab8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 8/9] fix: reading on after a size mismatch does not deliver
 the entry again

---
 src/reader.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 1e4cd01..060e377 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -594,32 +594,36 @@ impl ReadState {
         if output.remaining() == remaining_before_poll {
             // Nothing was output => we read everything in the file already
 
-            if let Some(actual_crc) = file_reader.get_crc32() {
-                if let Some(expected_crc) = entry.crc32
-                    && expected_crc != actual_crc
-                {
-                    return Poll::Ready(Err(ReadError::Crc32Mismatch {
-                        entry_name: entry.name.clone(),
-                        expected_crc,
-                        actual_crc,
-                    }
-                    .into()));
+            let actual_crc = file_reader.get_crc32();
+
+            if let Some(actual_crc) = actual_crc
+                && let Some(expected_crc) = entry.crc32
+                && expected_crc != actual_crc
+            {
+                return Poll::Ready(Err(ReadError::Crc32Mismatch {
+                    entry_name: entry.name.clone(),
+                    expected_crc,
+                    actual_crc,
                 }
-                entry.crc32 = Some(actual_crc);
+                .into()));
             }
 
-            pinned.set(ReaderPinned::Nothing);
-
-            if self.chunk_processed_size == entry.size {
-                Poll::Ready(Ok(true)) // We're done with this state
-            } else {
-                Poll::Ready(Err(ReadError::SizeMismatch {
+            // The entry is left unfinished when returning an error, so that reading again fails again
+            if self.chunk_processed_size != entry.size {
+                return Poll::Ready(Err(ReadError::SizeMismatch {
                     entry_name: entry.name.clone(),
                     expected_size: entry.size,
                     actual_size: self.chunk_processed_size,
                 }
-                .into()))
+                .into()));
+            }
+
+            if actual_crc.is_some() {
+                entry.crc32 = actual_crc;
             }
+            pinned.set(ReaderPinned::Nothing);
+
+            Poll::Ready(Ok(true)) // We're done with this state
         } else {
             let written_chunk_size = remaining_before_poll - output.remaining();
             let buf_slice = output.filled();
-- 
2.43.0


From 40eaae0e0f0b6148b27b6b9fa16eec29ab8aa336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:49 +0000
Subject: [PATCH 9/9] fix: Builder::size stays right when entries are removed
 through get_entries_mut

---
 src/builder.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/builder.rs b/src/builder.rs
index 7ecf64f..41a1063 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -317,8 +317,9 @@ pub(crate) fn eocd_size() -> u64 {
 pub struct Builder<D: EntryData> {
     entries: IndexMap<String, BuilderEntry<D>>,
     time_converter: Option<TimeConverter>,
-    /// Total size of the zip.
-    total_size: u64,
+    /// Total size of the zip, if known.
+    /// `None` after the entries were accessible for modification.
+    total_size: Option<u64>,
 }
 
 /// An error that can be encountered while adding entries to a [`Builder`].
@@ -356,7 +357,7 @@ impl<D: EntryData + Debug> Debug for Builder<D> {
                     None => &"None",
                 },
             )
-            .field("total_size", &self.total_size)
+            .field("total_size", &self.size())
             .finish()
     }
 }
@@ -373,7 +374,7 @@ impl<D: EntryData> Builder<D> {
         Builder {
             entries: IndexMap::new(),
             time_converter: None,
-            total_size: eocd_size(),
+            total_size: Some(eocd_size()),
         }
     }
 
@@ -396,6 +397,7 @@ impl<D: EntryData> Builder<D> {
         }
         let headers_size = local_header_size(&name) + cd_header_size(&name);
 
+        let size_before = self.size();
         let map_vacant_entry = match self.entries.entry(name) {
             Entry::Vacant(e) => e,
             Entry::Occupied(e) => {
@@ -408,9 +410,9 @@ impl<D: EntryData> Builder<D> {
         let data = data.into();
         self.total_size = match headers_size
             .checked_add(data.size())
-            .and_then(|s| s.checked_add(self.total_size))
+            .and_then(|s| s.checked_add(size_before))
         {
-            Some(size) => size,
+            Some(size) => Some(size),
             None => {
                 return Err(AddEntryError::TooLongZipFile {
                     entry_name: map_vacant_entry.into_key(),
@@ -427,7 +429,15 @@ impl<D: EntryData> Builder<D> {
     ///
     /// Returns the same value as `self.build().size()`.
     pub fn size(&self) -> u64 {
-        self.total_size
+        if let Some(size) = self.total_size {
+            return size;
+        }
+
+        let mut size = eocd_size();
+        for (name, entry) in &self.entries {
+            size += local_header_size(name) + entry.data.size() + cd_header_size(name);
+        }
+        size
     }
 
     /// Finishes the build phase of the ZIP file and converts the builder into a [`Reader`].
@@ -506,6 +516,8 @@ impl<D: EntryData> Builder<D> {
 
     /// Returns a mutable reference to all entries currently in the builder.
     pub fn get_entries_mut(&mut self) -> &mut IndexMap<String, BuilderEntry<D>> {
+        // Entries might get added or removed through the returned reference
+        self.total_size = None;
         &mut self.entries
     }
 }
-- 
2.43.0

