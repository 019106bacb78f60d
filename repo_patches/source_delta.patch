From aa7d1f962e20a2ba3465735171faa9517febc252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 01/31] fix: report truncated on-disk structures as I/O errors
 instead of panicking

---
 src/error.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 5dfe797..8f752f5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -229,11 +229,14 @@ pub enum NtfsError {
 
 impl From<binrw::error::Error> for NtfsError {
     fn from(error: binrw::error::Error) -> Self {
-        if let binrw::error::Error::Io(io_error) = error {
-            Self::Io(io_error)
-        } else {
-            // We don't use any binrw attributes that result in other errors.
-            unreachable!("Got a binrw error of unexpected type: {:?}", error);
+        match error {
+            binrw::error::Error::Io(io_error) => Self::Io(io_error),
+            // binrw wraps an error that occurs inside a nested structure into a backtrace.
+            binrw::error::Error::Backtrace(backtrace) => Self::from(*backtrace.error),
+            error => {
+                // We don't use any binrw attributes that result in other errors.
+                unreachable!("Got a binrw error of unexpected type: {:?}", error);
+            }
         }
     }
 }
-- 
2.43.0


From 35e2cdfa2b00f2e43ee3fbb7a5e427133979c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 02/31] fix: avoid an overflow for update sequence offsets near
 the end of large records

---
 src/record.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record.rs b/src/record.rs
index 08b5295..915acf6 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -39,7 +39,7 @@ impl Record {
         let update_sequence_number = self.update_sequence_number()?;
         let array_count = self.update_sequence_array_count()?;
 
-        let mut array_position = self.update_sequence_array_start() as usize;
+        let mut array_position = self.update_sequence_array_start();
         let array_end =
             self.update_sequence_offset() as usize + self.update_sequence_size() as usize;
         let sectors_end = array_count as usize * NTFS_BLOCK_SIZE;
@@ -119,9 +119,9 @@ impl Record {
             })
     }
 
-    fn update_sequence_array_start(&self) -> u16 {
+    fn update_sequence_array_start(&self) -> usize {
         // The Update Sequence Number (USN) comes first and the array begins right after that.
-        self.update_sequence_offset() + mem::size_of::<u16>() as u16
+        self.update_sequence_offset() as usize + mem::size_of::<u16>()
     }
 
     fn update_sequence_number(&self) -> Result<[u8; 2]> {
-- 
2.43.0


From 762b5ea339cbc324c5cf93fa153d657c3b98509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 03/31] fix: read data runs at LCN 0 or with a zero VCN delta
 instead of treating them as sparse

---
 src/attribute_value/non_resident.rs | 34 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index bdc7f56..d8ff406 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -400,8 +400,9 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
             self.read_variable_length_signed_integer(&mut cursor, vcn_byte_count)
         ));
 
-        // The VCN may either indicate "real" data or a sparse Data Run.
-        let position = if vcn.value() != 0 {
+        // Only a Data Run without any VCN bytes is sparse.
+        // In particular, the first Data Run of $Boot has a zero VCN and indicates "real" data at LCN 0.
+        let position = if vcn_byte_count != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
             let new_lcn = iter_try!(self.state.previous_lcn.checked_add(vcn).ok_or(
@@ -412,10 +413,13 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                 }
             ));
             self.state.previous_lcn = new_lcn;
-            iter_try!(new_lcn.position(self.ntfs))
+
+            // `NtfsPosition` cannot express byte position 0, so get the plain value here.
+            let position = iter_try!(new_lcn.position(self.ntfs));
+            Some(position.value().map_or(0, |position| position.get()))
         } else {
             // This is a sparse Data Run.
-            NtfsPosition::none()
+            None
         };
 
         // Only advance after having checked for success.
@@ -444,8 +448,8 @@ pub(crate) struct DataRunsState {
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct NtfsDataRun {
     /// Absolute position of the Data Run within the filesystem, in bytes.
-    /// This may be `NtfsPosition(None)` if this is a "sparse" Data Run.
-    position: NtfsPosition,
+    /// This is `None` if this is a "sparse" Data Run.
+    position: Option<u64>,
     /// Total allocated size of the Data Run, in bytes.
     /// The actual size used by data may be lower, but a Data Run does not know about that.
     allocated_size: u64,
@@ -454,7 +458,7 @@ pub struct NtfsDataRun {
 }
 
 impl NtfsDataRun {
-    pub(crate) fn new(position: NtfsPosition, allocated_size: u64) -> Self {
+    pub(crate) fn new(position: Option<u64>, allocated_size: u64) -> Self {
         Self {
             position,
             allocated_size,
@@ -470,12 +474,14 @@ impl NtfsDataRun {
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
-    ///   * The Data Run is a "sparse" Data Run
+    ///   * The Data Run is a "sparse" Data Run, or
+    ///   * The position is the very first byte of the filesystem (which [`NtfsPosition`] cannot express)
     pub fn data_position(&self) -> NtfsPosition {
-        if self.stream_position <= self.allocated_size() {
-            self.position + self.stream_position
-        } else {
-            NtfsPosition::none()
+        match self.position {
+            Some(position) if self.stream_position <= self.allocated_size() => {
+                NtfsPosition::new(position + self.stream_position)
+            }
+            _ => NtfsPosition::none(),
         }
     }
 
@@ -496,9 +502,9 @@ impl NtfsReadSeek for NtfsDataRun {
         let bytes_to_read = usize::min(buf.len(), self.remaining_len() as usize);
         let work_slice = &mut buf[..bytes_to_read];
 
-        let bytes_read = if let Some(position) = self.position.value() {
+        let bytes_read = if let Some(position) = self.position {
             // This Data Run contains "real" data.
-            fs.seek(SeekFrom::Start(position.get() + self.stream_position))?;
+            fs.seek(SeekFrom::Start(position + self.stream_position))?;
             fs.read(work_slice)?
         } else {
             // This is a sparse Data Run.
-- 
2.43.0


From 43bc00a129591c163a472bcf4883b3fde2679e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 04/31] fix: reject data runs beyond the 64-bit range, and
 report the same error again on a further call

---
 src/attribute_value/non_resident.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index d8ff406..7ef4420 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -402,6 +402,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
 
         // Only a Data Run without any VCN bytes is sparse.
         // In particular, the first Data Run of $Boot has a zero VCN and indicates "real" data at LCN 0.
+        let mut new_previous_lcn = self.state.previous_lcn;
         let position = if vcn_byte_count != 0 {
             // This Data Run contains "real" data.
             // Turn the read VCN into an absolute LCN.
@@ -412,11 +413,18 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
                     previous_lcn: self.state.previous_lcn,
                 }
             ));
-            self.state.previous_lcn = new_lcn;
+            new_previous_lcn = new_lcn;
 
             // `NtfsPosition` cannot express byte position 0, so get the plain value here.
             let position = iter_try!(new_lcn.position(self.ntfs));
-            Some(position.value().map_or(0, |position| position.get()))
+            let position = position.value().map_or(0, |position| position.get());
+
+            // The end of the Data Run must also be a valid position.
+            if position.checked_add(allocated_size).is_none() {
+                return Some(Err(NtfsError::LcnTooBig { lcn: new_lcn }));
+            }
+
+            Some(position)
         } else {
             // This is a sparse Data Run.
             None
@@ -426,6 +434,7 @@ impl<'n, 'f> Iterator for NtfsDataRuns<'n, 'f> {
         // In case of an error, a subsequent call shall output the same error again.
         let bytes_to_advance = cursor.stream_position().unwrap() as usize;
         self.state.offset += bytes_to_advance;
+        self.state.previous_lcn = new_previous_lcn;
 
         let data_run = NtfsDataRun::new(position, allocated_size);
         Some(Ok(data_run))
-- 
2.43.0


From eb242a3065da2968b201840f0abb1b76aa35cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 05/31] fix: report a filesystem that ends within a data run
 instead of skipping to the next data run

---
 src/attribute_value/non_resident.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 7ef4420..f5c8e92 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -670,7 +670,12 @@ impl StreamState {
         // Perform the actual read.
         let bytes_read_in_data_run = data_run.read(fs, &mut buf[start..end])?;
         if bytes_read_in_data_run == 0 {
-            return Ok(false);
+            // The filesystem ends within this Data Run.
+            // Moving on to the next Data Run now would return data from a wrong position.
+            return Err(NtfsError::Io(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "the filesystem ends within a Data Run",
+            )));
         }
 
         *bytes_read += bytes_read_in_data_run;
-- 
2.43.0


From c02714b9873fd04b752d658be1745e8504dc3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 06/31] fix: keep the position of a non-resident value when a
 read or seek fails

---
 src/attribute_value/non_resident.rs | 60 ++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 13 deletions(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index f5c8e92..1aac003 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -109,18 +109,7 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind(&mut self) -> Result<()> {
-        self.stream_data_runs = self.data_runs();
-        self.stream_state = StreamState::new(self.len());
-        self.next_data_run()?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    fn read_data_runs<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
     where
         T: Read + Seek,
     {
@@ -146,7 +135,16 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
         Ok(bytes_read)
     }
 
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Rewinds this value reader to the very beginning.
+    fn rewind(&mut self) -> Result<()> {
+        self.stream_data_runs = self.data_runs();
+        self.stream_state = StreamState::new(self.len());
+        self.next_data_run()?;
+
+        Ok(())
+    }
+
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
     where
         T: Read + Seek,
     {
@@ -192,6 +190,42 @@ impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let stream_data_runs = self.stream_data_runs.clone();
+        let stream_state = self.stream_state.clone();
+
+        let result = self.read_data_runs(fs, buf);
+        if result.is_err() {
+            // No bytes have been reported as read, so get back to the position before the call.
+            self.stream_data_runs = stream_data_runs;
+            self.stream_state = stream_state;
+        }
+
+        result
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        let stream_data_runs = self.stream_data_runs.clone();
+        let stream_state = self.stream_state.clone();
+
+        let result = self.seek_data_runs(fs, pos);
+        if result.is_err() {
+            // Get back to the position before the call.
+            self.stream_data_runs = stream_data_runs;
+            self.stream_state = stream_state;
+        }
+
+        result
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
-- 
2.43.0


From a88711d27aa22d3fd31365fbe762990ab474daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 07/31] fix: report the data position within the data run that
 stores the next byte

---
 src/attribute_value/non_resident.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/attribute_value/non_resident.rs b/src/attribute_value/non_resident.rs
index 1aac003..b85fb29 100644
--- a/src/attribute_value/non_resident.rs
+++ b/src/attribute_value/non_resident.rs
@@ -74,6 +74,13 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     ///   * The attribute does not have a Data Run, or
     ///   * The current Data Run is a "sparse" Data Run
     pub fn data_position(&self) -> NtfsPosition {
+        // If the current Data Run has been read entirely, the next byte is stored in the next one.
+        if self.stream_state.is_at_end_of_data_run() {
+            if let Some(Ok(next_data_run)) = self.stream_data_runs.clone().next() {
+                return next_data_run.data_position();
+            }
+        }
+
         self.stream_state.data_position()
     }
 
@@ -115,7 +122,8 @@ impl<'n, 'f> NtfsNonResidentAttributeValue<'n, 'f> {
     {
         let mut bytes_read = 0usize;
 
-        while bytes_read < buf.len() {
+        // Don't move through the data runs any further when we have reached the end of the value.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
@@ -604,6 +612,13 @@ impl StreamState {
         }
     }
 
+    /// Returns whether there is a current Data Run and it has been read entirely.
+    pub(crate) fn is_at_end_of_data_run(&self) -> bool {
+        self.stream_data_run
+            .as_ref()
+            .map_or(false, |data_run| data_run.remaining_len() == 0)
+    }
+
     /// Returns the total (used) data size of the value, in bytes.
     pub(crate) fn data_size(&self) -> u64 {
         self.data_size
-- 
2.43.0


From 5b0bf829a4c735019bb19eabae1ef50dfb05738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:13 +0000
Subject: [PATCH 08/31] fix: report attribute list entries that exceed the list
 instead of dropping them

---
 src/structured_values/attribute_list.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index e9c7e05..36d098c 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -145,6 +145,7 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         let mut value_attached = value.clone().attach(fs);
         let position = value.data_position();
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut value_attached, position));
+        iter_try!(entry.validate_entry_length(value.len() - value.stream_position()));
 
         // Advance our iterator to the next entry.
         iter_try!(value.seek(fs, SeekFrom::Current(entry.list_entry_length() as i64)));
@@ -163,10 +164,11 @@ impl<'n, 'f> NtfsAttributeListEntries<'n, 'f> {
         // Get the current entry.
         let mut cursor = Cursor::new(*slice);
         let entry = iter_try!(NtfsAttributeListEntry::new(&mut cursor, *position));
+        iter_try!(entry.validate_entry_length(slice.len() as u64));
 
         // Advance our iterator to the next entry.
         let bytes_to_advance = entry.list_entry_length() as usize;
-        *slice = slice.get(bytes_to_advance..)?;
+        *slice = &slice[bytes_to_advance..];
         *position += bytes_to_advance;
         Some(Ok(entry))
     }
@@ -298,6 +300,19 @@ impl NtfsAttributeListEntry {
         })
     }
 
+    fn validate_entry_length(&self, remaining_length: u64) -> Result<()> {
+        if self.list_entry_length() as u64 > remaining_length {
+            return Err(NtfsError::InvalidStructuredValueSize {
+                position: self.position(),
+                ty: NtfsAttributeType::AttributeList,
+                expected: self.list_entry_length() as u64,
+                actual: remaining_length,
+            });
+        }
+
+        Ok(())
+    }
+
     fn validate_entry_and_name_length(&self) -> Result<()> {
         let total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + self.name_length();
 
-- 
2.43.0


From b9f2e5546138f30adf738d9800c2d4ed609a99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 09/31] fix: continue after a connected attribute without data
 runs

---
 src/attribute_value/attribute_list_non_resident.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 564169b..aa9c200 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -153,12 +153,9 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         let mut stream_data_runs = NtfsDataRuns::new(self.ntfs, data, position);
 
         // Get the first Data Run already here to save time and let `data_position` return something meaningful.
-        let stream_data_run = match stream_data_runs.next() {
-            Some(stream_data_run) => stream_data_run,
-            None => return Ok(false),
-        };
-        let stream_data_run = stream_data_run?;
-        self.stream_state.set_stream_data_run(Some(stream_data_run));
+        // An attribute without any data runs may still be followed by connected attributes that have some.
+        let stream_data_run = stream_data_runs.next().transpose()?;
+        self.stream_state.set_stream_data_run(stream_data_run);
 
         // Store the `NtfsFile` and serialize the `NtfsDataRuns` state for a later iteration.
         let data_runs_state = Some(stream_data_runs.into_state());
-- 
2.43.0


From a836d6f3207b03dd6daf27328509c594b4692217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 10/31] fix: keep the position of a value split over several
 attributes when a read or seek fails

---
 .../attribute_list_non_resident.rs            | 92 +++++++++++++++----
 1 file changed, 74 insertions(+), 18 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index aa9c200..7172a3c 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -36,6 +36,9 @@ pub struct NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     attribute_state: Option<AttributeState<'n>>,
     /// Iteration state of the current Data Run.
     stream_state: StreamState,
+    /// Whether an error has left the iteration state at an undefined position.
+    /// The next operation must start from the very beginning then.
+    is_invalidated: bool,
 }
 
 impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
@@ -61,6 +64,7 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
             data_size,
             attribute_state: None,
             stream_state,
+            is_invalidated: false,
         };
         value.next_attribute(fs)?;
 
@@ -85,6 +89,15 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.data_size
     }
 
+    /// Remembers that an error has left the iteration state at an undefined position,
+    /// and restores the given stream position.
+    fn invalidate(&mut self, stream_position: u64) {
+        self.attribute_state = None;
+        self.stream_state.set_stream_data_run(None);
+        self.stream_state.set_stream_position(stream_position);
+        self.is_invalidated = true;
+    }
+
     /// Advances to the next Data Run and returns whether we got another Data Run.
     fn next_data_run(&mut self) -> Result<bool> {
         // Do we have a file and a (non-resident) attribute to iterate through its data runs?
@@ -173,27 +186,17 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.ntfs
     }
 
-    /// Rewinds this value reader to the very beginning.
-    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
-    where
-        T: Read + Seek,
-    {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
-        self.stream_state = StreamState::new(self.len());
-        self.next_attribute(fs)?;
-
-        Ok(())
-    }
-}
-
-impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
-    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    fn read_data_runs<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
     where
         T: Read + Seek,
     {
         let mut bytes_read = 0usize;
 
+        if self.is_invalidated {
+            // Find the current position again.
+            self.seek_data_runs(fs, SeekFrom::Start(self.stream_position()))?;
+        }
+
         while bytes_read < buf.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
@@ -220,11 +223,33 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
         Ok(bytes_read)
     }
 
-    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    /// Rewinds this value reader to the very beginning.
+    fn rewind<T>(&mut self, fs: &mut T) -> Result<()>
     where
         T: Read + Seek,
     {
-        let pos = self.stream_state.optimize_seek(pos, self.len())?;
+        self.connected_entries.attribute_list_entries =
+            Some(self.initial_attribute_list_entries.clone());
+        self.attribute_state = None;
+        self.stream_state = StreamState::new(self.len());
+        self.next_attribute(fs)?;
+        self.is_invalidated = false;
+
+        Ok(())
+    }
+
+    fn seek_data_runs<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        let mut pos = self.stream_state.optimize_seek(pos, self.len())?;
+
+        if self.is_invalidated {
+            // We can only seek from the very beginning.
+            if let SeekFrom::Current(n) = pos {
+                pos = SeekFrom::Start(self.stream_position() + n as u64);
+            }
+        }
 
         let mut bytes_left_to_seek = match pos {
             SeekFrom::Start(n) => {
@@ -272,6 +297,37 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 
         Ok(self.stream_position())
     }
+}
+
+impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
+    fn read<T>(&mut self, fs: &mut T, buf: &mut [u8]) -> Result<usize>
+    where
+        T: Read + Seek,
+    {
+        let stream_position = self.stream_position();
+
+        let result = self.read_data_runs(fs, buf);
+        if result.is_err() {
+            // No bytes have been reported as read.
+            self.invalidate(stream_position);
+        }
+
+        result
+    }
+
+    fn seek<T>(&mut self, fs: &mut T, pos: SeekFrom) -> Result<u64>
+    where
+        T: Read + Seek,
+    {
+        let stream_position = self.stream_position();
+
+        let result = self.seek_data_runs(fs, pos);
+        if result.is_err() {
+            self.invalidate(stream_position);
+        }
+
+        result
+    }
 
     fn stream_position(&self) -> u64 {
         self.stream_state.stream_position()
-- 
2.43.0


From 21a886c3aa94bf8b3349b083b5186335ee98340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 11/31] fix: report the data position of a split value within
 the data run that stores the next byte

---
 .../attribute_list_non_resident.rs            | 35 +++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 7172a3c..33def66 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -8,7 +8,7 @@
 
 use binrw::io::{Read, Seek, SeekFrom};
 
-use super::{DataRunsState, NtfsDataRuns, StreamState};
+use super::{DataRunsState, NtfsDataRun, NtfsDataRuns, StreamState};
 use crate::attribute::{NtfsAttribute, NtfsAttributeType};
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
@@ -74,8 +74,20 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     /// Returns the absolute current data seek position within the filesystem, in bytes.
     /// This may be `None` if:
     ///   * The current seek position is outside the valid range, or
-    ///   * The current Data Run is a "sparse" Data Run.
+    ///   * The current Data Run is a "sparse" Data Run, or
+    ///   * The value is continued at this position by a connected attribute that has not been read yet.
     pub fn data_position(&self) -> NtfsPosition {
+        // If the current Data Run has been read entirely, the next byte is stored in the next one.
+        if self.stream_state.is_at_end_of_data_run() {
+            if let Some(next_data_run) = self.peek_data_run() {
+                return next_data_run.data_position();
+            }
+
+            if self.connected_entries.attribute_list_entries.is_some() {
+                return NtfsPosition::none();
+            }
+        }
+
         self.stream_state.data_position()
     }
 
@@ -89,6 +101,22 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         self.data_size
     }
 
+    /// Returns the next Data Run of the current attribute (if any) without advancing to it.
+    fn peek_data_run(&self) -> Option<NtfsDataRun> {
+        let attribute_state = self.attribute_state.as_ref()?;
+        let data_runs_state = attribute_state.data_runs_state.clone()?;
+        let attribute = NtfsAttribute::new(
+            &attribute_state.file,
+            attribute_state.attribute_offset,
+            None,
+        )
+        .ok()?;
+        let (data, position) = attribute.non_resident_value_data_and_position().ok()?;
+        NtfsDataRuns::from_state(self.ntfs, data, position, data_runs_state)
+            .next()?
+            .ok()
+    }
+
     /// Remembers that an error has left the iteration state at an undefined position,
     /// and restores the given stream position.
     fn invalidate(&mut self, stream_position: u64) {
@@ -197,7 +225,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
             self.seek_data_runs(fs, SeekFrom::Start(self.stream_position()))?;
         }
 
-        while bytes_read < buf.len() {
+        // Don't move through the data runs any further when we have reached the end of the value.
+        while bytes_read < buf.len() && self.stream_position() < self.len() {
             // Read from the current Data Run if there is one.
             if self.stream_state.read_data_run(fs, buf, &mut bytes_read)? {
                 // We read something, so check the loop condition again if we need to read more.
-- 
2.43.0


From 721437a9931d538d6f6668ea7084ba150d68f2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 12/31] fix: recognize the parts of a split value by type, name
 and lowest VCN instead of the instance

---
 src/attribute.rs                              | 28 ++++++--------
 .../attribute_list_non_resident.rs            | 38 +++++++++----------
 src/structured_values/attribute_list.rs       | 16 +++++++-
 3 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 4cb34cf..9cca8b9 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -20,7 +20,7 @@ use crate::attribute_value::{
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
 use crate::structured_values::{
-    NtfsAttributeList, NtfsAttributeListEntries, NtfsStructuredValue,
+    NtfsAttributeList, NtfsAttributeListEntries, NtfsAttributeListEntry, NtfsStructuredValue,
     NtfsStructuredValueFromResidentAttributeValue,
 };
 use crate::types::{NtfsPosition, Vcn};
@@ -509,8 +509,6 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
                 self.file.ntfs(),
                 fs,
                 list_entries.clone(),
-                self.instance(),
-                self.ty()?,
                 data_size,
             )?;
             Ok(NtfsAttributeValue::AttributeListNonResident(value))
@@ -547,7 +545,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    list_skip_info: Option<(u16, NtfsAttributeType)>,
+    list_first_entry: Option<NtfsAttributeListEntry>,
 }
 
 impl<'n, 'f> NtfsAttributes<'n, 'f> {
@@ -555,7 +553,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
             list_entries: None,
-            list_skip_info: None,
+            list_first_entry: None,
         }
     }
 
@@ -589,25 +587,22 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                         Some(Err(e)) => return Some(Err(e)),
                         None => break,
                     };
-                    let entry_instance = entry.instance();
                     let entry_record_number = entry.base_file_reference().file_record_number();
-                    let entry_ty = iter_try!(entry.ty());
-
-                    // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
-                    if entry_record_number == self.raw_iter.file.file_record_number() {
-                        continue;
-                    }
 
                     // Ignore all Attribute List entries that are connected attributes of a previous one.
-                    if let Some((skip_instance, skip_ty)) = self.list_skip_info {
-                        if entry_instance == skip_instance && entry_ty == skip_ty {
+                    if let Some(first_entry) = &self.list_first_entry {
+                        if entry.is_connected_to(first_entry) {
                             continue;
                         }
                     }
+                    self.list_first_entry = Some(entry.clone());
 
-                    // We found an attribute that we want to return.
-                    self.list_skip_info = None;
+                    // Ignore all Attribute List entries that just repeat attributes of the raw iterator.
+                    if entry_record_number == self.raw_iter.file.file_record_number() {
+                        continue;
+                    }
 
+                    // We found an attribute that we want to return.
                     let ntfs = self.raw_iter.file.ntfs();
                     let entry_file = iter_try!(entry.to_file(ntfs, fs));
                     let entry_attribute = iter_try!(entry.to_attribute(&entry_file));
@@ -616,7 +611,6 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                     let mut list_entries = None;
                     if !entry_attribute.is_resident() {
                         list_entries = Some(attribute_list_entries_clone);
-                        self.list_skip_info = Some((entry_instance, entry_ty));
                     }
 
                     let item = NtfsAttributeItem {
diff --git a/src/attribute_value/attribute_list_non_resident.rs b/src/attribute_value/attribute_list_non_resident.rs
index 33def66..1fe21f8 100644
--- a/src/attribute_value/attribute_list_non_resident.rs
+++ b/src/attribute_value/attribute_list_non_resident.rs
@@ -9,7 +9,7 @@
 use binrw::io::{Read, Seek, SeekFrom};
 
 use super::{DataRunsState, NtfsDataRun, NtfsDataRuns, StreamState};
-use crate::attribute::{NtfsAttribute, NtfsAttributeType};
+use crate::attribute::NtfsAttribute;
 use crate::error::{NtfsError, Result};
 use crate::file::NtfsFile;
 use crate::ntfs::Ntfs;
@@ -46,15 +46,12 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
         ntfs: &'n Ntfs,
         fs: &mut T,
         attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
         data_size: u64,
     ) -> Result<Self>
     where
         T: Read + Seek,
     {
-        let connected_entries =
-            AttributeListConnectedEntries::new(attribute_list_entries.clone(), instance, ty);
+        let connected_entries = AttributeListConnectedEntries::new(attribute_list_entries.clone());
         let stream_state = StreamState::new(data_size);
 
         let mut value = Self {
@@ -257,8 +254,8 @@ impl<'n, 'f> NtfsAttributeListNonResidentAttributeValue<'n, 'f> {
     where
         T: Read + Seek,
     {
-        self.connected_entries.attribute_list_entries =
-            Some(self.initial_attribute_list_entries.clone());
+        self.connected_entries =
+            AttributeListConnectedEntries::new(self.initial_attribute_list_entries.clone());
         self.attribute_state = None;
         self.stream_state = StreamState::new(self.len());
         self.next_attribute(fs)?;
@@ -366,20 +363,14 @@ impl<'n, 'f> NtfsReadSeek for NtfsAttributeListNonResidentAttributeValue<'n, 'f>
 #[derive(Clone, Debug)]
 struct AttributeListConnectedEntries<'n, 'f> {
     attribute_list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
-    instance: u16,
-    ty: NtfsAttributeType,
+    first_entry: Option<NtfsAttributeListEntry>,
 }
 
 impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
-    fn new(
-        attribute_list_entries: NtfsAttributeListEntries<'n, 'f>,
-        instance: u16,
-        ty: NtfsAttributeType,
-    ) -> Self {
+    fn new(attribute_list_entries: NtfsAttributeListEntries<'n, 'f>) -> Self {
         Self {
             attribute_list_entries: Some(attribute_list_entries),
-            instance,
-            ty,
+            first_entry: None,
         }
     }
 
@@ -390,12 +381,17 @@ impl<'n, 'f> AttributeListConnectedEntries<'n, 'f> {
         let attribute_list_entries = self.attribute_list_entries.as_mut()?;
 
         let entry = iter_try!(attribute_list_entries.next(fs)?);
-        if entry.instance() == self.instance && iter_try!(entry.ty()) == self.ty {
-            Some(Ok(entry))
-        } else {
-            self.attribute_list_entries = None;
-            None
+
+        match &self.first_entry {
+            Some(first_entry) if !entry.is_connected_to(first_entry) => {
+                self.attribute_list_entries = None;
+                return None;
+            }
+            Some(_) => (),
+            None => self.first_entry = Some(entry.clone()),
         }
+
+        Some(Ok(entry))
     }
 }
 
diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index 36d098c..fcf4e66 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -209,12 +209,24 @@ impl NtfsAttributeListEntry {
     ///
     /// An instance number is unique within a single NTFS File Record.
     ///
-    /// Multiple entries of the same type and instance number form a connected attribute,
-    /// meaning an attribute whose value is stretched over multiple attributes.
     pub fn instance(&self) -> u16 {
         self.header.instance
     }
 
+    /// Returns whether this entry describes a connected attribute that continues the value
+    /// of the attribute described by the given entry.
+    ///
+    /// Adjacent entries of the same type and name form a connected attribute,
+    /// meaning an attribute whose value is stretched over multiple attributes.
+    /// Only the first of them has a zero [`lowest_vcn`].
+    ///
+    /// [`lowest_vcn`]: Self::lowest_vcn
+    pub(crate) fn is_connected_to(&self, first_entry: &Self) -> bool {
+        self.lowest_vcn().value() != 0
+            && self.header.ty == first_entry.header.ty
+            && self.name == first_entry.name
+    }
+
     /// Returns the length of this attribute list entry, in bytes.
     pub fn list_entry_length(&self) -> u16 {
         self.header.list_entry_length
-- 
2.43.0


From 40ada7d530b074da5a7118c837eb5b61ce80a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 13/31] fix: join a value whose first part is in the base
 record with its parts in other records

---
 src/attribute.rs | 82 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 81 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 9cca8b9..3157ad9 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -544,6 +544,7 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
 #[derive(Clone, Debug)]
 pub struct NtfsAttributes<'n, 'f> {
     raw_iter: NtfsAttributesRaw<'n, 'f>,
+    list: Option<NtfsAttributeList<'n, 'f>>,
     list_entries: Option<NtfsAttributeListEntries<'n, 'f>>,
     list_first_entry: Option<NtfsAttributeListEntry>,
 }
@@ -552,6 +553,7 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
     pub(crate) fn new(file: &'f NtfsFile<'n>) -> Self {
         Self {
             raw_iter: NtfsAttributesRaw::new(file),
+            list: None,
             list_entries: None,
             list_first_entry: None,
         }
@@ -566,6 +568,61 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
         NtfsAttributesAttached::new(fs, self)
     }
 
+    /// Checks the Attribute List whether the value of the given non-resident top-level attribute
+    /// is split over multiple attributes.
+    fn find_connected_entries<T>(
+        &self,
+        fs: &mut T,
+        attribute: &NtfsAttribute<'n, 'f>,
+    ) -> Result<ConnectedEntries<'n, 'f>>
+    where
+        T: Read + Seek,
+    {
+        let mut entries = match &self.list {
+            Some(list) => list.entries(),
+            None => return Ok(ConnectedEntries::None),
+        };
+        let ty = match attribute.ty() {
+            Ok(ty) => ty,
+            Err(_) => return Ok(ConnectedEntries::None),
+        };
+        let mut first_entry: Option<NtfsAttributeListEntry> = None;
+
+        loop {
+            let entries_clone = entries.clone();
+            let entry = match entries.next(fs) {
+                Some(entry) => entry?,
+                None => return Ok(ConnectedEntries::None),
+            };
+
+            let is_connected = first_entry
+                .as_ref()
+                .map_or(false, |first_entry| entry.is_connected_to(first_entry));
+
+            if entry.base_file_reference().file_record_number()
+                == self.raw_iter.file.file_record_number()
+                && entry.instance() == attribute.instance()
+                && entry.ty().map_or(false, |entry_ty| entry_ty == ty)
+            {
+                if is_connected {
+                    return Ok(ConnectedEntries::Further);
+                }
+
+                if let Some(next_entry) = entries.next(fs) {
+                    if next_entry?.is_connected_to(&entry) {
+                        return Ok(ConnectedEntries::First(entries_clone));
+                    }
+                }
+
+                return Ok(ConnectedEntries::None);
+            }
+
+            if !is_connected {
+                first_entry = Some(entry);
+            }
+        }
+    }
+
     /// See [`Iterator::next`].
     pub fn next<T>(&mut self, fs: &mut T) -> Option<Result<NtfsAttributeItem<'n, 'f>>>
     where
@@ -628,12 +685,23 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
                 let attribute_list =
                     iter_try!(attribute.structured_value::<T, NtfsAttributeList>(fs));
                 self.list_entries = Some(attribute_list.entries());
+                self.list = Some(attribute_list);
             } else {
+                let mut list_entries = None;
+                if !attribute.is_resident() {
+                    match iter_try!(self.find_connected_entries(fs, &attribute)) {
+                        ConnectedEntries::None => (),
+                        ConnectedEntries::First(entries) => list_entries = Some(entries),
+                        // This attribute has already been returned as a part of the first one.
+                        ConnectedEntries::Further => continue,
+                    }
+                }
+
                 let item = NtfsAttributeItem {
                     attribute_file: self.raw_iter.file,
                     attribute_value_file: None,
                     attribute_offset: attribute.offset(),
-                    list_entries: None,
+                    list_entries,
                 };
                 return Some(Ok(item));
             }
@@ -641,6 +709,18 @@ impl<'n, 'f> NtfsAttributes<'n, 'f> {
     }
 }
 
+/// Returned by [`NtfsAttributes::find_connected_entries`].
+#[allow(clippy::large_enum_variant)]
+enum ConnectedEntries<'n, 'f> {
+    /// The value of the attribute is not split over multiple attributes.
+    None,
+    /// The attribute is the first one of a split value.
+    /// The encapsulated iterator returns the Attribute List entries from this attribute on.
+    First(NtfsAttributeListEntries<'n, 'f>),
+    /// The attribute is a further one of a split value.
+    Further,
+}
+
 /// Iterator over
 ///   all attributes of an [`NtfsFile`],
 ///   returning an [`NtfsAttributeItem`] for each entry,
-- 
2.43.0


From 903929fd1c5de21127bc99617b636c7d6415a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 14/31] fix: read the name of an attribute list entry from its
 stored offset

---
 src/structured_values/attribute_list.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/structured_values/attribute_list.rs b/src/structured_values/attribute_list.rs
index fcf4e66..5db84b7 100644
--- a/src/structured_values/attribute_list.rs
+++ b/src/structured_values/attribute_list.rs
@@ -266,7 +266,13 @@ impl NtfsAttributeListEntry {
         debug_assert_eq!(self.name.len(), NAME_MAX_SIZE);
 
         let name_length = self.name_length();
-        r.read_exact(&mut self.name[..name_length])?;
+        if name_length > 0 {
+            // The name usually follows the header directly.
+            // This subtraction is safe, because the name offset has been checked before.
+            let gap = self.header.name_offset as usize - ATTRIBUTE_LIST_ENTRY_HEADER_SIZE;
+            r.seek(SeekFrom::Current(gap as i64))?;
+            r.read_exact(&mut self.name[..name_length])?;
+        }
         self.name.truncate(name_length);
 
         Ok(())
@@ -326,7 +332,21 @@ impl NtfsAttributeListEntry {
     }
 
     fn validate_entry_and_name_length(&self) -> Result<()> {
-        let total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE + self.name_length();
+        let mut total_size = ATTRIBUTE_LIST_ENTRY_HEADER_SIZE;
+
+        if self.name_length() > 0 {
+            let name_offset = self.header.name_offset as usize;
+            if name_offset < ATTRIBUTE_LIST_ENTRY_HEADER_SIZE {
+                return Err(NtfsError::InvalidStructuredValueSize {
+                    position: self.position(),
+                    ty: NtfsAttributeType::AttributeList,
+                    expected: ATTRIBUTE_LIST_ENTRY_HEADER_SIZE as u64,
+                    actual: name_offset as u64,
+                });
+            }
+
+            total_size = name_offset + self.name_length();
+        }
 
         if total_size > self.list_entry_length() as usize {
             return Err(NtfsError::InvalidStructuredValueSize {
-- 
2.43.0


From fe377499d69e0fa4194ade7b8ef9a7381c29b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 15/31] fix: report the position of a resident value instead of
 the position of its attribute

---
 src/attribute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attribute.rs b/src/attribute.rs
index 3157ad9..5d6f41a 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -360,7 +360,10 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
         let end = start + self.resident_value_length() as usize;
         let data = &self.file.record_data()[start..end];
 
-        Ok(NtfsResidentAttributeValue::new(data, self.position()))
+        Ok(NtfsResidentAttributeValue::new(
+            data,
+            self.file.position() + start,
+        ))
     }
 
     fn resident_value_length(&self) -> u32 {
-- 
2.43.0


From 277fadf88ef6743f8d01605e6a706d24d50d2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 16/31] fix: round calendar times before 1970 down to an
 interval instead of up

---
 src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.rs b/src/time.rs
index f86dd87..d41ab66 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -39,7 +39,7 @@ impl TryFrom<OffsetDateTime> for NtfsTime {
 
     fn try_from(dt: OffsetDateTime) -> Result<Self, Self::Error> {
         let nanos_since_unix_epoch = dt.unix_timestamp_nanos();
-        let intervals_since_unix_epoch = nanos_since_unix_epoch / 100;
+        let intervals_since_unix_epoch = nanos_since_unix_epoch.div_euclid(100);
         let intervals_since_windows_epoch =
             intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS as i128;
         let nt_timestamp =
-- 
2.43.0


From 8d2a01a783f09978a49108861a59a1e42d04bae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 17/31] fix: refuse system times beyond the range of NTFS
 timestamps instead of overflowing

---
 src/time.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/time.rs b/src/time.rs
index d41ab66..6cb630e 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -69,12 +69,18 @@ impl TryFrom<SystemTime> for NtfsTime {
 
     fn try_from(st: SystemTime) -> Result<Self, Self::Error> {
         let duration_since_unix_epoch = st.duration_since(SystemTime::UNIX_EPOCH)?;
-        let intervals_since_unix_epoch = duration_since_unix_epoch.as_secs() * INTERVALS_PER_SECOND
-            + duration_since_unix_epoch.subsec_nanos() as u64 / 100;
-        let intervals_since_windows_epoch =
-            intervals_since_unix_epoch + EPOCH_DIFFERENCE_IN_INTERVALS;
-
-        Ok(Self(intervals_since_windows_epoch))
+        let intervals_since_windows_epoch = duration_since_unix_epoch
+            .as_secs()
+            .checked_mul(INTERVALS_PER_SECOND)
+            .and_then(|x| x.checked_add(duration_since_unix_epoch.subsec_nanos() as u64 / 100))
+            .and_then(|x| x.checked_add(EPOCH_DIFFERENCE_IN_INTERVALS));
+
+        match intervals_since_windows_epoch {
+            Some(intervals) => Ok(Self(intervals)),
+            // The time is beyond the last one an `NtfsTime` can represent, and therefore later than
+            // the Unix epoch, which makes for an error in this direction.
+            None => SystemTime::UNIX_EPOCH.duration_since(st).map(|_| Self(0)),
+        }
     }
 }
 
-- 
2.43.0


From b93721658257c1f21fe96d2f1cbef0767c54e217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 18/31] fix: pad the fields of a GUID with zeros instead of
 spaces

---
 src/guid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/guid.rs b/src/guid.rs
index db3e8f7..59c3e9e 100644
--- a/src/guid.rs
+++ b/src/guid.rs
@@ -21,7 +21,7 @@ impl fmt::Display for NtfsGuid {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(
             f,
-            "{:8X}-{:4X}-{:4X}-{:2X}{:2X}-{:2X}{:2X}{:2X}{:2X}{:2X}{:2X}",
+            "{:08X}-{:04X}-{:04X}-{:02X}{:02X}-{:02X}{:02X}{:02X}{:02X}{:02X}{:02X}",
             self.data1,
             self.data2,
             self.data3,
-- 
2.43.0


From fae037d90469172873c7c26d1d0a676f4cb2547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 19/31] fix: name the volume information in the error about its
 size

---
 src/structured_values/volume_information.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structured_values/volume_information.rs b/src/structured_values/volume_information.rs
index 07e42ff..cfc0da9 100644
--- a/src/structured_values/volume_information.rs
+++ b/src/structured_values/volume_information.rs
@@ -71,7 +71,7 @@ impl NtfsVolumeInformation {
         if value_length < VOLUME_INFORMATION_SIZE as u64 {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
-                ty: NtfsAttributeType::StandardInformation,
+                ty: NtfsAttributeType::VolumeInformation,
                 expected: VOLUME_INFORMATION_SIZE as u64,
                 actual: value_length,
             });
-- 
2.43.0


From ad1ae6c004a1322b7baad8c542fa6d87ea238734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 20/31] fix: reject attributes shorter than the header of their
 kind

---
 src/attribute.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute.rs b/src/attribute.rs
index 5d6f41a..31eabf1 100644
--- a/src/attribute.rs
+++ b/src/attribute.rs
@@ -435,6 +435,19 @@ impl<'n, 'f> NtfsAttribute<'n, 'f> {
             });
         }
 
+        let header_size = if self.is_resident() {
+            mem::size_of::<NtfsResidentAttributeHeader>()
+        } else {
+            mem::size_of::<NtfsNonResidentAttributeHeader>()
+        };
+        if attribute_length < header_size {
+            return Err(NtfsError::InvalidAttributeLength {
+                position: self.position(),
+                expected: header_size,
+                actual: attribute_length,
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 45ec9d4c7e35fe89ebb11bf5760c2db9d2085c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 21/31] fix: read file records through the MFT value instead of
 past the end of a data run

---
 src/file.rs | 10 ++++++++++
 src/ntfs.rs |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/file.rs b/src/file.rs
index b0bc5fc..d454bcf 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,6 +6,7 @@ use core::fmt;
 use core::num::NonZeroU64;
 
 use alloc::vec;
+use alloc::vec::Vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use bitflags::bitflags;
 use byteorder::{ByteOrder, LittleEndian};
@@ -144,6 +145,15 @@ impl<'n> NtfsFile<'n> {
         fs.seek(SeekFrom::Start(position.get()))?;
         fs.read_exact(&mut data)?;
 
+        Self::from_data(ntfs, data, position, file_record_number)
+    }
+
+    pub(crate) fn from_data(
+        ntfs: &'n Ntfs,
+        data: Vec<u8>,
+        position: NonZeroU64,
+        file_record_number: u64,
+    ) -> Result<Self> {
         let mut record = Record::new(data, position.into());
         Self::validate_signature(&record)?;
         record.fixup()?;
diff --git a/src/ntfs.rs b/src/ntfs.rs
index e560032..c0b31b6 100644
--- a/src/ntfs.rs
+++ b/src/ntfs.rs
@@ -1,6 +1,7 @@
 // Copyright 2021-2023 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: MIT OR Apache-2.0
 
+use alloc::vec;
 use binrw::io::{Read, Seek, SeekFrom};
 use binrw::BinReaderExt;
 
@@ -106,7 +107,11 @@ impl Ntfs {
             .value()
             .ok_or(NtfsError::InvalidFileRecordNumber { file_record_number })?;
 
-        NtfsFile::new(self, fs, position, file_record_number)
+        // Read the record through the value, because it may extend over more than one data run.
+        let mut data = vec![0; self.file_record_size as usize];
+        mft_data_value.read_exact(fs, &mut data)?;
+
+        NtfsFile::from_data(self, data, position, file_record_number)
     }
 
     /// Returns the size of a File Record of this NTFS filesystem, in bytes.
-- 
2.43.0


From b9ae3f83db04fa8821e8a254e40057d698643325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 22/31] fix: reject index records that are too small for their
 headers

---
 src/index_record.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/index_record.rs b/src/index_record.rs
index 0ca2216..1639f5b 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -66,6 +66,16 @@ impl NtfsIndexRecord {
     {
         let data_position = value.data_position();
 
+        // The record must at least have room for its headers.
+        let header_size = INDEX_RECORD_HEADER_SIZE + INDEX_NODE_HEADER_SIZE as u32;
+        if index_record_size < header_size {
+            return Err(NtfsError::InvalidIndexAllocatedSize {
+                position: data_position,
+                expected: header_size,
+                actual: index_record_size,
+            });
+        }
+
         let mut data = vec![0; index_record_size as usize];
         value.read_exact(fs, &mut data)?;
 
-- 
2.43.0


From 65f95801c6519908c2530c2627175a42d58a0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 23/31] fix: reject index records whose sizes overflow or whose
 entries start beyond the used size

---
 src/error.rs        |  6 ++++++
 src/index_record.rs | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8f752f5..db45672 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -84,6 +84,12 @@ pub enum NtfsError {
         expected: u32,
         actual: u32,
     },
+    /// The NTFS Index Record at byte position {position:#x} indicates that its entries start at offset {expected}, but only {actual} bytes are used
+    InvalidIndexEntriesOffset {
+        position: NtfsPosition,
+        expected: u32,
+        actual: u32,
+    },
     /// The NTFS Index Entry at byte position {position:#x} references a data field in the range {range:?}, but the entry only has a size of {size} bytes
     InvalidIndexEntryDataRange {
         position: NtfsPosition,
diff --git a/src/index_record.rs b/src/index_record.rs
index 1639f5b..5823554 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -163,7 +163,8 @@ impl NtfsIndexRecord {
 
         // The total size allocated for this Index Record must not be larger than
         // the size defined for all index records of this index.
-        let total_allocated_size = INDEX_RECORD_HEADER_SIZE + self.index_allocated_size();
+        let total_allocated_size =
+            INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_allocated_size());
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
@@ -174,7 +175,7 @@ impl NtfsIndexRecord {
 
         // Furthermore, the total used size for this Index Record must not be
         // larger than the total allocated size.
-        let total_data_size = INDEX_RECORD_HEADER_SIZE + self.index_data_size();
+        let total_data_size = INDEX_RECORD_HEADER_SIZE.saturating_add(self.index_data_size());
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
@@ -183,6 +184,15 @@ impl NtfsIndexRecord {
             });
         }
 
+        // Finally, the entries must start within the used size.
+        if self.index_entries_offset() > self.index_data_size() {
+            return Err(NtfsError::InvalidIndexEntriesOffset {
+                position: self.record.position(),
+                expected: self.index_entries_offset(),
+                actual: self.index_data_size(),
+            });
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From 9967a8cb258dd27de99bb3a9b3fcf33b0d4125b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 24/31] fix: report the sizes of an invalid index record the
 right way round

---
 src/index_record.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/index_record.rs b/src/index_record.rs
index 5823554..c734302 100644
--- a/src/index_record.rs
+++ b/src/index_record.rs
@@ -168,8 +168,8 @@ impl NtfsIndexRecord {
         if total_allocated_size > index_record_size {
             return Err(NtfsError::InvalidIndexAllocatedSize {
                 position: self.record.position(),
-                expected: index_record_size,
-                actual: total_allocated_size,
+                expected: total_allocated_size,
+                actual: index_record_size,
             });
         }
 
@@ -179,8 +179,8 @@ impl NtfsIndexRecord {
         if total_data_size > total_allocated_size {
             return Err(NtfsError::InvalidIndexUsedSize {
                 position: self.record.position(),
-                expected: total_allocated_size,
-                actual: total_data_size,
+                expected: total_data_size,
+                actual: total_allocated_size,
             });
         }
 
-- 
2.43.0


From 399e716ee6bb37e33d179f6cc1f76f4404812440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 25/31] fix: reject index roots whose entries start beyond the
 used size

---
 src/structured_values/index_root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 7a7b6f3..982febd 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -145,6 +145,14 @@ impl<'f> NtfsIndexRoot<'f> {
             });
         }
 
+        if entries_range.start > entries_range.end {
+            return Err(NtfsError::InvalidIndexRootEntriesOffset {
+                position: self.position,
+                expected: entries_range.start,
+                actual: entries_range.end,
+            });
+        }
+
         if entries_range.end > self.slice.len() {
             return Err(NtfsError::InvalidIndexRootUsedSize {
                 position: self.position,
-- 
2.43.0


From bae799f4debfc09cccf46650ae9ad919cf58918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 26/31] fix: name the full header size in the error about the
 size of an index root

---
 src/structured_values/index_root.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structured_values/index_root.rs b/src/structured_values/index_root.rs
index 982febd..34124d9 100644
--- a/src/structured_values/index_root.rs
+++ b/src/structured_values/index_root.rs
@@ -53,11 +53,12 @@ const LARGE_INDEX_FLAG: u8 = 0x01;
 
 impl<'f> NtfsIndexRoot<'f> {
     fn new(slice: &'f [u8], position: NtfsPosition) -> Result<Self> {
-        if slice.len() < INDEX_ROOT_HEADER_SIZE + INDEX_NODE_HEADER_SIZE {
+        let header_size = INDEX_ROOT_HEADER_SIZE + INDEX_NODE_HEADER_SIZE;
+        if slice.len() < header_size {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
                 ty: NtfsAttributeType::IndexRoot,
-                expected: INDEX_ROOT_HEADER_SIZE as u64,
+                expected: header_size as u64,
                 actual: slice.len() as u64,
             });
         }
-- 
2.43.0


From 551ae3ecf72fc5281eeb6b4e45c7c495fddd8b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 27/31] fix: reject index entries shorter than their header

---
 src/index_entry.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index 333d1a6..cc72cfa 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -285,6 +285,16 @@ where
             });
         }
 
+        // An entry must at least cover its own header.
+        // This also guarantees progress when iterating over entries.
+        if (self.index_entry_length() as usize) < INDEX_ENTRY_HEADER_SIZE {
+            return Err(NtfsError::InvalidIndexEntrySize {
+                position: self.position,
+                expected: INDEX_ENTRY_HEADER_SIZE as u16,
+                actual: self.index_entry_length(),
+            });
+        }
+
         if self.index_entry_length() as usize > self.slice.len() {
             return Err(NtfsError::InvalidIndexEntrySize {
                 position: self.position,
-- 
2.43.0


From 0e84ee083c58018c5a4db4470dc7f7db8bb38581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 28/31] fix: confine index entries to the used part of their
 index record

---
 src/index_entry.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index_entry.rs b/src/index_entry.rs
index cc72cfa..12f3642 100644
--- a/src/index_entry.rs
+++ b/src/index_entry.rs
@@ -353,7 +353,10 @@ where
         // Get the current entry.
         let start = self.range.start;
         let position = self.position;
-        let entry = iter_try!(NtfsIndexEntry::<E>::new(&self.data[start..], position));
+        let entry = iter_try!(NtfsIndexEntry::<E>::new(
+            &self.data[start..self.range.end],
+            position
+        ));
         let end = start + entry.index_entry_length() as usize;
 
         if entry.flags().contains(NtfsIndexEntryFlags::LAST_ENTRY) {
-- 
2.43.0


From 0d674cc7df7541645aef1a28dd51649b57ecf94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 29/31] fix: report index subnodes that are their own parents
 instead of descending forever

---
 src/error.rs |  2 ++
 src/index.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index db45672..8b7d751 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -193,6 +193,8 @@ pub enum NtfsError {
     MissingIndexAllocation { position: NtfsPosition },
     /// The NTFS file at byte position {position:#x} is not a directory
     NotADirectory { position: NtfsPosition },
+    /// The NTFS index with its index root at byte position {position:#x} references the Index Record at VCN {vcn} as a subnode of itself
+    RecursiveIndexSubnode { position: NtfsPosition, vcn: Vcn },
     /// The total sector count is too big to be multiplied by the sector size
     TotalSectorsTooBig { total_sectors: u64 },
     /// The NTFS Attribute at byte position {position:#x} should not belong to an Attribute List, but it does
diff --git a/src/index.rs b/src/index.rs
index 02e0ff3..003d647 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -15,7 +15,7 @@ use crate::index_entry::{
 };
 use crate::indexes::NtfsIndexEntryType;
 use crate::structured_values::{NtfsIndexAllocation, NtfsIndexRoot};
-use crate::types::NtfsPosition;
+use crate::types::{NtfsPosition, Vcn};
 
 /// Helper structure to iterate over all entries of an index or find a specific one.
 ///
@@ -90,6 +90,18 @@ where
     pub fn finder<'i>(&'i self) -> NtfsIndexFinder<'n, 'f, 'i, E> {
         NtfsIndexFinder::new(self)
     }
+
+    /// Ensures that a subnode is not one of its own parents, because descending would never end then.
+    fn validate_subnode(&self, parent_vcns: &[Vcn], subnode_vcn: Vcn) -> Result<()> {
+        if parent_vcns.contains(&subnode_vcn) {
+            return Err(NtfsError::RecursiveIndexSubnode {
+                position: self.index_root_position,
+                vcn: subnode_vcn,
+            });
+        }
+
+        Ok(())
+    }
 }
 
 /// Iterator over
@@ -106,6 +118,8 @@ where
     index: &'i NtfsIndex<'n, 'f, E>,
     inner_iterators: Vec<IndexNodeEntryRanges<E>>,
     following_entries: Vec<Option<IndexEntryRange<E>>>,
+    /// VCNs of the subnodes in `inner_iterators` (i.e. of all nodes but the Index Root).
+    subnode_vcns: Vec<Vcn>,
 }
 
 impl<'n, 'f, 'i, E> NtfsIndexEntries<'n, 'f, 'i, E>
@@ -115,11 +129,13 @@ where
     fn new(index: &'i NtfsIndex<'n, 'f, E>) -> Self {
         let inner_iterators = vec![index.index_root_entry_ranges.clone()];
         let following_entries = Vec::new();
+        let subnode_vcns = Vec::new();
 
         Self {
             index,
             inner_iterators,
             following_entries,
+            subnode_vcns,
         }
     }
 
@@ -161,6 +177,7 @@ where
                 // Does this entry have a subnode that needs to be iterated first?
                 if let Some(subnode_vcn) = entry.subnode_vcn() {
                     let subnode_vcn = iter_try!(subnode_vcn);
+                    iter_try!(self.index.validate_subnode(&self.subnode_vcns, subnode_vcn));
 
                     // Read the subnode from the filesystem and get an iterator for it.
                     let index_allocation_item =
@@ -194,6 +211,7 @@ where
                     // We'll pick up the iterator through `self.inner_iterators.last_mut()` in the next loop iteration.
                     self.inner_iterators.push(subnode_iter);
                     self.following_entries.push(following_entry);
+                    self.subnode_vcns.push(subnode_vcn);
                 } else if !is_last_entry {
                     // There is no subnode, and this is not the empty "last entry",
                     // so our entry comes next lexicographically.
@@ -203,6 +221,7 @@ where
                 // The iterator for this subnode level has been fully iterated.
                 // Drop it.
                 self.inner_iterators.pop();
+                self.subnode_vcns.pop();
 
                 // The entry, whose subnode we just fully iterated, may have been saved in `following_entries`.
                 // This depends on its `is_last_entry` flag:
@@ -263,6 +282,7 @@ where
     {
         // Always (re)start by iterating through the Index Root entry ranges.
         self.inner_iterator = self.index.index_root_entry_ranges.clone();
+        let mut subnode_vcns = Vec::new();
 
         loop {
             // Get the next entry.
@@ -300,6 +320,9 @@ where
             // it comes lexicographically AFTER what we're looking for.
             // In both cases, we have to continue iterating in the subnode of this entry (if there is any).
             let subnode_vcn = iter_try!(entry.subnode_vcn()?);
+            iter_try!(self.index.validate_subnode(&subnode_vcns, subnode_vcn));
+            subnode_vcns.push(subnode_vcn);
+
             let index_allocation_item = iter_try!(self.index.index_allocation_item.as_ref().ok_or(
                 NtfsError::MissingIndexAllocation {
                     position: self.index.index_root_position,
-- 
2.43.0


From d24f306954f474612e1b50afc728922326112ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 30/31] fix: report the sizes of a file name with an invalid
 length the right way round

---
 src/structured_values/file_name.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/structured_values/file_name.rs b/src/structured_values/file_name.rs
index a10024b..6548db7 100644
--- a/src/structured_values/file_name.rs
+++ b/src/structured_values/file_name.rs
@@ -248,8 +248,8 @@ impl NtfsFileName {
             return Err(NtfsError::InvalidStructuredValueSize {
                 position,
                 ty: NtfsAttributeType::FileName,
-                expected: data_size,
-                actual: total_size,
+                expected: total_size,
+                actual: data_size,
             });
         }
 
-- 
2.43.0


From 0395b411fdb67f9c2d570a7f43530e684fdf195a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:44 +0000
Subject: [PATCH 31/31] fix: report the position of the boot sector signature
 on disk instead of in memory

---
 src/boot_sector.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/boot_sector.rs b/src/boot_sector.rs
index 6128e43..7308194 100644
--- a/src/boot_sector.rs
+++ b/src/boot_sector.rs
@@ -4,7 +4,6 @@
 use core::ops::RangeInclusive;
 
 use binrw::BinRead;
-use memoffset::offset_of;
 
 use crate::error::{NtfsError, Result};
 use crate::types::{Lcn, NtfsPosition};
@@ -203,11 +202,15 @@ impl BootSector {
     }
 
     pub(crate) fn validate(&self) -> Result<()> {
+        /// Absolute byte position of the signature.
+        /// `offset_of!` would return the offset in memory, which doesn't need to match the offset on disk.
+        const SIGNATURE_POSITION: u64 = 510;
+
         // Validate the infamous [0x55, 0xAA] signature at the end of the boot sector.
         let expected_signature = &[0x55, 0xAA];
         if &self.signature != expected_signature {
             return Err(NtfsError::InvalidTwoByteSignature {
-                position: NtfsPosition::new(offset_of!(BootSector, signature) as u64),
+                position: NtfsPosition::new(SIGNATURE_POSITION),
                 expected: expected_signature,
                 actual: self.signature,
             });
-- 
2.43.0

