From 7c40ec136935aef0fbdd2f14138a5a6e075d8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 01/26] fix: read the ninth byte of a field relative to the
 field's first byte

---
 src/bytereader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytereader.rs b/src/bytereader.rs
index b8238e5..cace152 100644
--- a/src/bytereader.rs
+++ b/src/bytereader.rs
@@ -39,7 +39,7 @@ macro_rules! read_bytes {
             result >>= bit_offset;
 
             if num_bytes * 8 - bit_offset < $num_bits {
-                let temp = u64::from(unsafe { *data.add(byte_offset + num_bytes) });
+                let temp = u64::from(unsafe { *data.add(num_bytes) });
                 result |= temp << (num_bytes * 8 - bit_offset) % (num_bytes * 8);
             }
             result = masked!(result, $num_bits);
-- 
2.43.0


From aa7d209aa8e3ed8072bd79542c4c6d950f18e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 02/26] fix: write the ninth byte of a field relative to the
 field's first byte

---
 src/bytewriter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 5c50dfb..f73b2b1 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -63,7 +63,8 @@ macro_rules! write_bytes {
         // one byte might be missing
         let batched_bits_written = num_bytes!($offset, $num_bits) * 8 - bit_offset;
         if batched_bits_written < $num_bits {
-            let destination = &mut $data[num_bytes!($offset, $num_bits)] as *mut u8;
+            let destination =
+                &mut $data[$offset / 8 + num_bytes!($offset, $num_bits)] as *mut u8;
             value_to_store >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             value_mask >>= batched_bits_written % (num_bytes!($offset, $num_bits) * 8);
             unsafe {
-- 
2.43.0


From 2cb6e7e888b732a22b2162904afda71637d839d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 03/26] fix: never write bits of a too large unsigned value
 outside its field

---
 src/bytewriter.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index f73b2b1..4697c93 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -29,9 +29,7 @@ macro_rules! write_bytes {
         let bit_offset = $offset % 8;
 
         let mut value_to_store = $value as u64;
-        if <$T as $crate::helper::Int>::IS_SIGNED {
-            value_to_store = masked!(value_to_store, $num_bits);
-        }
+        value_to_store = masked!(value_to_store, $num_bits);
         let mut value_mask = masked!(u64::max_value(), $num_bits);
         let mut value: u64 = 0;
 
-- 
2.43.0


From 6bf15bbce5e9ea561869bb4ebba30cb8f0af1701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 04/26] fix: MultiArrayView::slice panics if the range starts
 after its end or the view's length

---
 src/multiarrayview.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index ddedab0..e036d85 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -85,6 +85,8 @@ where
             Bound::Excluded(&idx) => idx + 1,
             Bound::Unbounded => self.index.len(),
         };
+        // every view has at least the sentinel as an index entry
+        assert!(index_start < index_end, "slice start is outside of bounds");
         Self::new(self.index.slice(index_start..index_end), self.data)
     }
 
-- 
2.43.0


From b7e8b35ba52a0b6b3c16c90ea021e2125def3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 05/26] fix: iterators with an exact size report it in
 size_hint

---
 src/arrayview.rs      | 5 +++++
 src/multiarrayview.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index 4caa21c..e7be89f 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -226,6 +226,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> iter::ExactSizeIterator for ArrayViewIter<'a, T>
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index e036d85..6046860 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -242,6 +242,11 @@ where
             None
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.view.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, Idx, Ts: 'a> iter::DoubleEndedIterator for MultiArrayViewIter<'a, Idx, Ts>
-- 
2.43.0


From 036d1f7d3a111ef5df2267622ba192d00a57ed59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 06/26] fix: sub-directories of a memory storage share its data

---
 src/memstorage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index a48dc26..2b52d81 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -33,7 +33,7 @@ impl fmt::Debug for MemoryStorage {
 /// Resource storage in memory.
 #[derive(Debug)]
 pub struct MemoryResourceStorage {
-    storage: MemoryStorage,
+    storage: Rc<MemoryStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +45,7 @@ impl MemoryResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryStorage::default(),
+            storage: Rc::new(MemoryStorage::default()),
             path: path.into(),
         })
     }
@@ -55,7 +55,11 @@ impl Stream for Cursor<Vec<u8>> {}
 
 impl ResourceStorage for MemoryResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        // share the underlying streams, so that the data of nested archives is kept
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-- 
2.43.0


From 1ef93f522daa2a8770ba3e3bdacd1a455e66c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 07/26] fix: memory storage returns what was written last

---
 src/memstorage.rs | 57 ++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/memstorage.rs b/src/memstorage.rs
index 2b52d81..55a961c 100644
--- a/src/memstorage.rs
+++ b/src/memstorage.rs
@@ -15,8 +15,9 @@ type MemoryStorageStream = Rc<RefCell<Cursor<Vec<u8>>>>;
 struct MemoryStorage {
     // Streams of resources that were written.
     streams: RefCell<BTreeMap<PathBuf, MemoryStorageStream>>,
-    // Data of resources that were opened for reading.
-    resources: RefCell<BTreeMap<PathBuf, Rc<Vec<u8>>>>,
+    // Data of resources that were opened for reading. The last entry is the most recent one; older
+    // entries are never deleted, since they might be still in use.
+    resources: RefCell<BTreeMap<PathBuf, Vec<Rc<Vec<u8>>>>>,
 }
 
 impl fmt::Debug for MemoryStorage {
@@ -64,34 +65,31 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn exists(&self, resource_name: &str) -> bool {
         let resource_path = self.path.join(resource_name);
-        self.storage.resources.borrow().contains_key(&resource_path)
-            || self.storage.streams.borrow().contains_key(&resource_path)
+        self.storage.streams.borrow().contains_key(&resource_path)
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.storage.resources.borrow().contains_key(&resource_path) {
-            let streams = self.storage.streams.borrow();
-            let stream = streams.get(&resource_path);
-            match stream {
-                Some(stream) => {
-                    // Resource is not yet opened, but there is a stream it was written to
-                    // => copy the stream as resource data.
-                    let data = Rc::new(stream.borrow().get_ref().clone());
-                    self.storage
-                        .resources
-                        .borrow_mut()
-                        .insert(resource_path.clone(), data);
-                }
-                None => {
-                    return Err(io::Error::new(
-                        io::ErrorKind::NotFound,
-                        String::from(resource_path.to_str().unwrap_or(resource_name)),
-                    ));
-                }
-            }
+        let streams = self.storage.streams.borrow();
+        let stream = streams.get(&resource_path).ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::NotFound,
+                String::from(resource_path.to_str().unwrap_or(resource_name)),
+            )
+        })?;
+
+        let mut resources = self.storage.resources.borrow_mut();
+        let snapshots = resources.entry(resource_path).or_insert_with(Vec::new);
+        let stream = stream.borrow();
+        let is_up_to_date = snapshots
+            .last()
+            .map_or(false, |data| **data == *stream.get_ref());
+        if !is_up_to_date {
+            // Resource is not yet opened or was written to since then
+            // => copy the stream as resource data.
+            snapshots.push(Rc::new(stream.get_ref().clone()));
         }
-        let data = &self.storage.resources.borrow()[&resource_path];
+        let data = &snapshots[snapshots.len() - 1];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
@@ -100,13 +98,12 @@ impl ResourceStorage for MemoryResourceStorage {
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
         let resource_path = self.path.join(resource_name);
-        let stream = self
-            .storage
+        // always start with an empty resource, even if it was written before
+        let stream = Rc::new(RefCell::new(Cursor::new(Vec::new())));
+        self.storage
             .streams
             .borrow_mut()
-            .entry(resource_path)
-            .or_insert_with(|| Rc::new(RefCell::new(Cursor::new(Vec::new()))))
-            .clone();
+            .insert(resource_path, stream.clone());
         Ok(stream)
     }
 }
-- 
2.43.0


From e5a362893c728f143b4ce1e28482ae0ab0c5072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 08/26] fix: file storage returns what was written last and
 keeps data already read intact

---
 src/filestorage.rs | 46 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 971cc93..bef42f8 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -6,7 +6,7 @@ use std::cell::RefCell;
 use std::collections::BTreeMap;
 use std::fs::{self, File};
 use std::io;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
@@ -14,14 +14,25 @@ use std::slice;
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
     maps: RefCell<BTreeMap<String, Mmap>>,
+    // Maps of files which were replaced or changed in size since then. They are never deleted,
+    // since their data might be still in use.
+    retired_maps: RefCell<Vec<Mmap>>,
 }
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        if !self.maps.borrow().contains_key(path) {
+        let len = fs::metadata(path)?.len();
+        let is_up_to_date = self
+            .maps
+            .borrow()
+            .get(path)
+            .map_or(false, |map| map.len() as u64 == len);
+        if !is_up_to_date {
             let file = File::open(path)?;
             let file_mmap = unsafe { Mmap::map(&file)? };
-            self.maps.borrow_mut().insert(path.into(), file_mmap);
+            if let Some(old) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+                self.retired_maps.borrow_mut().push(old);
+            }
         }
         let data = &self.maps.borrow()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
@@ -29,6 +40,25 @@ impl MemoryMappedFileStorage {
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
         Ok(&extended_lifetime_data)
     }
+
+    /// Prepares writing of the file anew, without changing the data which was
+    /// already read from it.
+    pub fn detach(&self, path: &Path) -> io::Result<()> {
+        if let Some(map) = path.to_str().and_then(|p| self.maps.borrow_mut().remove(p)) {
+            self.retired_maps.borrow_mut().push(map);
+        }
+        // Truncating the file would invalidate the existing maps of it
+        match fs::remove_file(path) {
+            Err(e) => {
+                if e.kind() == io::ErrorKind::NotFound {
+                    Ok(())
+                } else {
+                    Err(e)
+                }
+            }
+            Ok(()) => Ok(()),
+        }
+    }
 }
 
 impl Stream for File {}
@@ -36,7 +66,7 @@ impl Stream for File {}
 /// Resource storage on disk using memory mapped files.
 #[derive(Debug)]
 pub struct FileResourceStorage {
-    storage: MemoryMappedFileStorage,
+    storage: Rc<MemoryMappedFileStorage>,
     path: PathBuf,
 }
 
@@ -45,7 +75,7 @@ impl FileResourceStorage {
     #[allow(clippy::new_ret_no_self)]
     pub fn new<P: Into<PathBuf>>(path: P) -> Rc<Self> {
         Rc::new(Self {
-            storage: MemoryMappedFileStorage::default(),
+            storage: Rc::new(MemoryMappedFileStorage::default()),
             path: path.into(),
         })
     }
@@ -53,7 +83,10 @@ impl FileResourceStorage {
 
 impl ResourceStorage for FileResourceStorage {
     fn subdir(&self, dir: &str) -> Rc<ResourceStorage> {
-        Self::new(self.path.join(dir))
+        Rc::new(Self {
+            storage: self.storage.clone(),
+            path: self.path.join(dir),
+        })
     }
 
     fn exists(&self, resource_name: &str) -> bool {
@@ -83,6 +116,7 @@ impl ResourceStorage for FileResourceStorage {
             fs::create_dir_all(self.path.clone())?;
         }
         let resource_path = self.path.join(resource_name);
+        self.storage.detach(&resource_path)?;
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
     }
-- 
2.43.0


From 456f6462dd18acefb4004965c11456b7d7c0de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:42 +0000
Subject: [PATCH 09/26] fix: empty files, e.g. empty schemas, can be read from
 file storage

---
 src/filestorage.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index bef42f8..88956f0 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -22,6 +22,10 @@ struct MemoryMappedFileStorage {
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
         let len = fs::metadata(path)?.len();
+        if len == 0 {
+            // Empty files cannot be mapped
+            return Ok(&[]);
+        }
         let is_up_to_date = self
             .maps
             .borrow()
@@ -49,14 +53,8 @@ impl MemoryMappedFileStorage {
         }
         // Truncating the file would invalidate the existing maps of it
         match fs::remove_file(path) {
-            Err(e) => {
-                if e.kind() == io::ErrorKind::NotFound {
-                    Ok(())
-                } else {
-                    Err(e)
-                }
-            }
-            Ok(()) => Ok(()),
+            Err(ref e) if e.kind() == io::ErrorKind::NotFound => Ok(()),
+            result => result,
         }
     }
 }
-- 
2.43.0


From d4be14d019fdde914856ccba55b23ce2bfc04564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 10/26] fix: file storage creates the directories of
 slash-separated resource names

---
 src/filestorage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 88956f0..d2600cd 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -110,10 +110,12 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn create_output_stream(&self, resource_name: &str) -> Result<Rc<RefCell<Stream>>, io::Error> {
-        if !self.path.exists() {
-            fs::create_dir_all(self.path.clone())?;
-        }
         let resource_path = self.path.join(resource_name);
+        // the resource name itself may contain slashes
+        let resource_dir = resource_path.parent().unwrap_or(&self.path);
+        if !resource_dir.exists() {
+            fs::create_dir_all(resource_dir)?;
+        }
         self.storage.detach(&resource_path)?;
         let file = File::create(resource_path)?;
         Ok(Rc::new(RefCell::new(file)))
-- 
2.43.0


From ca47a1939b102759abd3ca63bca43ae26ef3e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 11/26] fix: checking a resource's size does not overflow

---
 src/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index bda364f..b9ad6f9 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -108,7 +108,7 @@ pub trait ResourceStorage {
         }
 
         let size = read_bytes!(SizeType, data.as_ptr()) as usize;
-        if size + mem::size_of::<SizeType>() + PADDING_SIZE != data.len() {
+        if size != data.len() - mem::size_of::<SizeType>() - PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
         }
 
-- 
2.43.0


From a7accaf19db375320e4901d2a54ee9e24a36787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 12/26] fix: an incompletely written resource is never read as
 an empty one

---
 src/storage.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b9ad6f9..550ccac 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -283,10 +283,10 @@ impl<'a> ResourceHandle<'a> {
         stream: Rc<RefCell<Stream>>,
     ) -> io::Result<Self> {
         // Reserve space for size in the beginning of the stream, which will be updated
-        // later.
+        // later. Until then the size is invalid, so that an incomplete resource cannot be read.
         {
             let mut mut_stream = stream.borrow_mut();
-            write_size(0u64, mut_stream.deref_mut())?;
+            write_size(SizeType::max_value(), mut_stream.deref_mut())?;
         }
         Ok(Self {
             stream: Some(stream),
-- 
2.43.0


From 94c71eaf94e524b208f9e9151546978d600d7828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 13/26] fix: I/O errors on creating or closing a writer are
 returned, and do not panic on drop

---
 src/multivector.rs | 17 +++++++++++++----
 src/storage.rs     | 40 ++++++++++++++++++++++++++++------------
 src/vector.rs      | 16 +++++++++++++---
 3 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e0f576e..e7f2d1a 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -198,10 +198,19 @@ where
     /// A multivector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<MultiArrayView<'a, Idx, Ts>, ResourceStorageError> {
         let name: String = self.data_handle.name().into();
-        let into_storage_error = |e| ResourceStorageError::from_io_error(e, name.clone());
-        self.add_to_index().map_err(into_storage_error)?; // sentinel for last item
-        self.flush().map_err(into_storage_error)?;
-        let index_view = self.index.close()?;
+        // sentinel for last item
+        if let Err(e) = self.add_to_index().and_then(|_| self.flush()) {
+            self.index.abandon();
+            self.data_handle.abandon();
+            return Err(ResourceStorageError::from_io_error(e, name));
+        }
+        let index_view = match self.index.close() {
+            Ok(index_view) => index_view,
+            Err(e) => {
+                self.data_handle.abandon();
+                return Err(e);
+            }
+        };
         let data = self.data_handle.close()?;
         Ok(MultiArrayView::new(index_view, data))
     }
diff --git a/src/storage.rs b/src/storage.rs
index 550ccac..43b1eed 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -172,17 +172,25 @@ where
     // create index
     let index_name = format!("{}_index", resource_name);
     let index_schema = format!("index({})", schema);
-    let index = create_external_vector(storage, &index_name, &index_schema)?;
+    let mut index = create_external_vector(storage, &index_name, &index_schema)?;
 
-    // write schema
-    let schema_name = format!("{}.schema", resource_name);
-    let stream = storage.create_output_stream(&schema_name)?;
-    stream.borrow_mut().write_all(schema.as_bytes())?;
-
-    // create multi vector
-    let data_writer = storage.create_output_stream(resource_name)?;
-    let handle =
-        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
+    let create_handle = || {
+        // write schema
+        let schema_name = format!("{}.schema", resource_name);
+        let stream = storage.create_output_stream(&schema_name)?;
+        stream.borrow_mut().write_all(schema.as_bytes())?;
+
+        // create multi vector
+        let data_writer = storage.create_output_stream(resource_name)?;
+        ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)
+    };
+    let handle = match create_handle() {
+        Ok(handle) => handle,
+        Err(e) => {
+            index.abandon();
+            return Err(e);
+        }
+    };
     Ok(MultiVector::new(index, handle))
 }
 
@@ -323,7 +331,8 @@ impl<'a> ResourceHandle<'a> {
             let resource_name = self.name.clone();
             let into_storage_error =
                 |e| ResourceStorageError::from_io_error(e, resource_name.clone());
-            let stream = self.stream.as_ref().ok_or_else(|| {
+            // The handle is closed from now on, even if finalizing the resource fails.
+            let stream = self.stream.take().ok_or_else(|| {
                 into_storage_error(io::Error::new(
                     io::ErrorKind::UnexpectedEof,
                     "stream closed",
@@ -340,7 +349,6 @@ impl<'a> ResourceHandle<'a> {
             write_size(self.size_in_bytes as u64, mut_stream.deref_mut())
                 .map_err(into_storage_error)?;
         }
-        self.stream = None;
         // return underlying memory descriptor to the written data
         self.storage.read(&self.name, &self.schema)
     }
@@ -348,6 +356,14 @@ impl<'a> ResourceHandle<'a> {
     pub fn name(&self) -> &str {
         &self.name
     }
+
+    /// Gives up on writing the resource, e.g. after an error, without
+    /// finalizing it.
+    ///
+    /// The resource stays incomplete and can not be read.
+    pub(crate) fn abandon(&mut self) {
+        self.stream = None;
+    }
 }
 
 impl<'a> Drop for ResourceHandle<'a> {
diff --git a/src/vector.rs b/src/vector.rs
index 3300250..b33e6e9 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -334,13 +334,23 @@ where
     ///
     /// An external vector *must* be closed, otherwise it will panic on drop
     pub fn close(mut self) -> Result<ArrayView<'a, T>, ResourceStorageError> {
-        self.flush().map_err(|e| {
-            ResourceStorageError::from_io_error(e, self.resource_handle.name().into())
-        })?;
+        if let Err(e) = self.flush() {
+            self.abandon();
+            return Err(ResourceStorageError::from_io_error(
+                e,
+                self.resource_handle.name().into(),
+            ));
+        }
         self.resource_handle
             .close()
             .map(|data| ArrayView::new(data))
     }
+
+    /// Gives up on writing the vector, e.g. after an error, without finalizing
+    /// it.
+    pub(crate) fn abandon(&mut self) {
+        self.resource_handle.abandon();
+    }
 }
 
 impl<T> fmt::Debug for ExternalVector<'_, T>
-- 
2.43.0


From 26cf7bb8e15f65e5038cfd60e6d5830cb83abdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:06 +0000
Subject: [PATCH 14/26] fix: Vector::at and at_mut panic if the index is out of
 bounds

---
 src/vector.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vector.rs b/src/vector.rs
index b33e6e9..cb0585a 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -141,15 +141,25 @@ where
 
     /// Return an accessor handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at(&self, index: usize) -> <T as Struct>::Item {
+        assert!(index < self.len(), "index out of bounds");
         T::create(&self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
     /// Return a mutable handle to the element at position `index` in the
     /// vector.
+    ///
+    /// # Panics
+    ///
+    /// Panics if index is greater than or equal to `Vector::len()`.
     #[inline]
     pub fn at_mut(&mut self, index: usize) -> <T as Struct>::ItemMut {
+        assert!(index < self.len(), "index out of bounds");
         T::create_mut(&mut self.data[index * <T as Struct>::SIZE_IN_BYTES..])
     }
 
-- 
2.43.0


From 2f13f714949fdc098bd5b0ecf9f6ffcdd16380d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 15/26] fix: an archive with a too small struct resource is not
 opened

---
 src/archive.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/archive.rs b/src/archive.rs
index de87727..a32ad3c 100644
--- a/src/archive.rs
+++ b/src/archive.rs
@@ -488,11 +488,16 @@ macro_rules! define_archive {
                 storage: &$crate::ResourceStorage,
                 name: &str,
                 schema: &str,
+                min_size_in_bytes: usize,
             ) -> Result<R, $crate::ResourceStorageError>
             where
                 R: From<$crate::MemoryDescriptor>,
             {
-                storage.read(name, schema).map(|x|R::from($crate::MemoryDescriptor::new(&x)))
+                let data = storage.read(name, schema)?;
+                if data.len() < min_size_in_bytes {
+                    return Err($crate::ResourceStorageError::UnexpectedDataSize);
+                }
+                Ok(R::from($crate::MemoryDescriptor::new(&data)))
             }
 
             $(pub fn $struct_resource(&self) -> opt!(
@@ -601,7 +606,8 @@ macro_rules! define_archive {
                         Self::read_resource(
                             &*storage,
                             stringify!($struct_resource),
-                            $struct_schema
+                            $struct_schema,
+                            <$struct_type as $crate::Struct>::SIZE_IN_BYTES
                         ), $is_optional_struct);
                     )*
 
@@ -609,27 +615,31 @@ macro_rules! define_archive {
                         Self::read_resource(
                             &*storage,
                             stringify!($vector_resource),
-                            $element_schema), $is_optional_vector);
+                            $element_schema,
+                            0), $is_optional_vector);
                     )*
 
                     $($multivector_resource_index = check_resource!(
                         Self::read_resource(
                             &*storage,
                             stringify!($multivector_resource_index),
-                            &format!("index({})", $variadic_type_schema)),
+                            &format!("index({})", $variadic_type_schema),
+                            0),
                         $is_optional_multivector);
                     $multivector_resource = check_resource!(
                         Self::read_resource(
                             &*storage,
                             stringify!($multivector_resource),
-                            $variadic_type_schema), $is_optional_multivector);
+                            $variadic_type_schema,
+                            0), $is_optional_multivector);
                     )*
 
                     $($raw_data_resource = check_resource!(
                         Self::read_resource(
                             &*storage,
                             stringify!($raw_data_resource),
-                            $raw_data_schema), $is_optional_raw_data);
+                            $raw_data_schema,
+                            0), $is_optional_raw_data);
                     )*
                 }
                 $(
-- 
2.43.0


From 0f9e18b777539855bc546d63b573f5fb81589dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:35 +0000
Subject: [PATCH 16/26] fix: out of bounds indexes and ranges of views panic in
 release builds too

---
 src/arrayview.rs      | 15 +++++++++++----
 src/multiarrayview.rs | 15 +++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/arrayview.rs b/src/arrayview.rs
index e7be89f..50c62f2 100644
--- a/src/arrayview.rs
+++ b/src/arrayview.rs
@@ -89,8 +89,8 @@ where
     ///
     /// Panics if index is greater than or equal to `ArrayView::len()`.
     pub fn at(&self, index: usize) -> <T as Struct<'a>>::Item {
+        assert!(index < self.len(), "index out of bounds");
         let index = self.data_index(index);
-        assert!(index + <T as Struct>::SIZE_IN_BYTES <= self.data.len());
         T::create(&self.data[index..])
     }
 
@@ -102,11 +102,11 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let data_start = match range.start_bound() {
             Bound::Included(&idx) => self.data_index(idx),
-            Bound::Excluded(&idx) => self.data_index(idx + 1),
+            Bound::Excluded(&idx) => self.data_index(next_index(idx)),
             Bound::Unbounded => 0,
         };
         let data_end = match range.end_bound() {
-            Bound::Included(&idx) => self.data_index(idx + 1),
+            Bound::Included(&idx) => self.data_index(next_index(idx)),
             Bound::Excluded(&idx) => self.data_index(idx),
             Bound::Unbounded => self.data.len(),
         };
@@ -124,10 +124,17 @@ where
     }
 
     fn data_index(&self, index: usize) -> usize {
-        index * <T as Struct>::SIZE_IN_BYTES
+        index
+            .checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .expect("index out of bounds")
     }
 }
 
+/// Next index; also in release builds, out of bounds indexes do not wrap around.
+pub(crate) fn next_index(index: usize) -> usize {
+    index.checked_add(1).expect("index out of bounds")
+}
+
 impl<'a, T> From<&'a Vector<T>> for ArrayView<'a, T>
 where
     T: for<'b> Struct<'b>,
diff --git a/src/multiarrayview.rs b/src/multiarrayview.rs
index 6046860..c0b79db 100644
--- a/src/multiarrayview.rs
+++ b/src/multiarrayview.rs
@@ -1,5 +1,5 @@
 use crate::archive::{IndexStruct, VariadicRef, VariadicStruct};
-use crate::arrayview::ArrayView;
+use crate::arrayview::{next_index, ArrayView};
 
 use std::fmt;
 use std::iter;
@@ -45,7 +45,10 @@ where
     /// the array. An item may be also empty.
     pub fn len(&self) -> usize {
         // last index element is a sentinel
-        self.index.len() - 1
+        self.index
+            .len()
+            .checked_sub(1)
+            .expect("index without sentinel")
     }
 
     /// Returns `true` if no item is stored in the array.
@@ -61,7 +64,7 @@ where
     /// Panics if index is greater than or equal to `MultiArrayView::len()`.
     pub fn at(&self, index: usize) -> MultiArrayViewItemIter<'a, Ts> {
         let start = <Idx as IndexStruct>::index(self.index.at(index));
-        let end = <Idx as IndexStruct>::index(self.index.at(index + 1));
+        let end = <Idx as IndexStruct>::index(self.index.at(next_index(index)));
         MultiArrayViewItemIter {
             data: &self.data[start..end],
             _phantom: marker::PhantomData,
@@ -76,13 +79,13 @@ where
     pub fn slice<R: RangeBounds<usize>>(&self, range: R) -> Self {
         let index_start = match range.start_bound() {
             Bound::Included(&idx) => idx,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Excluded(&idx) => next_index(idx),
             Bound::Unbounded => 0,
         };
         // include one more element (sentinel)
         let index_end = match range.end_bound() {
-            Bound::Included(&idx) => idx + 2,
-            Bound::Excluded(&idx) => idx + 1,
+            Bound::Included(&idx) => next_index(next_index(idx)),
+            Bound::Excluded(&idx) => next_index(idx),
             Bound::Unbounded => self.index.len(),
         };
         // every view has at least the sentinel as an index entry
-- 
2.43.0


From fdec29e85ee7f1957b31e739e3e4bbf4942700fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 17/26] fix: too large vector lengths do not wrap around in
 release builds

---
 src/vector.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vector.rs b/src/vector.rs
index cb0585a..e9780e5 100644
--- a/src/vector.rs
+++ b/src/vector.rs
@@ -113,7 +113,8 @@ where
     /// if capacity is already sufficient.
     #[inline]
     pub fn reserve(&mut self, additional: usize) {
-        let additional_bytes = Self::calc_size(self.len() + additional) - self.size_in_bytes();
+        let new_len = self.len().checked_add(additional).expect("capacity overflow");
+        let additional_bytes = Self::calc_size(new_len) - self.size_in_bytes();
         self.data.reserve(additional_bytes)
     }
 
@@ -167,7 +168,9 @@ where
     /// elements.
     #[inline]
     fn calc_size(len: usize) -> usize {
-        len * <T as Struct>::SIZE_IN_BYTES + memory::PADDING_SIZE
+        len.checked_mul(<T as Struct>::SIZE_IN_BYTES)
+            .and_then(|size| size.checked_add(memory::PADDING_SIZE))
+            .expect("capacity overflow")
     }
 }
 
-- 
2.43.0


From 0e771a03a39f639c450de5d7cdc29d96086ab07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 18/26] fix: a multivector whose offsets do not fit into its
 index type reports an error

---
 src/multivector.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index e7f2d1a..1b3ff70 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -3,6 +3,7 @@ use crate::error::ResourceStorageError;
 use crate::memory;
 use crate::multiarrayview::MultiArrayView;
 use crate::storage::ResourceHandle;
+use crate::structbuf::StructBuf;
 use crate::vector::ExternalVector;
 
 use std::borrow::BorrowMut;
@@ -128,8 +129,13 @@ use std::marker;
 /// [`ExternalVector`]: struct.ExternalVector.html
 /// [`Vector`]: struct.Vector.html
 /// [`MultiArrayView`]: struct.MultiArrayView.html
-pub struct MultiVector<'a, Idx, Ts> {
+pub struct MultiVector<'a, Idx, Ts>
+where
+    Idx: for<'b> IndexStruct<'b>,
+{
     index: ExternalVector<'a, Idx>,
+    // used for checking that offsets fit into the index type
+    offset_probe: StructBuf<Idx>,
     data: Vec<u8>,
     data_handle: ResourceHandle<'a>,
     size_flushed: usize,
@@ -145,6 +151,7 @@ where
     pub fn new(index: ExternalVector<'a, Idx>, data_handle: ResourceHandle<'a>) -> Self {
         Self {
             index,
+            offset_probe: StructBuf::new(),
             data: vec![0; memory::PADDING_SIZE],
             data_handle,
             size_flushed: 0,
@@ -184,11 +191,16 @@ where
     }
 
     fn add_to_index(&mut self) -> io::Result<()> {
+        let offset = self.size_flushed + self.data.len() - memory::PADDING_SIZE;
+        <Idx as IndexStruct>::set_index(self.offset_probe.get_mut(), offset);
+        if <Idx as IndexStruct>::index(self.offset_probe.get()) != offset {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "offset does not fit into the index type of the multivector",
+            ));
+        }
         let idx_mut = self.index.grow()?;
-        <Idx as IndexStruct>::set_index(
-            idx_mut,
-            self.size_flushed + self.data.len() - memory::PADDING_SIZE,
-        );
+        <Idx as IndexStruct>::set_index(idx_mut, offset);
         Ok(())
     }
 
-- 
2.43.0


From b8014bd72c56da051c40dde102469ebfe5dcf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 19/26] fix: the debug text of a multivector is available for
 generated types

---
 src/multivector.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multivector.rs b/src/multivector.rs
index 1b3ff70..27c25bf 100644
--- a/src/multivector.rs
+++ b/src/multivector.rs
@@ -1,4 +1,4 @@
-use crate::archive::{IndexStruct, VariadicRef, VariadicStruct};
+use crate::archive::{IndexStruct, VariadicStruct};
 use crate::error::ResourceStorageError;
 use crate::memory;
 use crate::multiarrayview::MultiArrayView;
@@ -228,7 +228,7 @@ where
     }
 }
 
-impl<'a, Idx, Ts: VariadicRef> fmt::Debug for MultiVector<'a, Idx, Ts>
+impl<'a, Idx, Ts> fmt::Debug for MultiVector<'a, Idx, Ts>
 where
     Idx: for<'b> IndexStruct<'b>,
     Ts: for<'b> VariadicStruct<'b>,
-- 
2.43.0


From 69f4c00cc8cb32a90540eee179426f71d857615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 20/26] fix: directories are not resources of a file storage

---
 src/filestorage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index d2600cd..90659ea 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -88,12 +88,13 @@ impl ResourceStorage for FileResourceStorage {
     }
 
     fn exists(&self, resource_name: &str) -> bool {
-        self.path.join(resource_name).exists()
+        // directories are no resources
+        self.path.join(resource_name).is_file()
     }
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !resource_path.exists() {
+        if !self.exists(resource_name) {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
-- 
2.43.0


From a7362296c21d210e5f2f5979368b1a66272df91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:21 +0000
Subject: [PATCH 21/26] fix: report why a resource cannot be examined

A resource in a directory that must not be searched was reported as not
found.
---
 src/filestorage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 90659ea..3659001 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -94,7 +94,13 @@ impl ResourceStorage for FileResourceStorage {
 
     fn read_resource(&self, resource_name: &str) -> Result<&[u8], io::Error> {
         let resource_path = self.path.join(resource_name);
-        if !self.exists(resource_name) {
+        let is_missing = match fs::metadata(&resource_path) {
+            Ok(metadata) => !metadata.is_file(),
+            Err(ref e) if e.kind() == io::ErrorKind::NotFound => true,
+            // might be there, but is not accessible
+            Err(e) => return Err(e),
+        };
+        if is_missing {
             return Err(io::Error::new(
                 io::ErrorKind::NotFound,
                 String::from(resource_path.to_str().unwrap_or(resource_name)),
-- 
2.43.0


From a0701f99e37f6243475c8118e46778b9122e3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:02 +0000
Subject: [PATCH 22/26] fix: write a whole value at the start of the data

The form of write_bytes! without offset and width passed its arguments on in a
form that no rule of the macro accepts, so that no use of it compiled.
---
 src/bytewriter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytewriter.rs b/src/bytewriter.rs
index 4697c93..547ed98 100644
--- a/src/bytewriter.rs
+++ b/src/bytewriter.rs
@@ -77,7 +77,7 @@ macro_rules! write_bytes {
         write_bytes!($T; $value, $data, $offset, ::std::mem::size_of::<$T>() * 8)
     };
     ($T:tt; $value:expr, $data:expr) => {
-        write_bytes!($T, $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
+        write_bytes!($T; $value, $data, 0, ::std::mem::size_of::<$T>() * 8)
     };
 }
 
-- 
2.43.0


From 4538e2476a361a15afd52d9164f62fdc156cf90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:06 +0000
Subject: [PATCH 23/26] fix: file storage returned the contents of a file after
 another one of the same length replaced it

---
 src/filestorage.rs | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/filestorage.rs b/src/filestorage.rs
index 3659001..794cae3 100644
--- a/src/filestorage.rs
+++ b/src/filestorage.rs
@@ -4,16 +4,35 @@ use memmap::Mmap;
 
 use std::cell::RefCell;
 use std::collections::BTreeMap;
-use std::fs::{self, File};
+use std::fs::{self, File, Metadata};
 use std::io;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::slice;
 
+/// Tells a file from another one by which it was replaced. As long as a file is mapped, its id
+/// is not given to another file.
+#[cfg(unix)]
+fn file_id(metadata: &Metadata) -> FileId {
+    use std::os::unix::fs::MetadataExt;
+    (metadata.dev(), metadata.ino())
+}
+
+#[cfg(unix)]
+type FileId = (u64, u64);
+
+#[cfg(not(unix))]
+fn file_id(metadata: &Metadata) -> FileId {
+    metadata.modified().ok()
+}
+
+#[cfg(not(unix))]
+type FileId = Option<std::time::SystemTime>;
+
 /// Internal storage of data as files.
 #[derive(Debug, Default)]
 struct MemoryMappedFileStorage {
-    maps: RefCell<BTreeMap<String, Mmap>>,
+    maps: RefCell<BTreeMap<String, (FileId, Mmap)>>,
     // Maps of files which were replaced or changed in size since then. They are never deleted,
     // since their data might be still in use.
     retired_maps: RefCell<Vec<Mmap>>,
@@ -21,24 +40,25 @@ struct MemoryMappedFileStorage {
 
 impl MemoryMappedFileStorage {
     pub fn read(&self, path: &str) -> Result<&[u8], io::Error> {
-        let len = fs::metadata(path)?.len();
+        let metadata = fs::metadata(path)?;
+        let len = metadata.len();
         if len == 0 {
             // Empty files cannot be mapped
             return Ok(&[]);
         }
-        let is_up_to_date = self
-            .maps
-            .borrow()
-            .get(path)
-            .map_or(false, |map| map.len() as u64 == len);
+        let is_up_to_date = self.maps.borrow().get(path).map_or(false, |(id, map)| {
+            map.len() as u64 == len && *id == file_id(&metadata)
+        });
         if !is_up_to_date {
             let file = File::open(path)?;
+            let id = file_id(&file.metadata()?);
             let file_mmap = unsafe { Mmap::map(&file)? };
-            if let Some(old) = self.maps.borrow_mut().insert(path.into(), file_mmap) {
+            let old = self.maps.borrow_mut().insert(path.into(), (id, file_mmap));
+            if let Some((_, old)) = old {
                 self.retired_maps.borrow_mut().push(old);
             }
         }
-        let data = &self.maps.borrow()[path];
+        let (_, data) = &self.maps.borrow()[path];
         // We cannot prove to Rust that the buffer will live as long as the storage
         // (we never delete mappings), so we need to manually extend lifetime
         let extended_lifetime_data = unsafe { slice::from_raw_parts(data.as_ptr(), data.len()) };
@@ -48,7 +68,8 @@ impl MemoryMappedFileStorage {
     /// Prepares writing of the file anew, without changing the data which was
     /// already read from it.
     pub fn detach(&self, path: &Path) -> io::Result<()> {
-        if let Some(map) = path.to_str().and_then(|p| self.maps.borrow_mut().remove(p)) {
+        let map = path.to_str().and_then(|p| self.maps.borrow_mut().remove(p));
+        if let Some((_, map)) = map {
             self.retired_maps.borrow_mut().push(map);
         }
         // Truncating the file would invalidate the existing maps of it
-- 
2.43.0


From 8aa43a5274dfcd895c82d0c2f7e0698e90919280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:35 +0000
Subject: [PATCH 24/26] fix: an archive whose signature could not be looked up
 was replaced by creating it again

---
 src/storage.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 43b1eed..aaa5aa1 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -218,6 +218,19 @@ pub fn create_archive<T: ArchiveBuilder>(
             ));
         }
     }
+    {
+        // an archive which cannot be looked up might exist as well
+        match storage.read_resource(&signature_name) {
+            Err(ref e) if e.kind() == io::ErrorKind::NotFound => (),
+            Err(e) => return Err(ResourceStorageError::from_io_error(e, signature_name)),
+            Ok(_) => {
+                return Err(ResourceStorageError::from_io_error(
+                    io::Error::new(io::ErrorKind::AlreadyExists, signature_name.clone()),
+                    signature_name,
+                ));
+            }
+        }
+    }
     {
         // write empty signature and schema
         storage
-- 
2.43.0


From d659b38de7597b8d50490ca626115019c6e09627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:13 +0000
Subject: [PATCH 25/26] fix: a vector whose writing was interrupted was read
 with the data of an earlier one of another schema

---
 src/storage.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index aaa5aa1..51c63b0 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -143,13 +143,15 @@ pub fn create_external_vector<'a, T>(
 where
     T: for<'b> Struct<'b>,
 {
+    // replace earlier data, which might not match the schema
+    let data_writer = storage.create_output_stream(resource_name)?;
+
     // write schema
     let schema_name = format!("{}.schema", resource_name);
     let stream = storage.create_output_stream(&schema_name)?;
     stream.borrow_mut().write_all(schema.as_bytes())?;
 
     // create external vector
-    let data_writer = storage.create_output_stream(resource_name)?;
     let handle =
         ResourceHandle::try_new(storage, resource_name.into(), schema.into(), data_writer)?;
     Ok(ExternalVector::new(handle))
-- 
2.43.0


From f19a73a0f8ce5e9fd56d36c9d9d87ea57052baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:27 +0000
Subject: [PATCH 26/26] fix: a vector written while it is opened was read with
 the data of an earlier one of another schema

---
 src/storage.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 51c63b0..6e20a98 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -94,14 +94,16 @@ pub trait ResourceStorage {
         resource_name: &str,
         expected_schema: &str,
     ) -> Result<&[u8], ResourceStorageError> {
+        // The schema is read first: it is written only after earlier data, which might not match
+        // it, was replaced.
+        let schema_name = format!("{}.schema", resource_name);
+        let schema = self.read_resource(&schema_name);
+
         let data = self
             .read_resource(resource_name)
             .map_err(|e| ResourceStorageError::from_io_error(e, resource_name.into()))?;
-
-        let schema_name = format!("{}.schema", resource_name);
-        let schema = self
-            .read_resource(&schema_name)
-            .map_err(|e| ResourceStorageError::from_io_error(e, resource_name.into()))?;
+        let schema =
+            schema.map_err(|e| ResourceStorageError::from_io_error(e, resource_name.into()))?;
 
         if data.len() < mem::size_of::<SizeType>() + PADDING_SIZE {
             return Err(ResourceStorageError::UnexpectedDataSize);
-- 
2.43.0

