From 19e0bd1597bcde0bedfc80cb0b722088b8be014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 01/18] fix: report the size of the whole file while a visit
 continues

FileVisit::file_size and Traversal::file_size returned the filesize of the last
visited block instead of the total size of the file after the first step.
---
 src/file/reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..26e164b 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,12 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        let file_size = traversal.file_size;
+        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        // the size of the whole file is only known at the root, the filesize of any other block
+        // covers just the subtree
+        reader.file_size = file_size;
+        Ok(reader)
     }
 
     fn from_parts(
-- 
2.43.0


From 3186cac100360d02eb0fd349afdcd58bd729780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 02/18] fix: walk HAMT buckets following the root bucket or a
 directory

A bucket right after the root of the walk was reported with the Cid of the root,
and a bucket following an (empty) plain directory inside a HAMT sharded directory
panicked.
---
 src/walk.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..a8c4a8d 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -465,10 +465,7 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            BucketAtRoot | RootBucket | Bucket | Directory | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From 373e7dcb5303e9716d2417cac971d45b64f3dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 03/18] fix: read leaf blocks which do not define a filesize

---
 src/file/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 26e164b..48be9b3 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -135,13 +135,13 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let end = if inner.links.is_empty() {
+            let (end, file_size) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                (Ending::Chunk(offset + filesize), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
@@ -153,7 +153,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From cc1ffa47019e32dd38dc57155be09d064f5f30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 04/18] fix: do not overflow on untrusted file and block sizes

---
 src/file/reader.rs | 7 +++++--
 src/pb.rs          | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 48be9b3..4542da0 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -138,10 +138,13 @@ impl<'a> FileReader<'a> {
             let (end, file_size) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                (Ending::Chunk(offset + filesize), filesize)
+                (Ending::Chunk(offset.saturating_add(filesize)), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
+                    Some(filesize) => (
+                        Ending::TreeCoverage(offset.saturating_add(filesize)),
+                        filesize,
+                    ),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
diff --git a/src/pb.rs b/src/pb.rs
index 1206990..c180600 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -189,8 +189,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|(link, blocksize)| {
             let returned_base = self.base;
-            self.base += blocksize;
-            (link, returned_base..(returned_base + blocksize))
+            // the blocksizes are not trusted, the sum can overflow
+            self.base = returned_base.saturating_add(blocksize);
+            (link, returned_base..self.base)
         })
     }
 
-- 
2.43.0


From 6915ddc5740616d47139985f6467e5bddafb6dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 05/18] fix: limit the target range to the content of the block

---
 src/file/visit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..7c2898e 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,7 +273,9 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
-        &content[start..end]
+        // the range comes from the parent, the actual block could have less content
+        let end = min(end, content.len());
+        &content[min(start, end)..end]
     }
 }
 
-- 
2.43.0


From b4bc3e9c97d48b93920a7b3bc4e5f1f0768bfaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 06/18] fix: end the file visit when there are no links left to
 visit

---
 src/file/visit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 7c2898e..9d5c71c 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,8 +189,14 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
-                self.state = traversal;
-                Ok((&[][..], Some(self)))
+                if !self.pending.is_empty() {
+                    self.state = traversal;
+                    Ok((&[][..], Some(self)))
+                } else {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    Ok((&[][..], None))
+                }
             }
         }
     }
-- 
2.43.0


From 99e366f1024cc9edd32594cb007cb5dbdd0c7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/18] fix: return an error for unreadable blocks of a file
 while walking

---
 src/walk.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a8c4a8d..d3070b2 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -686,7 +686,9 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            // continuing a file visit parses the next block
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From 345142c19b7dd3487ab590bbc800dc4899b2dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 08/18] fix: do not panic on HAMT link names with a multibyte
 prefix

---
 src/dir/sharded_lookup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..4fe3321 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,8 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            // the prefix is not necessarily on a char boundary, in which case the name is not valid
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From 79df4df1b129b284a438c4cf0a54ad1a0c31a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:08 +0000
Subject: [PATCH 09/18] fix: wrap blocks which end in empty data

---
 src/dagpb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..4a449df 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,8 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        // an empty subslice can be right at the end
+        .filter(|start| *start <= max - amt)
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From dc7cc08667f724124d00d273c7ce4505a1d71e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 10/18] fix: return an error for directory links with unusable
 names

---
 src/walk.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index d3070b2..aaf2bc2 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,23 +28,28 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// The names become components of the path of the entry, which needs to stay below the root.
+fn is_valid_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains('/')
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        Some(Cow::Borrowed(s)) if is_valid_name(s) => s.to_owned(),
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
+        Some(Cow::Borrowed(s)) => return Err(Error::InvalidLinkName(nth, s.to_owned())),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, nested_depth))
 }
 
@@ -54,19 +59,21 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
         Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
+        Some(Cow::Borrowed(s)) => match s.get(2..) {
+            Some(name) if is_valid_name(name) => (nested_depth, name.to_owned()),
+            _ => return Err(Error::InvalidLinkName(nth, s.to_owned())),
+        },
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, depth))
 }
 
@@ -653,6 +660,10 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// dag-pb link of a directory at the given index has a name which cannot be used as a path
+    /// component
+    InvalidLinkName(usize, String),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -717,6 +728,7 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth, name) => write!(fmt, "link #{} has invalid name {:?}", nth, name),
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From 3ca11c58fe422e4fb004ecf4b75256018a561ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 11/18] fix: return an error for HAMT bucket links to other
 types

---
 src/walk.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index aaf2bc2..8be225f 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -160,7 +160,11 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        // only the links to sibling buckets have an empty name, excluding the root
+        let is_bucket = current.is_some() && matches!(next, Some((_, name, _)) if name.is_empty());
+
         match flat.data.Type {
+            ty if is_bucket && ty != UnixFsType::HAMTShard => Err(Error::UnexpectedType(ty.into())),
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
                 let (cid, name, depth) = next.take().expect("validated at new and earlier");
-- 
2.43.0


From 2fdcfa15b0df50b4c0e3854ae81be3eba66ccaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 12/18] fix: end the directory tree iteration after an error

---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..51086e0 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be created without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be created without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 5679d36fd1a16dd87337651fd9ba8468ad9bd868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 13/18] fix: allow setting metadata of the single root
 directory after adding entries

---
 src/dir/builder/buffered.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..31cd64d 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -121,8 +121,12 @@ impl BufferingTreeBuilder {
                 _ => {}
             }
 
-            // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            // our first level can be full, depending on the options given; the single entry itself
+            // can still be modified
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From 38dd702bdf3313566752260cd11fbfe05650bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 14/18] fix: include the metadata set for a directory in its
 block

---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 51086e0..21a9bb8 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -58,9 +59,11 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
+        metadata: Metadata,
     },
 }
 
@@ -82,10 +85,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +110,11 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -188,7 +197,8 @@ impl PostOrderIterator {
                         leaves.into()
                     };
 
-                    self.pending.push(Visited::PostRoot { leaves });
+                    let metadata = node.metadata;
+                    self.pending.push(Visited::PostRoot { leaves, metadata });
                     self.pending.append(children);
                 }
                 Visited::Descent {
@@ -215,6 +225,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata: node.metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +235,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +243,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -271,7 +284,7 @@ impl PostOrderIterator {
                         block: &self.block_buffer,
                     }));
                 }
-                Visited::PostRoot { leaves } => {
+                Visited::PostRoot { leaves, metadata } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
 
                     if !self.opts.wrap_with_directory {
@@ -282,6 +295,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0


From c28c94ae202df75f30c79d6034a69dc4912093a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 15/18] fix: walk from root names which are paths of more than
 one component

---
 src/walk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 8be225f..b00742e 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -80,8 +80,8 @@ fn convert_sharded_link(
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
-        // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        // this is 1 for an empty path; the name can as well be a path of many components
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From c86331d1cbb52bd16d402b3547129171d5f2c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 16/18] fix: do not overflow when summing the total sizes of
 links

---
 src/dir/builder/iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 21a9bb8..90bf032 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -162,11 +162,12 @@ impl PostOrderIterator {
                     .map(|NamedLeaf(_, _, total_size)| total_size)
                     .unwrap()
             })
-            .sum::<u64>();
+            // the sizes of the links are not trusted, the sum can overflow
+            .fold(0u64, |sum, total_size| sum.saturating_add(*total_size));
 
         Ok(Leaf {
             link: cid,
-            total_size: buffer.len() as u64 + combined_from_links,
+            total_size: combined_from_links.saturating_add(buffer.len() as u64),
         })
     }
 
-- 
2.43.0


From bffa69634d0f661b47dca56618049f7670f2ea13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 17/18] fix: refuse the branching factor of one, with which
 adding a file never ends

---
 src/file/adder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..c6f616a 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -423,8 +423,13 @@ impl From<BalancedCollector> for Collector {
 
 impl BalancedCollector {
     /// Configure Balanced collector with the given branching factor.
+    ///
+    /// # Panics
+    ///
+    /// With branching factors less than two, as no number of levels of nodes with a single link
+    /// would be enough to link two blocks together.
     pub fn with_branching_factor(branching_factor: usize) -> Self {
-        assert!(branching_factor > 0);
+        assert!(branching_factor > 1);
 
         Self {
             branching_factor,
-- 
2.43.0


From 406a05cc1c600e5401d320980a034b8e7b1f83ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 18/18] fix: do not allocate for the whole of a huge branching
 factor or chunk size

---
 src/file/adder.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index c6f616a..5ecca3b 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -179,8 +179,9 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. when a whole chunk would be too much to allocate, the buffer will grow
+                // by what is pushed.
+                let _ = self.block_buffer.try_reserve(self.size_hint());
             }
 
             self.block_buffer.extend_from_slice(accepted);
@@ -493,14 +494,14 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // there can be less links than the branching factor would allow
+        let most_links = self.branching_factor.min(pending.len());
+
+        if let Some(need) = most_links.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
-            .checked_sub(reused_blocksizes.capacity())
-        {
+        if let Some(need) = most_links.checked_sub(reused_blocksizes.capacity()) {
             reused_blocksizes.reserve(need);
         }
 
@@ -548,7 +549,9 @@ impl BalancedCollector {
                 let mut nested_size = 0;
                 let mut nested_total_size = 0;
 
-                let last = (first_at + self.branching_factor).min(pending.len());
+                let last = first_at
+                    .saturating_add(self.branching_factor)
+                    .min(pending.len());
 
                 for (index, link) in pending[first_at..last].iter().enumerate() {
                     assert_eq!(
-- 
2.43.0

