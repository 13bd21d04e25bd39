From aaf0b00e2e73e78f3eba9d47ecb0e172431da19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/18] fix: walk: report unparseable file continuation blocks
 as errors

A later block of a multi-block file is parsed by the file visit, so the
Read case of FileReadFailed is reachable and must not panic.
---
 src/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..aff5f36 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -689,7 +689,8 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From bad0a37bd7cfa6f40e928b0a9c6e98350b2e032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/18] fix: walk: follow directories with HAMT buckets and
 report the bucket's own Cid

A sub-bucket can follow an (empty) directory entry of the same HAMT shard,
and the first bucket after the root shard was reported with the Cid of the
root.
---
 src/walk.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index aff5f36..16689f2 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -465,10 +465,13 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            RootDirectory
+            | BucketAtRoot
+            | RootBucket
+            | Bucket
+            | Directory
+            | File(None, _)
+            | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From eb24d928626b12e3f4b9c112a5e6a09c0a576895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 03/18] fix: walk: return an error for unusable link names
 instead of panicking

Empty names, names with slashes, HAMT names shorter than the prefix or split
inside a character hit todo!(), assert! or a slicing panic, and "." confused
the path bookkeeping of the entries following it.
---
 src/walk.rs | 47 ++++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 16689f2..a62b63e 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,24 +28,27 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// Names of the entries become single components of the reported paths. Empty names and names with
+/// slashes cannot be represented as such, and the "current directory" is normalized away.
+fn is_valid_entry_name(name: &str) -> bool {
+    !name.is_empty() && name != "." && !name.contains('/')
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
-    };
-    assert!(!name.contains('/'));
-    Ok((cid, name, nested_depth))
+    match link.Name.as_deref().unwrap_or_default() {
+        name if is_valid_entry_name(name) => Ok((cid, name.to_owned(), nested_depth)),
+        name => Err(Error::InvalidLinkName(nth, name.to_owned())),
+    }
 }
 
 /// Converts a link of specifically a HAMTShard (and not a link of a Directory).
@@ -54,20 +57,20 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
-    let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
-        Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
-        Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
-    };
-    assert!(!name.contains('/'));
-    Ok((cid, name, depth))
+    let prefixed = link.Name.as_deref().unwrap_or_default();
+    // the two character prefix comes from the only supported fanout (256)
+    match prefixed.get(2..) {
+        // just the prefix: link to a sibling bucket
+        Some("") => Ok((cid, String::new(), sibling_depth)),
+        Some(name) if is_valid_entry_name(name) => Ok((cid, name.to_owned(), nested_depth)),
+        _ => Err(Error::InvalidLinkName(nth, prefixed.to_owned())),
+    }
 }
 
 impl Walker {
@@ -659,6 +662,9 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// Directory or HAMTShard link at the index had a name which cannot be used for an entry
+    InvalidLinkName(usize, String),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -722,6 +728,9 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth, name) => {
+                write!(fmt, "link #{} has an invalid name: {:?}", nth, name)
+            }
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From 3e0cee8799e5b3f4c1d764970a45adf710501464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 04/18] fix: walk: return an error when a HAMT bucket link
 leads to another type

The nameless entry tripped the path bookkeeping assertions or was reported
under the path of the directory itself.
---
 src/walk.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a62b63e..92927bb 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -156,6 +156,13 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        if current.is_some() && flat.data.Type != UnixFsType::HAMTShard {
+            // all other links than the ones to the sibling buckets are named
+            if matches!(next, Some((_, name, _)) if name.is_empty()) {
+                return Err(Error::UnexpectedType(flat.data.Type.into()));
+            }
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
@@ -647,7 +654,8 @@ pub enum Error {
     /// unsupported.
     UnsupportedType(UnexpectedNodeType),
 
-    /// This error is returned when a file e.g. links to a non-Raw or non-File subtree.
+    /// This error is returned when a file e.g. links to a non-Raw or non-File subtree, or when a
+    /// HAMTShard links to something else than a HAMTShard as its sibling bucket.
     UnexpectedType(UnexpectedNodeType),
 
     /// dag-pb node parsing failed, perhaps the block is not a dag-pb node?
-- 
2.43.0


From 98bcb90f43e6ef42138e0380062082549206bce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 05/18] fix: walk: support root names with multiple path
 components

The depth bookkeeping assumed at most one component, which trips the debug
assertions on the first child entry.
---
 src/walk.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index 92927bb..6c04d82 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -76,8 +76,8 @@ fn convert_sharded_link(
 impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
-        // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        // 1 for an empty path, 2 for a single component
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From ab7f7d58dfd1d1bac883859ac5ebdbc10ec626eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 06/18] fix: dagpb: wrap blocks which end in an empty Data
 field

An empty slice at the very end of the block was not considered to be in
range, which made wrap_node_data panic.
---
 src/dagpb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..c000c0f 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,8 +50,8 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
-        .map(|start| start..(start + amt))
+        .and_then(|start| start.checked_add(amt).map(|end| start..end))
+        .filter(|range| range.end <= max)
 }
 
 /// The wrapper returned from [`wrap_node_data`], allows accessing dag-pb nodes Data.
-- 
2.43.0


From bdc31de673d97cf9793f379a24e071e93141c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 07/18] fix: dir: do not panic on HAMT link names split inside
 a character

---
 src/dir/sharded_lookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From 1a95cd80f07311ec22f463fd047fed233b1bf91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 08/18] fix: file: deny branching factors which never collapse
 to a root

With a branching factor of one every level has as many links as the previous
one, and finishing a file of two or more chunks never returned.
---
 src/file/adder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..1930129 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -423,8 +423,12 @@ impl From<BalancedCollector> for Collector {
 
 impl BalancedCollector {
     /// Configure Balanced collector with the given branching factor.
+    ///
+    /// # Panics
+    ///
+    /// When the branching factor is less than two, as such trees would never collapse to a root.
     pub fn with_branching_factor(branching_factor: usize) -> Self {
-        assert!(branching_factor > 0);
+        assert!(branching_factor > 1);
 
         Self {
             branching_factor,
-- 
2.43.0


From 265f8ae655fb1c449e8965673c6f431e60c904c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 09/18] fix: dir: allow modifying the single root entry of an
 unwrapped tree

set_metadata on the already existing root directory was rejected with
TooManyRootLevelEntries depending on the order of the operations.
---
 src/dir/builder/buffered.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..fd6b9d4 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -121,8 +121,12 @@ impl BufferingTreeBuilder {
                 _ => {}
             }
 
-            // our first level can be full, depending on the options given
-            let full = depth == 0 && !self.opts.wrap_with_directory && !dir_builder.is_empty();
+            // our first level can be full, depending on the options given; the single entry there
+            // can still be modified
+            let full = depth == 0
+                && !self.opts.wrap_with_directory
+                && !dir_builder.is_empty()
+                && !dir_builder.nodes.contains_key(next);
 
             if last {
                 let mut next_id = Some(*counter);
-- 
2.43.0


From a1c7c06093ecee28764c18265c81b84ef6007a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 10/18] fix: dir: end the post order iteration after an error

Continuing past a TooLargeBlock panicked at the parent directory, which is
missing the link of the failed child.
---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..ad2c8cd 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents can never be completed
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents can never be completed
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 49469afaab8bb33ec8f86651b739cbe52a6e6be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 11/18] fix: dir: store the metadata of directories in the
 built tree

BufferingTreeBuilder::set_metadata accepted and kept the metadata but it was
never serialized.
---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ad2c8cd..a2f3fb8 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -55,6 +56,7 @@ enum Visited {
         depth: usize,
         name: String,
         index: usize,
+        metadata: Metadata,
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
@@ -82,10 +84,11 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
-        use crate::pb::{UnixFs, UnixFsType};
+        use crate::pb::{unixfs::UnixTime, UnixFs, UnixFsType};
         use quick_protobuf::{BytesWriter, MessageWrite, Writer};
 
         // FIXME: ideas on how to turn this into a HAMT sharding on some heuristic. we probably
@@ -106,6 +109,12 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.mtime().map(|(seconds, nanos)| UnixTime {
+                    Seconds: seconds,
+                    // zero is the default when reading
+                    FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+                }),
                 ..Default::default()
             },
         };
@@ -200,6 +209,7 @@ impl PostOrderIterator {
                     let children = &mut self.reused_children;
                     let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
                     let any_children = !children.is_empty();
+                    let metadata = node.metadata;
                     let parent_id = node.parent_id.expect("only roots parent_id is None");
 
                     let leaves = if any_children {
@@ -215,6 +225,7 @@ impl PostOrderIterator {
                         depth,
                         leaves,
                         index,
+                        metadata,
                     });
 
                     self.pending.append(children);
@@ -224,6 +235,7 @@ impl PostOrderIterator {
                     name,
                     leaves,
                     index,
+                    metadata,
                     ..
                 } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
@@ -231,6 +243,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -282,6 +295,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &Metadata::default(),
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
-- 
2.43.0


From e97d132c93198c0b2752bd8e10f9fd243e005aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 12/18] fix: file: read leaf blocks which have no filesize

The field is optional and the content tells the size, but it was still
unconditionally unwrapped.
---
 src/file/reader.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..443a288 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,13 +130,13 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let end = if inner.links.is_empty() {
+            let (end, file_size) = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                (Ending::Chunk(offset + filesize), filesize)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
@@ -148,7 +148,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size,
             })
         }
     }
-- 
2.43.0


From c1cd29544baff4203b3ad5f13c4bc6436a5ce5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 13/18] fix: file: keep reporting the size of the whole file
 during a visit

FileVisit::file_size returned the size of the latest block after the first
continue_walk.
---
 src/file/reader.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 443a288..10a066e 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,13 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        // the total size is only known by the root
+        let file_size = traversal.file_size;
+        let reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        Ok(Self {
+            file_size,
+            ..reader
+        })
     }
 
     fn from_parts(
-- 
2.43.0


From 8f1059133da169db4393f0b7be204cf227b69bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 14/18] fix: file: require blocks to cover exactly the range
 they are linked with

Sizes in a block which disagreed with its content, with the sum of its links
or with the range in the linking block resulted in silently missing or
misplaced bytes, overflowing offsets, or an out of bounds slice panic when
reading a range.
---
 src/file/reader.rs | 48 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 10a066e..5e338c6 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -70,23 +70,33 @@ impl Ending {
     }
 }
 
+/// Checks that the content or the links of a block (`actual`, `None` when it cannot be represented)
+/// cover exactly the amount of bytes they were `declared` to.
+fn check_covered(declared: u64, actual: Option<u64>) -> Result<(), FileError> {
+    match actual {
+        Some(actual) if actual == declared => Ok(()),
+        Some(actual) if actual < declared => Err(FileError::TreeJumpsBetweenLinks),
+        _ => Err(FileError::TreeExpandsOnLinks),
+    }
+}
+
 impl<'a> FileReader<'a> {
     /// Method for starting the file traversal. `data` is the raw data from unixfs block.
     pub fn from_block(data: &'a [u8]) -> Result<Self, FileReadFailed> {
         let inner = FlatUnixFs::try_from(data)?;
         let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parts(inner, None, metadata)
     }
 
     pub(crate) fn from_parsed(inner: FlatUnixFs<'a>) -> Result<Self, FileReadFailed> {
         let metadata = Metadata::from(&inner.data);
-        Self::from_parts(inner, 0, metadata)
+        Self::from_parts(inner, None, metadata)
     }
 
     /// Called by Traversal to continue traversing a file tree traversal.
     fn from_continued(
         traversal: Traversal,
-        offset: u64,
+        tree_range: &Range<u64>,
         data: &'a [u8],
     ) -> Result<Self, FileReadFailed> {
         let inner = FlatUnixFs::try_from(data)?;
@@ -98,7 +108,7 @@ impl<'a> FileReader<'a> {
 
         // the total size is only known by the root
         let file_size = traversal.file_size;
-        let reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        let reader = Self::from_parts(inner, Some(tree_range.clone()), traversal.metadata)?;
         Ok(Self {
             file_size,
             ..reader
@@ -107,7 +117,7 @@ impl<'a> FileReader<'a> {
 
     fn from_parts(
         inner: FlatUnixFs<'a>,
-        offset: u64,
+        coverage: Option<Range<u64>>,
         metadata: Metadata,
     ) -> Result<Self, FileReadFailed> {
         let empty_or_no_content = inner
@@ -136,19 +146,37 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
-            let (end, file_size) = if inner.links.is_empty() {
+            let file_size = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                (Ending::Chunk(offset + filesize), filesize)
+                check_covered(filesize, Some(data.len() as u64))?;
+                filesize
             } else {
+                let mut blocksizes = inner.data.blocksizes.iter();
                 match inner.data.filesize {
-                    Some(filesize) => (Ending::TreeCoverage(offset + filesize), filesize),
+                    Some(filesize) => {
+                        check_covered(
+                            filesize,
+                            blocksizes.try_fold(0, |a: u64, b| a.checked_add(*b)),
+                        )?;
+                        filesize
+                    }
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
 
+            // without this check the following blocks would be given wrong offsets
+            let coverage = coverage.unwrap_or(0..file_size);
+            check_covered(coverage.end - coverage.start, Some(file_size))?;
+
+            let end = if inner.links.is_empty() {
+                Ending::Chunk(coverage.end)
+            } else {
+                Ending::TreeCoverage(coverage.end)
+            };
+
             Ok(Self {
-                offset,
+                offset: coverage.start,
                 end,
                 links: inner.links,
                 data,
@@ -214,7 +242,7 @@ impl Traversal {
     ) -> Result<FileReader<'a>, FileReadFailed> {
         self.last_ending
             .check_is_suitable_next(self.last_offset, tree_range)?;
-        FileReader::from_continued(self, tree_range.start, next_block)
+        FileReader::from_continued(self, tree_range, next_block)
     }
 
     /// Returns the total size of the file.
-- 
2.43.0


From d18add0f7719c55df5c867056c6c05d58812aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 15/18] fix: pb: do not move backwards when skipping unknown
 fields

BytesReader::read_unknown adds an unchecked 64-bit length to its position: a
hostile block could make the parser loop forever (or overflow, when checked).
---
 src/pb.rs           | 16 +++++++++++++++-
 src/pb/merkledag.rs |  4 ++--
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 1206990..63477ad 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -2,7 +2,7 @@ use alloc::borrow::Cow;
 use core::convert::TryFrom;
 use core::fmt;
 use core::ops::Range;
-use quick_protobuf::{errors::Result as ProtobufResult, Writer, WriterBackend};
+use quick_protobuf::{errors::Result as ProtobufResult, BytesReader, Writer, WriterBackend};
 
 pub(crate) mod merkledag;
 pub use merkledag::PBLink;
@@ -82,6 +82,20 @@ impl<'a> TryFrom<&'a [u8]> for merkledag::PBNode<'a> {
     }
 }
 
+/// Skips an unknown field like `BytesReader::read_unknown` but never moves past the end of `bytes`,
+/// or, for lengths which overflow, backwards.
+fn skip_unknown(r: &mut BytesReader, bytes: &[u8], tag: u32) -> ProtobufResult<()> {
+    match tag & 0x7 {
+        1 => r.read_fixed64(bytes).map(drop),
+        2 => {
+            let len = r.read_varint64(bytes)?;
+            (0..len).try_for_each(|_| r.read_u8(bytes).map(drop))
+        }
+        5 => r.read_fixed32(bytes).map(drop),
+        _ => r.read_unknown(bytes, tag),
+    }
+}
+
 /// Combined dag-pb (or MerkleDAG) with UnixFs payload.
 #[derive(Debug)]
 pub struct FlatUnixFs<'a> {
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index e55e5de..07df01d 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -30,7 +30,7 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
                 Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -73,7 +73,7 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
                 Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
                 Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 0027a29..1fda0f2 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -41,7 +41,7 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
                 Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -173,7 +173,7 @@ impl<'a> MessageRead<'a> for UnixTime {
                 Ok(8) => msg.Seconds = r.read_int64(bytes)?,
                 Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -206,7 +206,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
             match r.next_tag(bytes) {
                 Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From c5b6dc6983920422357d923bf3109199e37278fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 16/18] fix: file: buffer input also when chunks are too large
 to be allocated

---
 src/file/adder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 1930129..b264122 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -179,8 +179,9 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. this is only an optimization: the chunk size can be larger than what
+                // can be allocated, in which case the buffer needs to grow with the input.
+                let _ = self.block_buffer.try_reserve(self.size_hint());
             }
 
             self.block_buffer.extend_from_slice(accepted);
-- 
2.43.0


From 25663de5eda318f848fd3e57a1a68e24d22808d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 17/18] fix: file: do not reserve space for more links than
 there are

---
 src/file/adder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index b264122..215e223 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -493,14 +493,15 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // there is never need for more than there are links, no matter how large the branching
+        // factor is
+        let max_links = self.branching_factor.min(pending.len());
+
+        if let Some(need) = max_links.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
-            .checked_sub(reused_blocksizes.capacity())
-        {
+        if let Some(need) = max_links.checked_sub(reused_blocksizes.capacity()) {
             reused_blocksizes.reserve(need);
         }
 
-- 
2.43.0


From 52807e41f6e3c240485db009630b7ffe97db244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:24 +0000
Subject: [PATCH 18/18] fix: blocks of undefined UnixFS types were read as raw
 files

---
 src/pb/unixfs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 1fda0f2..f290025 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -9,7 +9,7 @@
 
 use super::*;
 use quick_protobuf::sizeofs::*;
-use quick_protobuf::{BytesReader, MessageRead, MessageWrite, Result, Writer, WriterBackend};
+use quick_protobuf::{BytesReader, Error, MessageRead, MessageWrite, Result, Writer, WriterBackend};
 use alloc::borrow::Cow;
 use core::convert::TryFrom;
 use std::io::Write;
@@ -30,9 +30,15 @@ pub struct Data<'a> {
 impl<'a> MessageRead<'a> for Data<'a> {
     fn from_reader(r: &mut BytesReader, bytes: &'a [u8]) -> Result<Self> {
         let mut msg = Self::default();
+        // these would otherwise be taken for the default, Raw
+        let mut undefined_type = None;
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(8) => msg.Type = r.read_enum(bytes)?,
+                Ok(8) => {
+                    let value: i32 = r.read_enum(bytes)?;
+                    msg.Type = mod_Data::DataType::from(value);
+                    undefined_type = Some(value).filter(|value| *value != i32::from(msg.Type));
+                }
                 Ok(18) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                 Ok(32) => msg.blocksizes.push(r.read_uint64(bytes)?),
@@ -46,7 +52,10 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Err(e) => return Err(e),
             }
         }
-        Ok(msg)
+        match undefined_type {
+            Some(value) => Err(Error::Message(format!("undefined UnixFS type: {}", value))),
+            None => Ok(msg),
+        }
     }
 }
 impl<'a> MessageWrite for Data<'a> {
-- 
2.43.0

