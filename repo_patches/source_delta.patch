From c21727b48c9413f4b631dc8fabb88f9251e9b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 01/29] fix: flush the buffered writer in RootFile::close so a
 successful close means the file is complete

---
 oxyroot/src/riofs/file.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9fb9554..9346694 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -129,6 +129,11 @@ impl RootFileWriter {
         self.writer.as_mut().expect("ERROR").write_all(buf)?;
         Ok(())
     }
+
+    pub(crate) fn flush(&mut self) -> Result<()> {
+        self.writer.as_mut().expect("ERROR").flush()?;
+        Ok(())
+    }
 }
 
 // impl Clone for RootFileWriter {
@@ -357,6 +362,7 @@ impl RootFile {
         self.write_streamer_info()?;
         self.write_free_segments()?;
         self.write_header()?;
+        self.writer()?.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 80271e2bd0d0f9e3508f32014812a86d5b5f5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 02/29] fix: grow the basket offset table by its own length (a
 long entry made later pushes index out of bounds)

---
 oxyroot/src/rtree/wbasket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/wbasket.rs b/oxyroot/src/rtree/wbasket.rs
index b2266ce..b52ee0f 100644
--- a/oxyroot/src/rtree/wbasket.rs
+++ b/oxyroot/src/rtree/wbasket.rs
@@ -32,7 +32,7 @@ impl WBasket {
         trace!(";WBranch.write.wbasket.update.{beg}.offset:{:?}", offset);
         let b = &mut self.basket;
         if !b.offsets().is_empty() {
-            if b.nev_buf + 1 >= b.nev_size {
+            if b.nev_buf + 1 >= b.offsets().len() as i32 {
                 let mut nev_size = 10;
                 if nev_size < 2 * b.nev_size {
                     nev_size = 2 * b.nev_size;
-- 
2.43.0


From 980ec137801b2886890dfb0f0890f6095cb78102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 03/29] fix: decompress every block of a compressed record, not
 only the first

---
 oxyroot/src/rcompress.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 44a6ab9..2ae3ed5 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -55,7 +55,7 @@ fn kind_of(buf: &[u8]) -> Kind {
 }
 
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
-    let _beg = 0;
+    let mut beg = 0;
     let mut end = 0;
     let buflen = dst.len() as i64;
     let mut hdr = [0_u8; HEADER_SIZE];
@@ -68,11 +68,21 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
         // let _ = src.read_exact(dst)?;
         // let _ = src.read_exact(dst)?;
 
-        let _srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
+        let srcsz = hdr[3] as i64 | (hdr[4] as i64) << 8 | (hdr[5] as i64) << 16;
         let tgtsz = hdr[6] as i64 | (hdr[7] as i64) << 8 | (hdr[8] as i64) << 16;
         // let tgtsz = hdr[6]) | int64(hdr[7])<<8 | int64(hdr[8])<<16
         end += tgtsz;
 
+        // A record bigger than K_MAX_COMPRESSED_BLOCK_SIZE is a sequence of blocks: decompress
+        // this one into its own part of dst and leave src at the header of the next one.
+        if srcsz > src.len() as i64 || end > buflen {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        let (block, rest) = src.split_at(srcsz as usize);
+        src = rest;
+        let dst = &mut dst[beg as usize..end as usize];
+        beg = end;
+
         match kind_of(hdr.as_ref()) {
             Kind::Inherit => {
                 unimplemented!()
@@ -82,20 +92,18 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(src);
+                let mut d = ZlibDecoder::new(block);
                 d.read_exact(dst.as_mut())?;
-                return Ok(0);
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(src);
+                let mut d = XzDecoder::new(block);
                 d.read_exact(dst.as_mut())?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&src[8..], Some(dst.len() as i32), dst)?;
-                return Ok(0);
+                LZ4_decompress_to_buffer(&block[8..], Some(dst.len() as i32), dst)?;
                 // let mut d = LZ4Decoder::new(src)?;
                 // d.read_exact(dst.as_mut())?;
             }
-- 
2.43.0


From c8e0133438b0fdccec7b8b2a082b514d86196706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 04/29] fix: recognise the object header of an entry of 16 MiB
 or more

---
 oxyroot/src/rbytes/rbuffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 955617e..f977281 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -521,7 +521,7 @@ impl<'a> RBuffer<'a> {
                 self.read_array_u8_into(&mut hdr)?;
                 self.rewind(1)?;
 
-                if hdr != [64] {
+                if hdr[0] & 64 == 0 {
                     return Ok(());
                 }
             }
-- 
2.43.0


From d05d84bbf0612db18962f5e6369d89ed83b03a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 05/29] fix: read the basket embedded in the tree after the
 baskets on disk, it holds the last entries

---
 oxyroot/src/rtree/branch/tbranch.rs         | 2 +-
 oxyroot/src/rtree/branch/tbranch_element.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 29f69c5..adcd355 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -269,7 +269,7 @@ impl TBranch {
             });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index be4fe6f..7cdb8e1 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -437,7 +437,7 @@ impl TBranchElement {
         });
         match embedded_basket {
             None => Box::new(ret),
-            Some(before) => Box::new(before.chain(ret)),
+            Some(last) => Box::new(ret.chain(last)),
         }
     }
 }
-- 
2.43.0


From 46130c2ed3c03fabfb6365e5c6e900074ae11c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 06/29] fix: never read a variable-length array column as
 scalars, even when it holds one element per entry on average

---
 oxyroot/src/rtree/branch/tbranch.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index adcd355..3975947 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -239,7 +239,9 @@ impl TBranch {
                         _ => {
                             let n_elements_in_buffer = buf.len() / chunk_size as usize;
                             // trial and error...
-                            if n_elements_in_buffer == self.entries as usize {
+                            if n_elements_in_buffer == self.entries as usize
+                                && !self.item_type_name().ends_with("[]")
+                            {
                                 // assert_eq!(n, self.entries as usize);
                                 trace!("send ({n},{chunk_size},{:?})", buf);
                                 BranchChunks::RegularSized((
-- 
2.43.0


From 307673f7a9054acf1bf721993d6ca3507bb06bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 07/29] fix: split the embedded basket of a variable-length
 array column at its entry offsets

---
 oxyroot/src/rtree/branch/tbranch.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 3975947..28b100a 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -183,6 +183,19 @@ impl TBranch {
 
             Some(self.baskets.iter().map(|b| {
                 let key_lenght = b.key().key_len() as usize;
+
+                if !b.offsets().is_empty() && self.item_type_name().ends_with("[]") {
+                    let buf = b.key().buffer();
+                    let end = buf.len() as i32;
+                    let offsets = b.offsets().iter().take(b.nev_buf() as usize);
+                    let data = offsets
+                        .clone()
+                        .zip(offsets.skip(1).chain(std::iter::once(&end)))
+                        .map(|(start, stop)| buf[*start as usize..*stop as usize].to_vec())
+                        .collect();
+                    return BranchChunks::IrregularSized((b.nev_buf(), data, 0));
+                }
+
                 let buf = b
                     .key()
                     .buffer()
-- 
2.43.0


From 5bc9f0af8d08890a6907088b22a583b1015313f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 08/29] fix: write the fields of a nested struct to branches
 named after their parent, and all of their rows

---
 oxyroot_derive/src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot_derive/src/lib.rs b/oxyroot_derive/src/lib.rs
index 5d125ac..85a0cc6 100644
--- a/oxyroot_derive/src/lib.rs
+++ b/oxyroot_derive/src/lib.rs
@@ -827,8 +827,10 @@ pub fn derive_write_to_tree(input: proc_macro::TokenStream) -> proc_macro::Token
                     }
                 };
 
-                #new_branch
+                // Registered before the branches: a nested struct registers its own callback
+                // there, which has to run after this one has sent it the current value.
                 tree.add_callback(Box::new(func));
+                #new_branch
 
                 Ok(())
 
@@ -952,7 +954,13 @@ fn write_new_branch_for_write_to_tree(data: &Data) -> TokenStream {
                     let recv_name = format_ident!("recv_{field_name}");
 
                     quote_spanned! {
-                        f.span() => <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, stringify!(#field_name).into())?;
+                        f.span() => {
+                            let field_branch_name = match branch_name {
+                                None => stringify!(#field_name).to_string(),
+                                Some(parent) => format!("{}.{}", parent, stringify!(#field_name)),
+                            };
+                            <#field_type>::to_branch_tree(#recv_name.into_iter(), tree, Some(field_branch_name.as_str()))?;
+                        }
                     }
                 });
                 quote!(#(#recurse)*)
-- 
2.43.0


From c5c840bfc606b4935fcafed05ec41e1e1f11fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 09/29] fix: opening a file that is not a ROOT file is an
 error, not a panic

---
 oxyroot/src/riofs/error.rs | 1 +
 oxyroot/src/riofs/file.rs  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/error.rs b/oxyroot/src/riofs/error.rs
index 821c6c7..13521be 100644
--- a/oxyroot/src/riofs/error.rs
+++ b/oxyroot/src/riofs/error.rs
@@ -5,6 +5,7 @@ pub enum Error {
     TryFromSlice,
     Io(std::io::Error),
     FileHasAnIncorrectHeaderLength,
+    NotARootFile,
     CantReadDirectoryInfo {
         n_bytes_name_read: i32,
         n_bytes_name_min_allowed: i32,
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 9346694..5b20a02 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -402,7 +402,9 @@ impl RootFile {
 
         trace!("magic = {:?}", magic);
 
-        assert_eq!(magic, ROOT_MAGIC.as_bytes());
+        if magic != ROOT_MAGIC.as_bytes() {
+            return Err(Error::NotARootFile);
+        }
 
         let version = r.read_i32()?;
         trace!("version = {}", version);
-- 
2.43.0


From 506a026aaec052df894cfb61fb286a1cad6f6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 10/29] fix: read composite columns whose parts are cut into
 baskets differently, with empty or embedded baskets or parts larger than a
 scalar

---
 oxyroot/src/rtree/branch/mod.rs | 86 +++++++++++++++++----------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index fc1e4f4..45e42a8 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -13,6 +13,7 @@ use crate::rbytes::UnmarshalerInto;
 use crate::riofs::file::{RootFileReader, RootFileStreamerInfoContext};
 use crate::root::traits::{Named, Object};
 
+use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type::type_name_cpp_to_rust;
 use crate::rtypes::FactoryItemRead;
 use log::trace;
@@ -346,17 +347,37 @@ impl<'a, T> ZiperBranches<'a, T> {
 }
 
 impl<'a, T> ZiperBranches<'a, T> {
-    fn fill_output(&mut self) {
-        for it_branch in &mut self.iterators {
-            if let Some(chunk) = it_branch.next() {
-                // let (n, chunk_size, buf) = data;
-                // trace!("n = {}", n);
-
-                let n = match chunk {
-                    BranchChunks::RegularSized((n, _, _)) => n,
-                    BranchChunks::IrregularSized((n, _, _)) => n,
-                };
+    /// Next basket of one branch that holds entries
+    fn next_chunk(
+        branch: &Branch,
+        it_branch: &mut Box<dyn Iterator<Item = BranchChunks> + 'a>,
+    ) -> Option<(i32, BranchChunks)> {
+        let tbranch: &TBranch = branch.into();
+        let strings = matches!(tbranch.leaves.first(), Some(Leaf::C(_)));
+
+        it_branch
+            .map(|chunk| match chunk {
+                BranchChunks::RegularSized((n, _, buf)) if strings => {
+                    // the strings of a basket follow each other, each has its own size
+                    let mut r = RBuffer::new(&buf, 0);
+                    let data = (0..n)
+                        .map(|_| {
+                            let begin = r.pos() as usize;
+                            r.read_string().unwrap();
+                            buf[begin..r.pos() as usize].to_vec()
+                        })
+                        .collect();
+                    (n, BranchChunks::IrregularSized((n, data, 0)))
+                }
+                BranchChunks::RegularSized((n, _, _)) => (n, chunk),
+                BranchChunks::IrregularSized((_, ref data, _)) => (data.len() as i32, chunk),
+            })
+            .find(|(n, _)| *n > 0)
+    }
 
+    fn fill_output(&mut self) {
+        for (branch, it_branch) in self._branches.iter().zip(&mut self.iterators) {
+            if let Some((n, chunk)) = Self::next_chunk(branch, it_branch) {
                 self.output_buffers.push(Some(chunk));
                 self.nb_entries.push(n);
                 self.current_size.push(0);
@@ -368,12 +389,7 @@ impl<'a, T> ZiperBranches<'a, T> {
         trace!("self.fill_output_one_branch, num_branch = {}", num_branch);
 
         let it_branch = &mut self.iterators[num_branch];
-        if let Some(chunk) = it_branch.next() {
-            let n = match chunk {
-                BranchChunks::RegularSized((n, _, _)) => n,
-                BranchChunks::IrregularSized((n, _, _)) => n,
-            };
-
+        if let Some((n, chunk)) = Self::next_chunk(&self._branches[num_branch], it_branch) {
             trace!("n = {}", n);
 
             self.output_buffers[num_branch] = Some(chunk);
@@ -404,18 +420,7 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
             }
         }
 
-        let size = self.output_buffers.iter().fold(0_usize, |acc, par| {
-            let s = match par.as_ref().unwrap() {
-                BranchChunks::RegularSized((_, s, _)) => s,
-                BranchChunks::IrregularSized(_) => {
-                    todo!()
-                }
-            };
-            acc + *s as usize
-        });
-        // let mut outbuf = vec![0 as u8; size];
-
-        let mut outbuf: Vec<u8> = Vec::with_capacity(size);
+        let mut outbuf: Vec<u8> = Vec::new();
 
         // for (ib, bbuffer) in enumerate(&self.output_buffers) {
         for ib in 0..self.current_size.len() {
@@ -424,19 +429,18 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
                     panic!("faut remplit");
                 }
                 Some(chunk) => {
-                    let (chunk_size, buf) = match chunk {
-                        BranchChunks::RegularSized((_, c, b)) => (c, b),
-                        BranchChunks::IrregularSized(_) => {
-                            todo!()
-                        }
-                    };
+                    let i = self.current_size[ib];
 
-                    let csize = *chunk_size as usize;
-                    let begin = self.current_size[ib] * csize;
-                    let end = (self.current_size[ib] + 1) * csize;
-
-                    let mut ibuffer = buf[begin..end].to_vec();
-                    outbuf.append(&mut ibuffer);
+                    match chunk {
+                        BranchChunks::RegularSized((n, _, buf)) => {
+                            // all entries of a basket have the same size
+                            let csize = buf.len() / *n as usize;
+                            outbuf.extend_from_slice(&buf[i * csize..(i + 1) * csize]);
+                        }
+                        BranchChunks::IrregularSized((_, data, _)) => {
+                            outbuf.extend_from_slice(&data[i]);
+                        }
+                    }
 
                     self.current_size[ib] += 1;
 
@@ -455,6 +459,6 @@ impl<'a, T> Iterator for ZiperBranches<'a, T> {
             }
         }
 
-        Some((0, size as i32, outbuf))
+        Some((0, outbuf.len() as i32, outbuf))
     }
 }
-- 
2.43.0


From 3334a77b08cc2e67afb39829dfc580bc30969ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 11/29] fix: read the embedded basket of an element column of
 fixed-size entries

---
 oxyroot/src/rtree/branch/tbranch_element.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 7cdb8e1..532bf87 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -270,6 +270,12 @@ impl TBranchElement {
                 let key_lenght = b.key().key_len();
                 let buf = b.key().buffer();
 
+                if b.offsets().is_empty() {
+                    // entries of a fixed size are stored without offsets
+                    let data = buf[key_lenght as usize..].to_vec();
+                    return BranchChunks::RegularSized((b.nev_buf(), b.entry_size(), data));
+                }
+
                 let n = buf.len() as i32;
 
                 let offsets = b.offsets().iter().chain(once(&n));
-- 
2.43.0


From 755de1a10a67d8bba533e73794dcd24a409d7a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 12/29] fix: refuse compressed blocks that are damaged or do
 not give the recorded number of bytes

---
 oxyroot/src/rcompress.rs | 97 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 90 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rcompress.rs b/oxyroot/src/rcompress.rs
index 2ae3ed5..efe441b 100644
--- a/oxyroot/src/rcompress.rs
+++ b/oxyroot/src/rcompress.rs
@@ -54,6 +54,83 @@ fn kind_of(buf: &[u8]) -> Kind {
     }
 }
 
+fn damaged() -> Error {
+    std::io::Error::from(std::io::ErrorKind::InvalidData).into()
+}
+
+/// Fill `dst` with all that `src` gives, reading on to its end verifies the checksum
+fn fill(mut src: impl Read, dst: &mut [u8]) -> Result<()> {
+    src.read_exact(dst)?;
+    if src.read(&mut [0_u8])? != 0 {
+        return Err(damaged());
+    }
+    Ok(())
+}
+
+/// XXH64 with seed 0
+fn xxh64(data: &[u8]) -> u64 {
+    const P1: u64 = 0x9E3779B185EBCA87;
+    const P2: u64 = 0xC2B2AE3D27D4EB4F;
+    const P3: u64 = 0x165667B19E3779F9;
+    const P4: u64 = 0x85EBCA77C2B2AE63;
+    const P5: u64 = 0x27D4EB2F165667C5;
+
+    let u64_at = |b: &[u8]| u64::from_le_bytes(b.try_into().unwrap());
+    let round = |acc: u64, lane: u64| {
+        acc.wrapping_add(lane.wrapping_mul(P2))
+            .rotate_left(31)
+            .wrapping_mul(P1)
+    };
+
+    let mut stripes = data.chunks_exact(32);
+    let mut h = if data.len() >= 32 {
+        let mut v = [P1.wrapping_add(P2), P2, 0, 0_u64.wrapping_sub(P1)];
+        for stripe in &mut stripes {
+            for (acc, lane) in v.iter_mut().zip(stripe.chunks_exact(8)) {
+                *acc = round(*acc, u64_at(lane));
+            }
+        }
+        let mut h = v[0]
+            .rotate_left(1)
+            .wrapping_add(v[1].rotate_left(7))
+            .wrapping_add(v[2].rotate_left(12))
+            .wrapping_add(v[3].rotate_left(18));
+        for acc in v {
+            h = (h ^ round(0, acc)).wrapping_mul(P1).wrapping_add(P4);
+        }
+        h
+    } else {
+        P5
+    };
+    h = h.wrapping_add(data.len() as u64);
+
+    let mut lanes = stripes.remainder().chunks_exact(8);
+    for lane in &mut lanes {
+        h = (h ^ round(0, u64_at(lane)))
+            .rotate_left(27)
+            .wrapping_mul(P1)
+            .wrapping_add(P4);
+    }
+    let mut rest = lanes.remainder();
+    if rest.len() >= 4 {
+        let lane = u32::from_le_bytes(rest[..4].try_into().unwrap());
+        h = (h ^ (lane as u64).wrapping_mul(P1))
+            .rotate_left(23)
+            .wrapping_mul(P2)
+            .wrapping_add(P3);
+        rest = &rest[4..];
+    }
+    for byte in rest {
+        h = (h ^ (*byte as u64).wrapping_mul(P5))
+            .rotate_left(11)
+            .wrapping_mul(P1);
+    }
+
+    h = (h ^ (h >> 33)).wrapping_mul(P2);
+    h = (h ^ (h >> 29)).wrapping_mul(P3);
+    h ^ (h >> 32)
+}
+
 pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
     let mut beg = 0;
     let mut end = 0;
@@ -92,20 +169,26 @@ pub fn decompress(dst: &mut [u8], mut src: &[u8]) -> Result<usize> {
             }
 
             Kind::Zlib => {
-                let mut d = ZlibDecoder::new(block);
-                d.read_exact(dst.as_mut())?;
+                fill(ZlibDecoder::new(block), dst)?;
             }
             Kind::Lzma => {
-                let mut d = XzDecoder::new(block);
-                d.read_exact(dst.as_mut())?;
+                fill(XzDecoder::new(block), dst)?;
             }
             Kind::OldCompression => {
                 unimplemented!()
             }
             Kind::LZ4 => {
-                LZ4_decompress_to_buffer(&block[8..], Some(dst.len() as i32), dst)?;
-                // let mut d = LZ4Decoder::new(src)?;
-                // d.read_exact(dst.as_mut())?;
+                // a checksum of the compressed data precedes it
+                if block.len() < 8 {
+                    return Err(damaged());
+                }
+                let (sum, block) = block.split_at(8);
+                if xxh64(block).to_be_bytes() != sum {
+                    return Err(damaged());
+                }
+                if LZ4_decompress_to_buffer(block, Some(dst.len() as i32), dst)? != dst.len() {
+                    return Err(damaged());
+                }
             }
             Kind::Zstd => {
                 unimplemented!()
-- 
2.43.0


From 45d273a890504643d7f792ffd85dafe3508848c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 13/29] fix: do not take the first bytes of a string of 64
 characters for an object header

---
 oxyroot/src/rbytes/rbuffer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index f977281..f778220 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -516,12 +516,13 @@ impl<'a> RBuffer<'a> {
                 return Ok(());
             }
 
-            if self.len() > 1 && s > 1 {
-                let mut hdr = [0; 1];
-                self.read_array_u8_into(&mut hdr)?;
-                self.rewind(1)?;
+            if s >= 4 {
+                // A header starts with the number of bytes that follow, marked by one bit. Data
+                // without header may have that bit set as well (a string of 64 characters).
+                let byte_count = self.read_u32()?;
+                self.rewind(4)?;
 
-                if hdr[0] & 64 == 0 {
+                if byte_count >> 30 != 1 || (byte_count & 0x3fff_ffff) as i64 + 4 > self.len() {
                     return Ok(());
                 }
             }
-- 
2.43.0


From eb3ab48c17f80878bc09691e6fd6d71b4c1215be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 14/29] fix: an object that is stored twice in a list or map is
 read both times

ROOT stores an object that is already in the buffer as its place only; a
tree whose user information holds one could not be opened (panic).
---
 oxyroot/src/rbytes/rbuffer.rs | 27 +++++++++++++++++++++++----
 oxyroot/src/rcont/list.rs     |  2 +-
 oxyroot/src/rcont/tmap.rs     |  4 ++--
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index f778220..1eeee56 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -8,7 +8,7 @@ use crate::rtypes::factory::FactoryBuilderValue;
 use crate::rtypes::FactoryItemRead;
 use log::trace;
 use std::cmp::min;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 use std::mem::size_of;
 use std::str::from_utf8;
@@ -103,6 +103,8 @@ pub struct RBuffer<'a> {
     offset: u32,
     // sictx: Option<&'a dyn StreamerInfoContext>,
     refs: HashMap<i64, RBufferRefsItem>,
+    /// places of the objects that were read completely
+    objs: HashSet<i64>,
     skip_header: Option<i32>,
 }
 
@@ -389,9 +391,7 @@ impl<'a> RBuffer<'a> {
             self.read_boxed_object(&mut obj)?;
 
             if vers > 0 {
-
-                // self.refs.insert(beg + kMapOffset, Obj(&obj));
-                // todo!()
+                self.objs.insert(_beg + kMapOffset);
             } else {
                 todo!()
             }
@@ -422,10 +422,29 @@ impl<'a> RBuffer<'a> {
 
             let mut obj: Box<dyn rtypes::FactoryItemRead> = fct();
             self.read_boxed_object(&mut obj)?;
+            self.objs.insert(_beg + kMapOffset);
             Ok(Some(obj))
         }
     }
 
+    /// Element of a container: an object that is in the buffer already is stored as its place only,
+    /// it is read once more from there.
+    pub(crate) fn read_object_any_shared(&mut self) -> Result<Option<Box<dyn FactoryItemRead>>> {
+        let beg = self.pos();
+        let place = self.read_u32()? as i64;
+
+        if self.objs.contains(&place) {
+            let end = self.pos();
+            self.set_pos(place - kMapOffset);
+            let obj = self.read_object_any_into()?;
+            self.set_pos(end);
+            return Ok(obj);
+        }
+
+        self.set_pos(beg);
+        self.read_object_any_into()
+    }
+
     pub fn read_string(&mut self) -> Result<&str> {
         let u8 = self.read_u8()?;
         let n = if u8 == 255 {
diff --git a/oxyroot/src/rcont/list.rs b/oxyroot/src/rcont/list.rs
index 1c26e21..b7c530d 100644
--- a/oxyroot/src/rcont/list.rs
+++ b/oxyroot/src/rcont/list.rs
@@ -96,7 +96,7 @@ impl Unmarshaler for ReaderList {
         let size = r.read_i32()?;
 
         for _ in 0..size {
-            let obj = r.read_object_any_into()?.expect("something is wrong");
+            let obj = r.read_object_any_shared()?.expect("something is wrong");
             self.objs.push(obj);
 
             let n = r.read_u8()?;
diff --git a/oxyroot/src/rcont/tmap.rs b/oxyroot/src/rcont/tmap.rs
index cb812d9..59c3f1c 100644
--- a/oxyroot/src/rcont/tmap.rs
+++ b/oxyroot/src/rcont/tmap.rs
@@ -74,10 +74,10 @@ impl Unmarshaler for TMap {
         trace!(";TMap.unmarshal.nobjs={}", nobjs);
 
         for _ in 0..nobjs {
-            let key = r.read_object_any_into()?.unwrap();
+            let key = r.read_object_any_shared()?.unwrap();
             trace!(";TMap.unmarshal.key={:?}", key);
 
-            let value = r.read_object_any_into()?.unwrap();
+            let value = r.read_object_any_shared()?.unwrap();
 
             match key.class() {
                 "TObjString" => {
-- 
2.43.0


From 9840215341c5ce607fe2034707e4f9d209a93a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 15/29] fix: all dimensions of an array column count, and one
 of variable size makes it variable

Only the first fixed dimension in the leaf title was looked at: x[2][3] was
taken for two elements per entry and x[n][3] for three, and entries were cut
accordingly.
---
 oxyroot/src/rtree/branch/tbranch.rs         | 24 ++-------------------
 oxyroot/src/rtree/branch/tbranch_element.rs | 23 ++------------------
 oxyroot/src/rtree/streamer_type.rs          | 15 +++++++++++++
 3 files changed, 19 insertions(+), 43 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 28b100a..3cf9a13 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -8,12 +8,11 @@ use crate::rtree::basket::{Basket, BasketData};
 use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::BranchChunks;
 use crate::rtree::leaf::Leaf;
+use crate::rtree::streamer_type::dim_from_title;
 use crate::rtree::tree::tio_features::TioFeatures;
 use crate::{factory_fn_register_impl, rbase, rvers, Branch, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
-use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
 
 pub(crate) const DEFAULT_BASKET_SIZE: i32 = 32 * 1024;
 // pub(crate) const DEFAULT_SPLIT_LEVEL: i32 = 99;
@@ -301,26 +300,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = dim_from_title(leave.title());
 
             match leave.type_name() {
                 Some(s) => match dim {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 532bf87..3d40b67 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -9,7 +9,7 @@ use crate::rtree::branch::tbranch_props::TBranchProps;
 use crate::rtree::branch::{BranchChunks, TBranch};
 use crate::rtree::leaf::Leaf;
 use crate::rtree::streamer_type;
-use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name};
+use crate::rtree::streamer_type::{_from_leaftype_to_str, clean_type_name, dim_from_title};
 use crate::{factory_fn_register_impl, Marshaler, RBuffer, Unmarshaler};
 use itertools::izip;
 use lazy_static::lazy_static;
@@ -128,26 +128,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            lazy_static! {
-                static ref RE_TITLE_HAS_DIMS: Regex =
-                    Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
-                static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([1-9][0-9]*)\]").unwrap();
-            }
-
-            let m = RE_TITLE_HAS_DIMS.captures(leave.title());
-            trace!("RE_TITLE_HAS_DIMS = {:?}", m);
-
-            let dim = if m.is_some() {
-                if let Some(m) = RE_ITEM_DIM_PATTERN.captures(leave.title()) {
-                    trace!("m = {:?}", m);
-                    let dim: &str = m.get(1).unwrap().as_str();
-                    Some(dim.parse::<i32>().unwrap())
-                } else {
-                    Some(0)
-                }
-            } else {
-                None
-            };
+            let dim = dim_from_title(leave.title());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 05f793c..7b00eda 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -196,6 +196,21 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
     }
 }
 
+/// Number of elements in an entry of a column, from the title of its leaf: `None` if it is not an
+/// array, 0 if one of the dimensions is given by another column.
+pub(crate) fn dim_from_title(title: &str) -> Option<i32> {
+    lazy_static! {
+        static ref RE_TITLE_HAS_DIMS: Regex = Regex::new(r"^([^\[\]]*)(\[[^\[\]]+\])+").unwrap();
+        static ref RE_ITEM_DIM_PATTERN: Regex = Regex::new(r"\[([^\[\]]+)\]").unwrap();
+    }
+
+    let dims = RE_TITLE_HAS_DIMS.find(title)?.as_str();
+    RE_ITEM_DIM_PATTERN
+        .captures_iter(dims)
+        .map(|m| m[1].parse::<i32>().unwrap_or(0))
+        .reduce(i32::saturating_mul)
+}
+
 pub fn replace_string(s: &str, from: &str, to: &str) -> String {
     let mut ret = String::new();
     let indices: Vec<_> = s.match_indices(from).collect();
-- 
2.43.0


From 3f3b5ee5af3e7205f81075e419d27c5ba9392027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 16/29] fix: type names are normalised word by word, in all
 their spellings

A class with the name of a basic type inside its name was renamed
(vector<Offset> to Vec<OffHashSet>), and vector<long long>, vector<Long64_t>,
vector<char> and vector<unsigned char> could not be read as what they hold.
---
 oxyroot/src/rtree/streamer_type.rs | 132 ++++++++++++++---------------
 1 file changed, 65 insertions(+), 67 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 7b00eda..954c967 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -2,7 +2,7 @@ use crate::rdict::Streamer;
 use crate::rmeta::{EReadWrite, Enum, EnumNamed};
 use lazy_static::lazy_static;
 use log::trace;
-use regex::Regex;
+use regex::{Captures, Regex};
 
 lazy_static! {
     static ref RE: Regex =
@@ -211,6 +211,7 @@ pub(crate) fn dim_from_title(title: &str) -> Option<i32> {
         .reduce(i32::saturating_mul)
 }
 
+#[cfg(test)]
 pub fn replace_string(s: &str, from: &str, to: &str) -> String {
     let mut ret = String::new();
     let indices: Vec<_> = s.match_indices(from).collect();
@@ -269,82 +270,79 @@ pub fn replace_string(s: &str, from: &str, to: &str) -> String {
 }
 
 /// change c++ typename from "int" to int32_t and so on
+///
+/// Works on whole words: a class may have "int" or "set" in its name.
 pub(crate) fn clean_type_name<T: AsRef<str>>(ty: T) -> String {
-    let ret = ty.as_ref().to_string().replace("unsigned int", "uint32_t");
-    let ret = replace_string(&ret, "int", "int32_t");
-    // undo change (uint32_t -> uint32_t32_t)
-    let ret = ret.replace("uint32_t32_t", "uint32_t");
-    // undo change (int32_t -> int32_t32_t)
-    let ret = ret.replace("int32_t32_t", "int32_t");
-    let ret = ret.replace("uint32_t16_t", "uint16_t");
-    let ret = ret.replace("uint32_t8_t", "uint8_t");
-    let ret = ret.replace("int32_t16_t", "int16_t");
-    let ret = ret.replace("int32_t8_t", "int8_t");
-    let ret = ret.replace("int32_t64_t", "int64_t");
-
-    let ret = ret.replace("unsigned short", "uint16_t");
-    let ret = ret.replace("short", "int16_t");
-
-    let ret = ret.replace("unsigned long", "uint64_t");
-    let ret = ret.replace("long", "int64_t");
+    lazy_static! {
+        static ref NAMES: Vec<(Regex, &'static str)> = [
+            (
+                r"unsigned\s+long(\s+long)?(\s+int)?|ULong64_t|ULong_t",
+                "uint64_t"
+            ),
+            (
+                r"(signed\s+)?long(\s+long)?(\s+int)?|Long64_t|Long_t",
+                "int64_t"
+            ),
+            (r"unsigned\s+short(\s+int)?|UShort_t", "uint16_t"),
+            (r"(signed\s+)?short(\s+int)?|Short_t", "int16_t"),
+            (r"unsigned\s+char|UChar_t", "uint8_t"),
+            (r"(signed\s+)?char|Char_t", "int8_t"),
+            (r"unsigned(\s+int)?|UInt_t", "uint32_t"),
+            (r"(signed\s+)?int|Int_t", "int32_t"),
+            (r"Float_t", "float"),
+            (r"Double_t", "double"),
+            (r"Bool_t", "bool"),
+        ]
+        .into_iter()
+        .map(|(re, name)| (Regex::new(&format!(r"\b(?:{re})\b")).unwrap(), name))
+        .collect();
+    }
 
+    let mut ret = ty.as_ref().to_string();
+    for (re, name) in NAMES.iter() {
+        ret = re.replace_all(&ret, *name).into_owned();
+    }
     ret.replace(' ', "")
 }
 
 /// Convert C++ templated name to a rust one
 /// Example vector<int> -> Vec<i32>
 pub(crate) fn type_name_cpp_to_rust(ty: &str) -> String {
-    let ty = clean_type_name(ty);
-    let ret = ty.replace("string", "String");
-    let ret = ret.replace("vector", "Vec");
-    let ret = ret.replace("map", "HashMap");
-    let mut ret = ret.replace("set", "HashSet");
-
-    let replaces = [
-        ("uint64_t", "u64"),
-        ("int64_t", "i64"),
-        ("uint32_t", "u32"),
-        ("int32_t", "i32"),
-        ("uint16_t", "u16"),
-        ("int16_t", "i16"),
-        ("uint8_t", "u8"),
-        ("int8_t", "i8"),
-        ("float", "f32"),
-        ("double", "f64"),
-        ("bool", "bool"),
-    ];
-
-    for (cpp, rust) in replaces.iter() {
-        ret = ret.replace(cpp, rust);
-
-        //i32[] -> Slice<i32>
-        let cpp_s = format!("{}[]", rust);
-        let rust_s = format!("Slice<{}>", rust);
-        ret = ret.replace(cpp_s.as_str(), rust_s.as_str());
-
-        let start = &format!("{}[", rust);
-        let end = "]";
-        // trace!("ty = {} -> ret = {}", ty, ret);
-        if let Some(start) = ret.find(start) {
-            let start = start + rust.len() + 1;
-            // trace!("\tstart = {}", start);
-
-            let right = ret.get(start..).unwrap();
-            // trace!("\tright = {}", right);
-            if !right.starts_with(']') {
-                let end = right.find(end).unwrap();
-                // trace!("\t\tend = {}", end);
-                let inner = ret.get(start..(end + start)).unwrap();
-                // trace!("\t\tinner = {}", inner);
-                let rust_s = format!("{}[{}]", rust, inner);
-                let rust_o = format!("[{};{}]", rust, inner);
-                // trace!("\t\trust_s = {}", rust_s);
-                ret = ret.replace(rust_s.as_str(), rust_o.as_str());
-            }
-        }
+    lazy_static! {
+        static ref RE_WORD: Regex = Regex::new(r"\w+").unwrap();
+        static ref RE_DIM: Regex =
+            Regex::new(r"\b([ui](?:8|16|32|64)|f32|f64|bool)\[([^\[\]]*)\]").unwrap();
     }
 
-    ret.replace("char*", "String")
+    let ty = clean_type_name(ty.replace("char*", "string"));
+    let ret = RE_WORD.replace_all(&ty, |word: &Captures| {
+        match &word[0] {
+            "string" => "String",
+            "vector" => "Vec",
+            "map" => "HashMap",
+            "set" => "HashSet",
+            "uint64_t" => "u64",
+            "int64_t" => "i64",
+            "uint32_t" => "u32",
+            "int32_t" => "i32",
+            "uint16_t" => "u16",
+            "int16_t" => "i16",
+            "uint8_t" => "u8",
+            "int8_t" => "i8",
+            "float" => "f32",
+            "double" => "f64",
+            other => other,
+        }
+        .to_string()
+    });
+
+    // i32[] -> Slice<i32>, i32[10] -> [i32;10]
+    RE_DIM
+        .replace_all(&ret, |m: &Captures| match &m[2] {
+            "" => format!("Slice<{}>", &m[1]),
+            dim => format!("[{};{}]", &m[1], dim),
+        })
+        .into_owned()
 }
 
 #[cfg(test)]
-- 
2.43.0


From cf1a9c8570ade8292eaaf86f5c27f5d3e64a3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 17/29] fix: a map column is read only as the map it is, a set
 of strings in any spelling as a set

HashMap had no type names, so a column of any type was accepted as a map and gave
nonsense or a panic; HashSet knew one spelling of its elements only.
---
 oxyroot/src/rbytes/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index 4eba0b7..ca3425d 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -382,7 +382,11 @@ where
     {
         match T::classe_name() {
             None => None,
-            Some(tys) => vec![format!("set<{}>", tys.first().unwrap())].into(),
+            Some(tys) => tys
+                .iter()
+                .map(|t| format!("set<{}>", t))
+                .collect::<Vec<String>>()
+                .into(),
         }
     }
 }
@@ -423,6 +427,17 @@ where
 
         Ok(())
     }
+
+    fn class_name() -> Option<Vec<String>>
+    where
+        Self: Sized,
+    {
+        let (keys, values) = (K::classe_name()?, V::classe_name()?);
+        keys.iter()
+            .flat_map(|k| values.iter().map(move |v| format!("map<{},{}>", k, v)))
+            .collect::<Vec<String>>()
+            .into()
+    }
 }
 
 impl<T, const N: usize> Unmarshaler for [T; N]
-- 
2.43.0


From 7f083f1659cd769fef047940e6595d38772360b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:39 +0000
Subject: [PATCH 18/29] fix: members of type Long64_t, ULong64_t and bool have
 a type

Asking for the type of such a column of a split class panicked, and so did
reading any column with a checked type.
---
 oxyroot/src/rtree/streamer_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/streamer_type.rs b/oxyroot/src/rtree/streamer_type.rs
index 954c967..6d02e2e 100644
--- a/oxyroot/src/rtree/streamer_type.rs
+++ b/oxyroot/src/rtree/streamer_type.rs
@@ -179,8 +179,10 @@ pub(crate) fn _from_leaftype_to_str(leaftype: i32) -> Option<&'static str> {
             EReadWrite::Int => Some("int32_t"),
             EReadWrite::UInt | EReadWrite::Bits | EReadWrite::Counter => Some("uint32_t"),
 
-            EReadWrite::Long => Some("int64_t"),
-            EReadWrite::ULong => Some("uint64_t"),
+            EReadWrite::Long | EReadWrite::Long64 => Some("int64_t"),
+            EReadWrite::ULong | EReadWrite::ULong64 => Some("uint64_t"),
+
+            EReadWrite::Bool => Some("bool"),
 
             EReadWrite::Float => Some("float"),
             EReadWrite::Double => Some("double"),
-- 
2.43.0


From abe4a8b7af4570659e7e3c3f565e46c10e59c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 19/29] fix: asking for a tree where another object is stored
 is an error, not a panic

---
 oxyroot/src/riofs/file.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5b20a02..e4c8887 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -901,6 +901,13 @@ impl RootFile {
 
     pub fn get_tree(&mut self, name: &str) -> Result<ReaderTree> {
         let objet = self.get_object(name)?;
+        if objet.downcast_ref::<ReaderTree>().is_err() {
+            return Err(Error::KeyClassMismatch {
+                key: name.to_string(),
+                key_class: objet.class().to_string(),
+                obj_class: "TTree".to_string(),
+            });
+        }
         let mut objet: ReaderTree = *objet.downcast::<ReaderTree>().expect("");
 
         objet.set_reader(Some(self.reader()?.clone()));
-- 
2.43.0


From 3f841353d890fac5eee9fc07f9e605a4d41cf1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 20/29] fix: the tools go on after an object that is not a tree

---
 oxyroot-dump/src/main.rs | 8 +++++++-
 oxyroot-ls/src/main.rs   | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/oxyroot-dump/src/main.rs b/oxyroot-dump/src/main.rs
index bdc43c7..a322459 100644
--- a/oxyroot-dump/src/main.rs
+++ b/oxyroot-dump/src/main.rs
@@ -1618,7 +1618,13 @@ fn main() {
 
     for trees in keys {
         println!(">>> tree: {:?}", trees);
-        let tree = f.get_tree(&trees).unwrap();
+        let tree = match f.get_tree(&trees) {
+            Ok(tree) => tree,
+            Err(e) => {
+                eprintln!("can not dump {}: {}", trees, e);
+                continue;
+            }
+        };
         tree.show();
 
         let mut zip = ZiperDumperBranch::new(&tree);
diff --git a/oxyroot-ls/src/main.rs b/oxyroot-ls/src/main.rs
index 2666227..f2267cc 100644
--- a/oxyroot-ls/src/main.rs
+++ b/oxyroot-ls/src/main.rs
@@ -52,7 +52,9 @@ fn main() {
             k.title()
         );
         println!("> Data in {}:", k.name());
-        let tree = f.get_tree(k.name()).unwrap();
-        tree.show();
+        match f.get_tree(k.name()) {
+            Ok(tree) => tree.show(),
+            Err(e) => eprintln!("can not show {}: {}", k.name(), e),
+        }
     }
 }
-- 
2.43.0


From fd5fd2788413cd3e763012bb8639893894f1ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 21/29] fix: a tree goes on reading the file it was opened
 from, not whatever its path leads to later

---
 oxyroot/src/riofs/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index e4c8887..2afb680 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -97,7 +97,13 @@ impl RootFileReader {
 
 impl Clone for RootFileReader {
     fn clone(&self) -> Self {
-        RootFileReader::new(&self.path).unwrap()
+        // The same open file: its path can be relative, or lead to another file by now.
+        // The position is shared, but every read sets it.
+        let file = self.reader.as_ref().expect("ERROR").get_ref();
+        Self {
+            path: self.path.clone(),
+            reader: Some(BufReader::new(file.try_clone().unwrap())),
+        }
     }
 }
 
-- 
2.43.0


From 1e4c37ebf2cd54be7afdf653c216e51598d5abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 22/29] fix: text that is not UTF-8 is an error when a column
 is read, not an empty string

---
 oxyroot/src/rbytes/mod.rs     |  5 ++++-
 oxyroot/src/rbytes/rbuffer.rs | 16 ++++++----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/oxyroot/src/rbytes/mod.rs b/oxyroot/src/rbytes/mod.rs
index ca3425d..d1877b2 100644
--- a/oxyroot/src/rbytes/mod.rs
+++ b/oxyroot/src/rbytes/mod.rs
@@ -265,7 +265,10 @@ impl_marshalers_primitive!(bool);
 impl Unmarshaler for String {
     fn unmarshal(&mut self, r: &mut RBuffer) -> Result<()> {
         r.do_skip_header()?;
-        *self = r.read_string()?.to_string();
+        // text in another encoding is an error, not an empty string
+        *self = std::str::from_utf8(r.read_string_bytes()?)
+            .map_err(|e| Error::Misc(e.to_string()))?
+            .to_string();
         Ok(())
     }
 
diff --git a/oxyroot/src/rbytes/rbuffer.rs b/oxyroot/src/rbytes/rbuffer.rs
index 1eeee56..5357886 100644
--- a/oxyroot/src/rbytes/rbuffer.rs
+++ b/oxyroot/src/rbytes/rbuffer.rs
@@ -446,6 +446,10 @@ impl<'a> RBuffer<'a> {
     }
 
     pub fn read_string(&mut self) -> Result<&str> {
+        Ok(from_utf8(self.read_string_bytes()?).unwrap_or(""))
+    }
+
+    pub(crate) fn read_string_bytes(&mut self) -> Result<&[u8]> {
         let u8 = self.read_u8()?;
         let n = if u8 == 255 {
             // large string
@@ -455,20 +459,12 @@ impl<'a> RBuffer<'a> {
         };
 
         if n == 0 {
-            return Ok("");
+            return Ok(&[]);
         }
 
         // trace!("read_string, n = {}", n);
 
-        let buf = self.r.extract_n(n as usize)?;
-
-        // trace!("read_string: buf = {:?}", buf);
-
-        if let Ok(s) = from_utf8(buf) {
-            // trace!("read_string = {}", s);
-            return Ok(s);
-        }
-        Ok("")
+        self.r.extract_n(n as usize)
     }
 
     pub fn read_cstring(&mut self, n: usize) -> Result<&'a str> {
-- 
2.43.0


From 0513467ed0fab3d9a156e00707ae854af1c7c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 23/29] fix: the columns of a tree share one open file

Every column (and every tree) opened the file anew, so a tree with more
columns than the process may have open files could not be read: it panicked
with 'too many open files'.
---
 oxyroot/src/riofs/file.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 2afb680..5972a7c 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -8,6 +8,7 @@ use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 use std::path::{Path, PathBuf};
 use std::ptr::addr_of;
 use std::rc::Rc;
+use std::sync::Arc;
 
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::wbuffer::WBuffer;
@@ -60,7 +61,7 @@ impl RootFileHeader {
 #[derive(Default, Debug)]
 pub(crate) struct RootFileReader {
     path: PathBuf,
-    reader: Option<BufReader<File>>,
+    reader: Option<BufReader<Arc<File>>>,
 }
 
 impl Display for RootFileReader {
@@ -76,7 +77,7 @@ impl RootFileReader {
         P: AsRef<Path>,
     {
         let f = File::open(path.as_ref())?;
-        let buf_reader = BufReader::new(f);
+        let buf_reader = BufReader::new(Arc::new(f));
         let reader = Self {
             path: path.as_ref().to_path_buf(),
             reader: Some(buf_reader),
@@ -97,12 +98,13 @@ impl RootFileReader {
 
 impl Clone for RootFileReader {
     fn clone(&self) -> Self {
-        // The same open file: its path can be relative, or lead to another file by now.
+        // The same open file: its path can be relative, or lead to another file by now,
+        // and a tree has more columns than a process can have open files.
         // The position is shared, but every read sets it.
         let file = self.reader.as_ref().expect("ERROR").get_ref();
         Self {
             path: self.path.clone(),
-            reader: Some(BufReader::new(file.try_clone().unwrap())),
+            reader: Some(BufReader::new(file.clone())),
         }
     }
 }
-- 
2.43.0


From cdc483cba9855b33ca85b86525c541e5899ae4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 24/29] fix: files beyond two gigabytes can be opened again

The directory record, the free list and the key list are written with 64-bit positions
where those are needed, whichever record makes the file that big.
---
 oxyroot/src/riofs/dir.rs  | 13 +++++++++++--
 oxyroot/src/riofs/file.rs | 22 +++++++++++++++++-----
 oxyroot/src/riofs/key.rs  |  7 ++++---
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index 6e8a0ca..be04beb 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -3,6 +3,7 @@ use crate::riofs::file::{RootFile, RootFileReader};
 use crate::rbase::named::Named as ObjNamed;
 use crate::rbytes::rbuffer::RBuffer;
 use crate::rbytes::{Marshaler, StreamerInfoContext, Unmarshaler};
+use crate::riofs::consts::kStartBigFile;
 use crate::riofs::key::Key;
 use crate::riofs::utils::{datetime_to_u32, decode_name_cycle};
 use crate::root::traits::Named;
@@ -436,7 +437,15 @@ impl Unmarshaler for TDirectoryFile {
 impl Marshaler for TDirectoryFile {
     fn marshal(&self, w: &mut WBuffer) -> crate::rbytes::Result<i64> {
         let beg = w.pos();
-        let version = self.dir().rvers;
+        let mut version = self.dir().rvers;
+        if version <= 1000
+            && (self.seek_dir > kStartBigFile
+                || self.seek_parent > kStartBigFile
+                || self.seek_keys > kStartBigFile)
+        {
+            // positions that only fit in 64 bits
+            version += 1000;
+        }
         trace!(";TDirectoryFile.marshal.beg:{:?}", beg);
         trace!(";TDirectoryFile.marshal.version:{:?}", version);
         w.write_i16(version)?;
@@ -457,7 +466,7 @@ impl Marshaler for TDirectoryFile {
         );
         w.write_i32(self.n_bytes_name)?;
 
-        if self.is_big_file() {
+        if version > 1000 {
             w.write_i64(self.seek_dir)?;
             w.write_i64(self.seek_parent)?;
             w.write_i64(self.seek_keys)?;
diff --git a/oxyroot/src/riofs/file.rs b/oxyroot/src/riofs/file.rs
index 5972a7c..c629943 100644
--- a/oxyroot/src/riofs/file.rs
+++ b/oxyroot/src/riofs/file.rs
@@ -34,6 +34,8 @@ use uuid::Uuid;
 const HEADER_LEN: u64 = 64;
 const HEADER_EXTRA_LEN: u64 = 12;
 // 64: small file + extra space for big file
+// by how much the free space behind the end of a big file is extended
+const FREE_SPACE_STEP: i64 = 1000000000;
 const ROOT_MAGIC: &str = "root";
 
 #[derive(Default, Debug)]
@@ -483,10 +485,11 @@ impl RootFile {
             panic!("self.spans.len()")
         }
         let blk = self.spans.vec().last_mut().unwrap();
-        if blk.last != kStartBigFile {
-            panic!("blk.last")
-        }
         blk.first = pos;
+        while blk.first > blk.last {
+            // the free space behind the end of the file, as ROOT extends it
+            blk.last += FREE_SPACE_STEP;
+        }
         Ok(())
     }
 
@@ -729,8 +732,17 @@ impl RootFile {
 
         assert_ne!(key.seek_key(), 0);
 
-        if !self.is_big_file() && self.end() > kStartBigFile {
-            unimplemented!("!self.is_big_file() && self.end() > kStartBigFile")
+        let nbytes = self.spans.vec().iter().map(|span| span.size_of()).sum();
+        if key.obj_len() != nbytes {
+            // this very record made the file big: its segments take more room
+            self.set_end(key.seek_key())?;
+            key = Key::new(
+                self.dir.dir().named().name.clone(),
+                self.dir.dir().named().title.clone(),
+                "TFile".to_string(),
+                nbytes,
+                self,
+            )?;
         }
 
         let nbytes = key.obj_len();
diff --git a/oxyroot/src/riofs/key.rs b/oxyroot/src/riofs/key.rs
index 3e12c81..15e2831 100644
--- a/oxyroot/src/riofs/key.rs
+++ b/oxyroot/src/riofs/key.rs
@@ -228,13 +228,14 @@ impl Key {
         };
         key.n_bytes = key.obj_len + key.key_len;
         let eof = f.end();
+        if f.is_big_file() {
+            // as key_len was computed: before this record itself moves the end
+            key.rvers += 1000
+        }
         if obj_len > 0 {
             key.seek_key = eof;
             f.set_end(key.seek_key + key.n_bytes as i64)?;
         }
-        if f.is_big_file() {
-            key.rvers += 1000
-        }
 
         key.seek_pdir = f.dir().seek_dir;
 
-- 
2.43.0


From fc063ddf02d9ddd18b9a9cc037a05ec33bd63957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:45 +0000
Subject: [PATCH 25/29] fix: a column can have more than 32767 baskets

---
 oxyroot/src/rtree/branch/wbranch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oxyroot/src/rtree/branch/wbranch.rs b/oxyroot/src/rtree/branch/wbranch.rs
index 2b3204b..1cb5bdb 100644
--- a/oxyroot/src/rtree/branch/wbranch.rs
+++ b/oxyroot/src/rtree/branch/wbranch.rs
@@ -167,7 +167,8 @@ where
             ";WBranch.create_new_basket.b.write_basket:{:?}",
             self.branch.tbranch_mut().write_basket
         );
-        let cycle = self.branch.tbranch_mut().write_basket as i16 + 1;
+        // only 16 bits of it are stored
+        let cycle = (self.branch.tbranch_mut().write_basket as i16).wrapping_add(1);
         let basket_size = self.branch.tbranch_mut().basket_size;
         let offset_len = self.branch.tbranch_mut().entry_offset_len;
         let basket = Basket::new_from_branch(&self.branch, cycle, basket_size, offset_len, tree, f);
-- 
2.43.0


From d20e6d81bbdb9c52ab603c7768491b88a053709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 26/29] fix: a branch without entries among those of a
 composite column does not shift the others

---
 oxyroot/src/rtree/branch/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index 45e42a8..1fb3e0d 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -377,11 +377,11 @@ impl<'a, T> ZiperBranches<'a, T> {
 
     fn fill_output(&mut self) {
         for (branch, it_branch) in self._branches.iter().zip(&mut self.iterators) {
-            if let Some((n, chunk)) = Self::next_chunk(branch, it_branch) {
-                self.output_buffers.push(Some(chunk));
-                self.nb_entries.push(n);
-                self.current_size.push(0);
-            }
+            // a branch without any entry keeps its place: there is no complete row
+            let (n, chunk) = Self::next_chunk(branch, it_branch).unzip();
+            self.output_buffers.push(chunk);
+            self.nb_entries.push(n.unwrap_or(0));
+            self.current_size.push(0);
         }
     }
 
-- 
2.43.0


From 5071269ee54066c9202fba97d47642743c0edecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:04 +0000
Subject: [PATCH 27/29] fix: a tree is found by name and generation, and by a
 name with a semicolon

Asking for "name;cycle" reached unimplemented!() even for names that are
not in the file, and a tree whose own name has a ';' could be written but
never read back.
---
 oxyroot/src/riofs/dir.rs   | 17 ++++++-----------
 oxyroot/src/riofs/utils.rs | 15 ++++++---------
 2 files changed, 12 insertions(+), 20 deletions(-)

diff --git a/oxyroot/src/riofs/dir.rs b/oxyroot/src/riofs/dir.rs
index be04beb..295c967 100644
--- a/oxyroot/src/riofs/dir.rs
+++ b/oxyroot/src/riofs/dir.rs
@@ -300,23 +300,18 @@ impl TDirectoryFile {
     ) -> Result<Box<dyn FactoryItemRead>> {
         trace!("get_object, namecycle = {}", namecycle);
 
-        let (name, cycle) = decode_name_cycle(namecycle)?;
+        // a key may well have a ';' in its own name
+        let (name, cycle) = match self.keys.iter().any(|k| k.name() == namecycle) {
+            true => (namecycle, 9999),
+            false => decode_name_cycle(namecycle)?,
+        };
         trace!("get_object, name = {}", name);
         trace!("self.keys.len = {}", self.keys.len());
 
         let mut keys = self
             .keys
             .iter()
-            .filter(|k| {
-                if k.name() == name {
-                    if cycle != 9999 {
-                        todo!();
-                    }
-                    true
-                } else {
-                    false
-                }
-            })
+            .filter(|k| k.name() == name && (cycle == 9999 || k.cycle() == cycle as i32))
             .collect::<Vec<_>>();
 
         let key = match keys.len() {
diff --git a/oxyroot/src/riofs/utils.rs b/oxyroot/src/riofs/utils.rs
index 3c8c819..84cde44 100644
--- a/oxyroot/src/riofs/utils.rs
+++ b/oxyroot/src/riofs/utils.rs
@@ -2,15 +2,12 @@ use crate::riofs::Error;
 use chrono::{DateTime, Datelike, Timelike, Utc};
 
 pub fn decode_name_cycle(namecycle: &str) -> Result<(&str, u16), Error> {
-    let toks: Vec<_> = namecycle.split(';').collect();
-
-    match toks.len() {
-        1 => Ok((toks[0], 9999)),
-        2 => {
-            unimplemented!()
-        }
-
-        _ => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+    match namecycle.rsplit_once(';') {
+        None => Ok((namecycle, 9999)),
+        Some((name, cycle)) => match cycle.parse() {
+            Ok(cycle) => Ok((name, cycle)),
+            Err(_) => Err(Error::CantDecodeNameCycle(namecycle.to_string())),
+        },
     }
 }
 
-- 
2.43.0


From 441eac644ba05b5018028f5d002ed22dfc2bd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:16 +0000
Subject: [PATCH 28/29] fix: brackets in a column's name are not taken for the
 dimensions of its type

---
 oxyroot/src/rtree/branch/tbranch.rs         | 2 +-
 oxyroot/src/rtree/branch/tbranch_element.rs | 2 +-
 oxyroot/src/rtree/leaf.rs                   | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 3cf9a13..2f3ba5e 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -300,7 +300,7 @@ impl TBranch {
             let leave = self.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
 
-            let dim = dim_from_title(leave.title());
+            let dim = dim_from_title(leave.title_dims());
 
             match leave.type_name() {
                 Some(s) => match dim {
diff --git a/oxyroot/src/rtree/branch/tbranch_element.rs b/oxyroot/src/rtree/branch/tbranch_element.rs
index 3d40b67..864e3d8 100644
--- a/oxyroot/src/rtree/branch/tbranch_element.rs
+++ b/oxyroot/src/rtree/branch/tbranch_element.rs
@@ -128,7 +128,7 @@ impl TBranchElement {
         } else if self.branch.leaves.len() == 1 {
             let leave = self.branch.leaves.first().unwrap();
             trace!("leave = {:?}", leave);
-            let dim = dim_from_title(leave.title());
+            let dim = dim_from_title(leave.title_dims());
 
             return match leave.type_name() {
                 Some(t) => t.into(),
diff --git a/oxyroot/src/rtree/leaf.rs b/oxyroot/src/rtree/leaf.rs
index 8446c5b..5fb0e4c 100644
--- a/oxyroot/src/rtree/leaf.rs
+++ b/oxyroot/src/rtree/leaf.rs
@@ -144,6 +144,14 @@ impl Leaf {
         self.tleaf().title()
     }
 
+    /// What follows the name of the leaf in its title: the dimensions of arrays. The name itself
+    /// may well contain brackets.
+    pub(crate) fn title_dims(&self) -> &str {
+        let tleaf = self.tleaf();
+        let title = tleaf.title();
+        title.strip_prefix(tleaf.named.name()).unwrap_or(title)
+    }
+
     pub fn unsigned(&self) -> Option<bool> {
         match self {
             Leaf::Base(_) => None,
-- 
2.43.0


From 485a5b930e39824464fbcb93504748d7edb7bf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 29/29] fix: the parts of a composite column may be composite
 themselves

---
 oxyroot/src/rtree/branch/mod.rs     | 10 ++++++++--
 oxyroot/src/rtree/branch/tbranch.rs |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/oxyroot/src/rtree/branch/mod.rs b/oxyroot/src/rtree/branch/mod.rs
index 1fb3e0d..bb242a4 100644
--- a/oxyroot/src/rtree/branch/mod.rs
+++ b/oxyroot/src/rtree/branch/mod.rs
@@ -313,13 +313,19 @@ pub struct ZiperBranches<'a, T> {
     nb_entries: Vec<i32>,
 }
 
-impl<'a, T> ZiperBranches<'a, T> {
+impl<'a, T: 'a> ZiperBranches<'a, T> {
     pub fn new(branches: &'a Vec<Branch>, _nb_entries: u32) -> Self {
         let mut v = Vec::new();
         // let mut v: Vec<dyn Iterator<Item = (u32, i32, Vec<u8>)>> = Vec::new();
         for branch in branches {
             let tbranch: &TBranch = branch.into();
-            let data = tbranch.get_baskets_buffer();
+            let data = if tbranch.has_only_branches() {
+                // the entries of a branch without baskets are made of those of its own branches
+                let inner = ZiperBranches::<T>::new(tbranch.branches(), _nb_entries);
+                Box::new(inner.map(|(_, size, buf)| BranchChunks::RegularSized((1, size, buf))))
+            } else {
+                tbranch.get_baskets_buffer()
+            };
 
             // let b = data.collect::<Vec<_>>();
             //
diff --git a/oxyroot/src/rtree/branch/tbranch.rs b/oxyroot/src/rtree/branch/tbranch.rs
index 2f3ba5e..27fd62c 100644
--- a/oxyroot/src/rtree/branch/tbranch.rs
+++ b/oxyroot/src/rtree/branch/tbranch.rs
@@ -103,6 +103,13 @@ impl TBranch {
         &self.branches //.map(|b| b.into())
     }
 
+    /// No entry is stored in this branch itself
+    pub(crate) fn has_only_branches(&self) -> bool {
+        !self.branches.is_empty()
+            && self.baskets.is_empty()
+            && self.basket_bytes.iter().all(|len| *len == 0)
+    }
+
     pub fn branch(&self, name: &str) -> Option<&Branch> {
         for b in self.branches.iter() {
             if b.name() == name {
-- 
2.43.0

