From 6dbaffc947f109ed037aeb7b78ecf6154a8ad6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 01/21] fix: ByteWeights iterators yielded byte 0 a second time

The index is compared with 256 only after it was truncated to a u8, so with
byte 255 absent the search for the next byte wrapped around to byte 0 and
returned it again. Sums of ByteWeights counted byte 0 twice and trees built
from them had two leaves for it.
---
 huff_coding/src/weights.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..c509ccd 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -402,10 +402,10 @@ pub mod byte_weights{
             }
 
             while self.weights.get(&(self.current_index as u8)).is_none(){
+                self.current_index += 1;
                 if self.current_index == 256{
                     return None
                 }
-                self.current_index += 1
             }
             let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
             if self.current_index != 256{self.current_index += 1;}
@@ -429,10 +429,10 @@ pub mod byte_weights{
                 }
     
                 while self.weights.get(&(self.current_index as u8)).is_none(){
+                    self.current_index += 1;
                     if self.current_index == 256{
                         return None
                     }
-                    self.current_index += 1
                 }
                 let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
                 if self.current_index != 256{self.current_index += 1;}
-- 
2.43.0


From 801e7a45e035d63fcb979ada1652b4ecc9c9b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 02/21] fix: ByteWeights::len was stale after a weight was set
 to 0

get_mut lets a weight be set to 0, which makes the byte absent for get and
iter, but len and is_empty still counted it (and counted it twice when the byte
was added back), so a tree could be built from weights without any byte, failing
on an unwrap. Count the stored weights instead of keeping a separate counter.
---
 huff_coding/src/weights.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index c509ccd..5a835e1 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -174,7 +174,6 @@ pub mod byte_weights{
     #[derive(Clone, Copy, Eq)]
     pub struct ByteWeights{
         weights: [usize; 256],
-        len: usize,
     }
 
     impl Weights<u8> for ByteWeights{
@@ -245,7 +244,6 @@ pub mod byte_weights{
         pub fn new() -> Self{
             Self{
                 weights: [0;256],
-                len: 0,
             }
         }
 
@@ -265,16 +263,13 @@ pub mod byte_weights{
         pub fn from_bytes(bytes: &[u8]) -> Self{
             // count bytes into an array
             let mut weights: [usize; 256] = [0;256];
-            let mut len = 0;
 
             for byte in bytes{
-                if weights[*byte as usize] == 0{len += 1;}
                 weights[*byte as usize] += 1;
             }
  
             ByteWeights{
                 weights,
-                len,
             }
         }
 
@@ -340,12 +335,12 @@ pub mod byte_weights{
 
         /// Return the number of different counted bytes stored in the `ByteWeights`
         pub fn len(&self) -> usize{
-            self.len
+            self.weights.iter().filter(|weight| **weight != 0).count()
         }
 
         /// Return true if len == 0
         pub fn is_empty(&self) -> bool{
-            self.len == 0
+            self.len() == 0
         }
 
         /// Returns an iterator over the bytes to their weights `(u8, usize)`
@@ -380,7 +375,6 @@ pub mod byte_weights{
                     }
                     None =>{
                         self.weights[b as usize] = f;
-                        self.len += 1;
                     }
                 }
             }
-- 
2.43.0


From 8fd918d781e684c8fb2d7327fb9a5dc99af27b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 03/21] fix: CompressData::try_from_bytes panicked on malformed
 bytes

A stored tree length lower than 2 (documented as an error), no bytes after the
tree and data padding larger than 7 made it panic instead of returning an error.
---
 huff_coding/src/comp.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..31908b8 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -151,7 +151,9 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .unwrap()
         ) as usize;
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(CompressedDataFromBytesError::new(
+                "stored tree length must be at least 2"
+            ))
         } 
 
         // read the tree
@@ -176,8 +178,21 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        // CompressData can't be created without data or with more than 7 padding bits
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?;
+        if comp_bytes.is_empty(){
+            return Err(CompressedDataFromBytesError::new(
+                "slice does not contain compressed data"
+            ))
+        }
+        if data_padding_bits > 7{
+            return Err(CompressedDataFromBytesError::new(
+                "stored padding bits cannot be larger than 7"
+            ))
+        }
+
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes.to_vec(), 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From 0e9bb2a0641a054581b88ca8475f3069208bc384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:13 +0000
Subject: [PATCH 04/21] fix: HuffTree::try_from_bin panicked when a letter
 could not be read

An error returned by the letter type's try_from_be_bytes was unwrapped instead
of being reported as a FromBinError.
---
 huff_coding/src/tree/tree_inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..c53db99 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -570,7 +570,12 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
                     // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(
+                        Some(L::try_from_be_bytes(&letter_bytes).map_err(|_| FromBinError::new(
+                            "Provided BitVec stores an invalid letter"
+                        ))?), 
+                        0
+                    ),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From 6541214ff0d521ea3d4e493f8dfd3656392be753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:12 +0000
Subject: [PATCH 05/21] fix: HuffTree::try_from_bin overflowed the stack on
 deeply nested bits

A few thousand consecutive 1s aborted the process (huff -d on such a file as
well). Bits nested deeper than any tree built from nonzero weights could be
are now rejected with a FromBinError.
---
 huff_coding/src/tree/tree_inner.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index c53db99..2f6d302 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -12,6 +12,9 @@ use std::{
     hash::BuildHasher,
 };
 
+/// How deep can the branches of a `HuffTree` read from binary be nested
+/// (a tree built from nonzero `usize` weights is never deeper than 92)
+const MAX_BIN_DEPTH: usize = 1000;
 
 
 /// Struct representing a Huffman Tree with an alphabet of
@@ -523,8 +526,14 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>) -> 
+        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>, depth: usize) -> 
         Result<HuffBranch<L>, FromBinError<L>>{
+            // don't let the bits recurse until the stack overflows
+            if depth > MAX_BIN_DEPTH{
+                return Err(FromBinError::new(
+                    "Provided BitVec is nested too deep for an encoded HuffTree"
+                ))
+            }
             // check whether the bit can be popped at all, if not return Err
             // remove first bit, if its 1 -> joint branch
             if if let Some(bit) = bits.next(){*bit}
@@ -537,8 +546,8 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 let branch = HuffBranch::new(
                     HuffLeaf::new(None, 0),
                     Some(( 
-                        read_branches_from_bits(bits)?, 
-                        read_branches_from_bits(bits)?
+                        read_branches_from_bits(bits, depth + 1)?, 
+                        read_branches_from_bits(bits, depth + 1)?
                     ))
                 );
                 Ok(branch)
@@ -585,7 +594,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         let mut bin = bin;
         // recurse to create root, and set codes for all branches
         let mut bin_iter_mut = bin.iter_mut();
-        let mut root = read_branches_from_bits(&mut bin_iter_mut)?;
+        let mut root = read_branches_from_bits(&mut bin_iter_mut, 0)?;
 
         // return Err if not all bits used
         if bin_iter_mut.next().is_some(){
-- 
2.43.0


From 60a8f1c80a5b67348c9abc79031c04c61f8b6ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 06/21] fix: huff compressed files larger than the block size
 incorrectly

Every block but the first was moved by the number of the previous block's
padding bits instead of by the number of bits used in its last byte, and the
padding left after joining the two was miscounted, so the file could not be
decompressed back into the original.
---
 huff/src/comp.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..9af84b5 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -187,7 +187,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .unwrap()
                 .into_inner();
@@ -196,8 +196,16 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             if prev_padding != 0{
                 writer.seek(SeekFrom::Current(-1)).unwrap();
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
-                comp_bytes[0] |= prev_byte
+                // move the bytes past the bits already used in the prev_byte
+                comp_bytes = utils::offset_bytes(&comp_bytes, 8 - prev_padding as usize);
+                comp_bytes[0] |= prev_byte;
+
+                // remove the last byte if only padding is left in it
+                padding_bits += prev_padding;
+                if padding_bits >= 8{
+                    comp_bytes.pop();
+                    padding_bits -= 8;
+                }
             }
 
             (comp_bytes, padding_bits, huff_tree)
-- 
2.43.0


From 614a69d05ddb86175a8fa5a81c280348b21f790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 07/21] fix: huff -d decompressed the padding bits of a file
 ending with a full block

Padding was minded only in an incomplete last block, so when the length of the
compressed data was a multiple of the block size, the padding bits were
decompressed into additional bytes.
---
 huff/src/comp.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 9af84b5..4aa2a71 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -268,12 +268,16 @@ fn decompress_to_writer<R: Read, W: Write>(
     }
     // try to read exactly buf.len() bytes, decompressing them and writing
     while reader.read_exact(buf).is_ok(){
-        for byte in &buf[..]{
+        *reader_bytes_left -= buf.len();
+        // mind the padding bits if this block ends the file
+        let last_byte = buf.len() - 1;
+        let last_padding = if *reader_bytes_left == 0{padding_bits} else{0};
+        for byte in &buf[..last_byte]{
             read_codes_in_byte!(byte;[0..8]);
         }
+        read_codes_in_byte!(buf[last_byte];[0..8 - last_padding]);
         writer.write_all(&decomp_buf)?;
         decomp_buf.clear();
-        *reader_bytes_left -= buf.len();
     }
     // if couldn't read exactly buf.len() bytes and there are some bytes left, 
     // decompress them minding the padding bits
-- 
2.43.0


From 8d0ee0689b79655f4ad3725099950ff907eef3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:42 +0000
Subject: [PATCH 08/21] fix: huff -d failed on valid files with a block size
 smaller than the header

The header and the tree were read with a single read into the block buffer, so
a block size (or a short read) smaller than either of them was reported as a
file missing header information.
---
 huff/src/comp.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 4aa2a71..2f13a92 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -90,8 +90,9 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut buf = vec![0; block_size];
 
     // read only first 5 bytes
+    let mut header = Vec::new();
     let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
+    let bytes_read = reader.read_to_end(&mut header)?;
     if bytes_read < 5{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
@@ -101,7 +102,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     src_bytes_left -= 5;
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -112,14 +113,15 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
     // read only next tree_len bytes
+    let mut tree_bytes = Vec::new();
     reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
+    let bytes_read = reader.read_to_end(&mut tree_bytes)?;
     if bytes_read < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
@@ -130,10 +132,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
-- 
2.43.0


From ab26f1a8495ee5983edacd9ff88074162e511f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 09/21] fix: huff -d truncated DST_FILE before knowing SRC_FILE
 is a valid hff file

The destination was emptied before the header was read, so trying to decompress
an invalid file destroyed it. A file cut right after its header was decompressed
into an empty file (and removed with -r), now it's an error too.
---
 huff/src/comp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 2f13a92..561a6d4 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -82,10 +82,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let reader = BufReader::new(src);
 
-    // write to dst file
-    let dst = File::create(dst_path)?;
-    let mut writer = BufWriter::new(dst);
-
     // allocate a u8 buffer of size == block_size
     let mut buf = vec![0; block_size];
 
@@ -129,6 +125,13 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
         ))
     }
     src_bytes_left -= tree_len;
+    // a file is never compressed into no bytes at all
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} too short to decompress, missing compressed data", src_path),
+            ErrorKind::MissingHeaderInfo
+        ))
+    }
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
@@ -143,6 +146,10 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
         ))
     };
 
+    // write to dst file
+    let dst = File::create(dst_path)?;
+    let mut writer = BufWriter::new(dst);
+
     // decompress the remaining bytes
     let mut reader = reader.into_inner();
     decompress_to_writer(
-- 
2.43.0


From 19ba46b9dd64aaf7a3cac24c2a1f3431359e0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:07 +0000
Subject: [PATCH 10/21] fix: huff panicked on an empty SRC_FILE after emptying
 DST_FILE

Report an error before the destination is opened instead.
---
 huff/src/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 561a6d4..db9cf0a 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -33,6 +33,13 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    // no HuffTree can be created from an empty file
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} is empty", src_path),
+            ErrorKind::InvalidInput
+        ))
+    }
     let mut reader = BufReader::new(src);
 
     // write to dst file
-- 
2.43.0


From 1b0e851436db976f04d332cc4443734f179f8e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 11/21] fix: huff treated an I/O error while reading SRC_FILE
 as its end

Any error of a block read was taken for the end of the file and the rest of the
buffer, whatever was in it, was compressed or decompressed as the last block,
reporting success (and removing the source with -r). Read exactly as many bytes
as are left and return the error instead.
---
 huff/src/comp.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index db9cf0a..1ef6fcf 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -50,7 +50,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -171,17 +171,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         bw += ByteWeights::threaded_from_bytes(&buf, 12);
         *reader_bytes_left -= buf.len();
     }
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
     }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
@@ -225,7 +227,8 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
         }};
     }
     // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
         writer.write_all(&comp_bytes)?;
         
@@ -237,6 +240,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     }
     // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
         writer.write_all(&comp_bytes)?;
 
@@ -280,7 +284,8 @@ fn decompress_to_writer<R: Read, W: Write>(
         };
     }
     // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         *reader_bytes_left -= buf.len();
         // mind the padding bits if this block ends the file
         let last_byte = buf.len() - 1;
@@ -295,6 +300,7 @@ fn decompress_to_writer<R: Read, W: Write>(
     // if couldn't read exactly buf.len() bytes and there are some bytes left, 
     // decompress them minding the padding bits
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         for byte in &buf[..*reader_bytes_left - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
-- 
2.43.0


From fc367f8b7b9917f8a485ca5d126aad0c6fbfe1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 12/21] fix: huff overflowed while parsing a block size that
 doesn't fit in usize

It panicked in debug builds; in release builds the size wrapped around, and a
size wrapping to 0 made it loop forever. Report an invalid block size instead.
---
 huff/src/cli.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..fbf3594 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        let mult: usize = match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,7 +109,11 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
-        }
+        };
+        num.checked_mul(mult).ok_or_else(|| Error::new(
+            String::from("Invalid block size"), 
+            ErrorKind::InvalidInput
+        ))?
     }};
 }
 
-- 
2.43.0


From 0c3635459d0ae20cf22fdb1b73b522b070c30824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:02 +0000
Subject: [PATCH 13/21] fix: huff aborted when a buffer of the whole block size
 couldn't be allocated

Block size is the upper limit of how many bytes are loaded at one time, so don't
allocate more than the whole source needs.
---
 huff/src/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1ef6fcf..405eb0e 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -46,8 +46,8 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size (or less, if src is smaller than that)
+    let mut buf = vec![0; block_size.min(src_bytes_left.max(1))];
 
     // create a HuffTree from the src file bytes
     let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
@@ -89,8 +89,8 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let reader = BufReader::new(src);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size (or less, if src is smaller than that)
+    let mut buf = vec![0; block_size.min(src_bytes_left.max(1))];
 
     // read only first 5 bytes
     let mut header = Vec::new();
-- 
2.43.0


From ac6c8e61976a8fd9347ad7b6a16046787da8dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 14/21] fix: huff panicked when SRC_FILE didn't end with a file
 name

The file name was unwrapped before checking whether the source is a directory.
---
 huff/src/cli.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index fbf3594..3e60a68 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -23,12 +23,6 @@ pub const EXTENSION: &str = "hff";
 
 macro_rules! parse_paths {
     ($src_path: expr, $dst_path:expr) =>{
-        // copy file name from src if none is provided
-        if $dst_path == Path::new("./SRC_FILE.hff"){
-            $dst_path.set_file_name("");
-            $dst_path.push(Path::new($src_path.file_name().unwrap()));
-        }
-
         // check if src is a file
         if $src_path.is_dir(){
             return Err(Error::new(
@@ -36,6 +30,16 @@ macro_rules! parse_paths {
                 ErrorKind::NotFile
             ))
         }
+
+        // copy file name from src if none is provided
+        if $dst_path == Path::new("./SRC_FILE.hff"){
+            let src_name = $src_path.file_name().ok_or_else(|| Error::new(
+                format!("{:?} is not a file", $src_path), 
+                ErrorKind::NotFile
+            ))?;
+            $dst_path.set_file_name("");
+            $dst_path.push(Path::new(src_name));
+        }
     };
     (comp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From 949a6ab9d92e9eec5f6c1cb5c63f76e7efe302d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 15/21] fix: huff destroyed SRC_FILE when DST_FILE was the same
 file

Opening the destination emptied the source, e.g. with huff -d x.hff x.hff, with
an absolute SRC_FILE from the current directory (the default ./x.hff is then the
source itself) or with a link to the source. Recognize the source by the file
and not by the spelling of its path, and refuse to overwrite it.
---
 huff/src/cli.rs   | 22 +++++++++++++++++-----
 huff/src/utils.rs | 25 +++++++++++++++++++++++++
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 3e60a68..6fa585b 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -1,5 +1,6 @@
 use super::{
     comp,
+    utils,
     error::{
         Error,
         ErrorKind,
@@ -13,10 +14,7 @@ use std::{
         self,
         Write,
     },
-    path::{
-        Path,
-        PathBuf
-    }
+    path::Path,
 };
 
 pub const EXTENSION: &str = "hff";
@@ -66,7 +64,7 @@ macro_rules! parse_paths {
             ))
         }
         // remove the cli::EXTENSION extension if the dst_path is the same as src_path
-        if $dst_path == {let mut p = PathBuf::from("./"); p.push($src_path.clone()); p}{
+        if utils::same_file(&$src_path, &$dst_path){
             $dst_path.set_extension("");
         }
 
@@ -121,6 +119,18 @@ macro_rules! parse_block_size {
     }};
 }
 
+// opening dst would empty src if they were the same file
+macro_rules! check_not_same {
+    ($src_path: expr, $dst_path:expr) => {
+        if utils::same_file(&$src_path, &$dst_path){
+            return Err(Error::new(
+                format!("{:?} and {:?} are the same file", $src_path, $dst_path), 
+                ErrorKind::InvalidInput
+            ))
+        }
+    };
+}
+
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
@@ -148,6 +158,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // the decompress flag is present
     if matches.is_present("decompress"){
         parse_paths!(decomp; src_path, dst_path);
+        check_not_same!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, decompress it, write the results to dst
@@ -156,6 +167,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // if no major flags are present, just compress
     else{
         parse_paths!(comp; src_path, dst_path);
+        check_not_same!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, compress it, write the results to dst
diff --git a/huff/src/utils.rs b/huff/src/utils.rs
index 6459445..ad226f3 100644
--- a/huff/src/utils.rs
+++ b/huff/src/utils.rs
@@ -1,3 +1,28 @@
+use std::{
+    fs,
+    path::Path,
+};
+
+/// Return true if both paths lead to the same existing file
+#[cfg(unix)]
+pub fn same_file(path: &Path, other: &Path) -> bool{
+    use std::os::unix::fs::MetadataExt;
+
+    match (fs::metadata(path), fs::metadata(other)){
+        (Ok(path), Ok(other)) => path.dev() == other.dev() && path.ino() == other.ino(),
+        _ => false,
+    }
+}
+
+/// Return true if both paths lead to the same existing file
+#[cfg(not(unix))]
+pub fn same_file(path: &Path, other: &Path) -> bool{
+    match (fs::canonicalize(path), fs::canonicalize(other)){
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
+
 /// Move the provided bytes to the right by n bits
 pub fn offset_bytes(bytes: &[u8], n: usize) -> Vec<u8>{
     let empty_bytes = n / 8;
-- 
2.43.0


From 63b2d5f1d5bd6b7b712cbfcc49c326b9e344bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 16/21] fix: huff took Y for a no when asking whether to
 replace a file

The prompt offers [Y/N], but only a lowercase y was accepted.
---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 6fa585b..a4a7bda 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -139,7 +139,7 @@ macro_rules! ask_replace {
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.to_lowercase().starts_with('y'){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From d19eb2d2e286f252e118715c1b94c76576a9f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 17/21] fix: huff panicked when an argument was not valid UTF-8

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index a4a7bda..8de96d3 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -150,10 +150,10 @@ macro_rules! ask_replace {
 pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     let start = std::time::Instant::now();
 
-    let src_path = std::path::PathBuf::from(matches.value_of("SRC_FILE").unwrap());
-    let mut dst_path = std::path::PathBuf::from(matches.value_of("DST_FILE").unwrap());
+    let src_path = std::path::PathBuf::from(matches.value_of_os("SRC_FILE").unwrap());
+    let mut dst_path = std::path::PathBuf::from(matches.value_of_os("DST_FILE").unwrap());
     
-    let block_size = parse_block_size!(matches.value_of("block-size").unwrap());
+    let block_size = parse_block_size!(matches.value_of_lossy("block-size").unwrap());
 
     // the decompress flag is present
     if matches.is_present("decompress"){
-- 
2.43.0


From 3c95eecb35ada8c7851fd14d2ca9ad401d78362b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 18/21] fix: huff panicked when a write failed between two
 blocks

---
 huff/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 405eb0e..41d54ef 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -209,7 +209,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
                 // move the bytes past the bits already used in the prev_byte
                 comp_bytes = utils::offset_bytes(&comp_bytes, 8 - prev_padding as usize);
-- 
2.43.0


From 7bcb8e6323fecb07b1ac6d3572478175f8c6d342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 19/21] fix: huff panicked when SRC_FILE's length couldn't be
 read or it couldn't be removed

---
 huff/src/cli.rs  | 2 +-
 huff/src/comp.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 8de96d3..625fb31 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -174,7 +174,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         comp::read_compress_write(&src_path, &dst_path, block_size)?;
     }
     if matches.is_present("replace"){
-        fs::remove_file(src_path).unwrap();
+        fs::remove_file(src_path)?;
     }
 
     if matches.is_present("time"){println!("{:?}", start.elapsed());}
diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 41d54ef..4af9ae1 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -32,7 +32,7 @@ use std::{
 pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     // no HuffTree can be created from an empty file
     if src_bytes_left == 0{
         return Err(Error::new(
@@ -86,7 +86,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
 pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let reader = BufReader::new(src);
 
     // allocate a u8 buffer of size == block_size (or less, if src is smaller than that)
-- 
2.43.0


From 21396aba7ef8bc50689bbed594ee3cc731b69c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 20/21] fix: huff panicked when its standard output couldn't be
 written

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 625fb31..1f0dfd3 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -134,7 +134,7 @@ macro_rules! check_not_same {
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
-            print!("{:?} already exists, do you want to replace it? [Y/N]: ", $path);
+            write!(io::stdout(), "{:?} already exists, do you want to replace it? [Y/N]: ", $path)?;
             io::stdout().flush()?;
 
             let mut yes_no = String::new();
@@ -142,7 +142,7 @@ macro_rules! ask_replace {
             if !yes_no.to_lowercase().starts_with('y'){
                 return Ok(());
             }
-            println!();
+            writeln!(io::stdout())?;
         }
     };
 }
@@ -177,6 +177,6 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         fs::remove_file(src_path)?;
     }
 
-    if matches.is_present("time"){println!("{:?}", start.elapsed());}
+    if matches.is_present("time"){writeln!(io::stdout(), "{:?}", start.elapsed())?;}
     Ok(())
 }
-- 
2.43.0


From 5f4456ecf54af9ebb1728f81c14d92c88a23fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 21/21] fix: huff -d panicked on a source whose length isn't
 known

---
 huff/src/comp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 4af9ae1..be41cb0 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -102,7 +102,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
             ErrorKind::MissingHeaderInfo
         ))
     }
-    src_bytes_left -= 5;
+    src_bytes_left = src_bytes_left.saturating_sub(5);
 
     // read padding info from the first byte
     let padding = header[0];
@@ -131,7 +131,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
             ErrorKind::MissingHeaderInfo
         ))
     }
-    src_bytes_left -= tree_len;
+    src_bytes_left = src_bytes_left.saturating_sub(tree_len);
     // a file is never compressed into no bytes at all
     if src_bytes_left == 0{
         return Err(Error::new(
-- 
2.43.0

