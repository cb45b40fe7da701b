From 2c62ae5b2d360795b1ca6d9c56a8ddc0ab381955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 01/17] fix: ByteWeights iterators yielded byte 0 again after
 the last byte

When byte 255 had no weight the search ran to index 256, which as u8 is 0,
so a present byte 0 came out twice: merged weights counted it twice and
trees built from the iterator held two leaves for it.
---
 huff_coding/src/weights.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..765d0d3 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -401,7 +401,7 @@ pub mod byte_weights{
                 return None
             }
 
-            while self.weights.get(&(self.current_index as u8)).is_none(){
+            while self.current_index == 256 || self.weights.get(&(self.current_index as u8)).is_none(){
                 if self.current_index == 256{
                     return None
                 }
@@ -428,7 +428,7 @@ pub mod byte_weights{
                     return None
                 }
     
-                while self.weights.get(&(self.current_index as u8)).is_none(){
+                while self.current_index == 256 || self.weights.get(&(self.current_index as u8)).is_none(){
                     if self.current_index == 256{
                         return None
                     }
-- 
2.43.0


From 54e78e3b99ad5827dd6345ee6781d66f10e78e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 02/17] fix: compressing more than one block corrupted the data

A block after the first was shifted by the number of padding bits of the
previous byte instead of by the number of bits that byte already holds, and
the padding was not recomputed after the shift.
---
 huff/src/comp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..fbefea8 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -187,17 +187,24 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .unwrap()
                 .into_inner();
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
-                comp_bytes[0] |= prev_byte
+                // the prev_byte already holds 8 - prev_padding bits
+                let offset = 8 - prev_padding as usize;
+                let bit_count = comp_bytes.len() * 8 - padding_bits as usize + offset;
+                comp_bytes = utils::offset_bytes(&comp_bytes, offset);
+                comp_bytes[0] |= prev_byte;
+
+                // drop a last byte left with nothing but padding
+                padding_bits = utils::calc_padding_bits(bit_count);
+                comp_bytes.truncate((bit_count + padding_bits as usize) / 8);
             }
 
             (comp_bytes, padding_bits, huff_tree)
-- 
2.43.0


From 49911ccfac5b1cfdc6c15cff1dcc079ced7e3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 03/17] fix: read errors while compressing were taken for the
 end of the file

A failed read ended the loop and the previous block was compressed again in
place of the unread data, with exit status 0.
---
 huff/src/comp.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index fbefea8..f6a5770 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -32,7 +32,7 @@ use std::{
 pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let mut reader = BufReader::new(src);
 
     // write to dst file
@@ -43,7 +43,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -79,7 +79,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
 pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: usize) -> Result<(), Error>{
     // read from src file
     let src = File::open(src_path)?;
-    let mut src_bytes_left = src.metadata().unwrap().len() as usize;
+    let mut src_bytes_left = src.metadata()?.len() as usize;
     let reader = BufReader::new(src);
 
     // write to dst file
@@ -158,17 +158,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         bw += ByteWeights::threaded_from_bytes(&buf, 12);
         *reader_bytes_left -= buf.len();
     }
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
     }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
@@ -189,7 +191,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             // get and own the compress data
             let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
-                .unwrap()
+                .map_err(|e| Error::new(e.to_string(), ErrorKind::InvalidInput))?
                 .into_inner();
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
@@ -211,7 +213,8 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
         }};
     }
     // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
+    while *reader_bytes_left >= buf.len(){
+        reader.read_exact(buf)?;
         let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
         writer.write_all(&comp_bytes)?;
         
@@ -223,6 +226,7 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     }
     // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
         writer.write_all(&comp_bytes)?;
 
-- 
2.43.0


From 8b1f8aee10ea11fbd695cb7c3f5270519bdbb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:47 +0000
Subject: [PATCH 04/17] fix: decompression ignored read errors and the padding
 of a full last block

A failed read was taken for the end of the file, and when the data filled its
last block exactly the padding bits of the last byte were decoded as letters.
---
 huff/src/comp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index f6a5770..26aec08 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -270,7 +270,9 @@ fn decompress_to_writer<R: Read, W: Write>(
         };
     }
     // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
+    // (the last byte of the file is left for the next step)
+    while *reader_bytes_left > buf.len(){
+        reader.read_exact(buf)?;
         for byte in &buf[..]{
             read_codes_in_byte!(byte;[0..8]);
         }
@@ -281,6 +283,7 @@ fn decompress_to_writer<R: Read, W: Write>(
     // if couldn't read exactly buf.len() bytes and there are some bytes left, 
     // decompress them minding the padding bits
     if *reader_bytes_left > 0{
+        reader.read_exact(&mut buf[..*reader_bytes_left])?;
         for byte in &buf[..*reader_bytes_left - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
-- 
2.43.0


From 3273fe2dfbb059483eb8f06af6be264212f9895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:49 +0000
Subject: [PATCH 05/17] fix: the header could only be read with a big enough
 block and a full read

The header and the tree were read with one read() each into the block buffer,
so valid archives were refused when the block was smaller than them or the
read came back short. They have buffers of their own now, bounded by the size
of the file.
---
 huff/src/comp.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 26aec08..411da32 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -80,7 +80,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata()?.len() as usize;
-    let reader = BufReader::new(src);
+    let mut reader = BufReader::new(src);
 
     // write to dst file
     let dst = File::create(dst_path)?;
@@ -90,18 +90,18 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut buf = vec![0; block_size];
 
     // read only first 5 bytes
-    let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < 5{
+    let mut header = [0; 5];
+    if src_bytes_left < header.len(){
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
-    src_bytes_left -= 5;
+    reader.read_exact(&mut header)?;
+    src_bytes_left -= header.len();
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -112,28 +112,25 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
     // read only next tree_len bytes
-    reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < tree_len{
+    if src_bytes_left < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut tree_bytes = vec![0; tree_len];
+    reader.read_exact(&mut tree_bytes)?;
     src_bytes_left -= tree_len;
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
@@ -145,7 +142,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     };
 
     // decompress the remaining bytes
-    let mut reader = reader.into_inner();
     decompress_to_writer(
         &mut reader, &mut writer, 
         &mut src_bytes_left, &mut buf,
-- 
2.43.0


From 895f4574bbeb5c7d9376e2eea490b3d2353ad57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 06/17] fix: compressing an empty file panicked after
 truncating the destination

---
 huff/src/comp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 411da32..0bc763a 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -33,6 +33,13 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata()?.len() as usize;
+    // a HuffTree can't be built from no bytes
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} is empty", src_path),
+            ErrorKind::InvalidInput
+        ))
+    }
     let mut reader = BufReader::new(src);
 
     // write to dst file
-- 
2.43.0


From caf9ca08c8babbb1a183cbea8f2bc7b471683492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 07/17] fix: a block size too big for usize wrapped around

17179869184Gi was taken for 0 bytes and made the compression loop forever.
---
 huff/src/cli.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..1d46ae8 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        let mult: usize = match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,6 +109,14 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
+        };
+        match num.checked_mul(mult){
+            None =>
+                return Err(Error::new(
+                    String::from("Invalid block size"), 
+                    ErrorKind::InvalidInput
+                )),
+            Some(size) => size,
         }
     }};
 }
-- 
2.43.0


From 9a4309e6838098c28820655381c550d6f3ff684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 08/17] fix: an unreadable destination was overwritten without
 asking

exists() is false when the path cannot be examined, so a failing stat skipped
the question. The question also offers Y, which was taken for a no.
---
 huff/src/cli.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 1d46ae8..1d67cc0 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -123,13 +123,13 @@ macro_rules! parse_block_size {
 
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
-        if $path.exists() && !$noask{
+        if !$noask && $path.try_exists()?{
             print!("{:?} already exists, do you want to replace it? [Y/N]: ", $path);
             io::stdout().flush()?;
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.starts_with(&['y', 'Y'][..]){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From a04feefbb42a8f9c7f8e30f4913403ffc695e446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 09/17] fix: -r removed the source before the destination was
 durable

A power loss after the removal could leave neither. A failing removal
panicked.
---
 huff/src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 1d67cc0..c4b6e52 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -162,7 +162,9 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
         comp::read_compress_write(&src_path, &dst_path, block_size)?;
     }
     if matches.is_present("replace"){
-        fs::remove_file(src_path).unwrap();
+        // the data written to dst has to be safe before src is gone
+        fs::OpenOptions::new().write(true).open(&dst_path)?.sync_all()?;
+        fs::remove_file(src_path)?;
     }
 
     if matches.is_present("time"){println!("{:?}", start.elapsed());}
-- 
2.43.0


From 834d04f1d617eca505f2ca4f435e94c0c4d5ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 10/17] fix: a destination that is the source file destroyed it

Creating the destination truncates it before the source is read, so with the
same path, a hard link or a symbolic link the content was lost.
---
 huff/src/cli.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index c4b6e52..6dcf408 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -121,6 +121,17 @@ macro_rules! parse_block_size {
     }};
 }
 
+macro_rules! check_same_file {
+    ($src_path: expr, $dst_path:expr) => {
+        if is_same_file(&$src_path, &$dst_path)?{
+            return Err(Error::new(
+                format!("{:?} and {:?} are the same file", $src_path, $dst_path),
+                ErrorKind::InvalidInput
+            ))
+        }
+    };
+}
+
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if !$noask && $path.try_exists()?{
@@ -137,6 +148,22 @@ macro_rules! ask_replace {
     };
 }
 
+/// Check whether both paths lead to the same existing file
+fn is_same_file(a: &Path, b: &Path) -> io::Result<bool>{
+    // when any of them does not exist there's nothing to overwrite
+    if !a.try_exists()? || !b.try_exists()?{
+        return Ok(false)
+    }
+    #[cfg(unix)]{
+        use std::os::unix::fs::MetadataExt;
+        let (a, b) = (fs::metadata(a)?, fs::metadata(b)?);
+        Ok(a.dev() == b.dev() && a.ino() == b.ino())
+    }
+    #[cfg(not(unix))]{
+        Ok(fs::canonicalize(a)? == fs::canonicalize(b)?)
+    }
+}
+
 pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     let start = std::time::Instant::now();
 
@@ -148,6 +175,8 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // the decompress flag is present
     if matches.is_present("decompress"){
         parse_paths!(decomp; src_path, dst_path);
+        // creating dst_file would truncate the src_file
+        check_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, decompress it, write the results to dst
@@ -156,6 +185,8 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // if no major flags are present, just compress
     else{
         parse_paths!(comp; src_path, dst_path);
+        // creating dst_file would truncate the src_file
+        check_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, compress it, write the results to dst
-- 
2.43.0


From a581ee8e1e1e2e78927dd87ff8c8757a47a30eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 11/17] fix: CompressData::try_from_bytes panicked on damaged
 bytes

A tree length below 2 is documented to be an error; a padding above 7 and
missing data panicked in CompressData::new.
---
 huff_coding/src/comp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..9405483 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -150,8 +150,11 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .try_into()
             .unwrap()
         ) as usize;
+        if tree_padding_bits > 7 || data_padding_bits > 7{
+            return Err(CompressedDataFromBytesError::new("stored padding is larger than 7"));
+        }
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 2"));
         } 
 
         // read the tree
@@ -176,8 +179,13 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec();
+        if comp_bytes.is_empty(){
+            return Err(CompressedDataFromBytesError::new("slice does not contain compressed data"));
+        }
+
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes, 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From b9449b1d2ba62688d6d87da8b2202bc0b29572be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 12/17] fix: HuffTree::try_from_bin overflowed the stack on a
 run of 1 bits

The recursion was bounded only by the number of bits, so a damaged or forged
tree aborted the process.
---
 huff_coding/src/tree/tree_inner.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..2355764 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -520,11 +520,19 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
     /// [branch]:crate::tree::branch::HuffBranch
     /// [letter_bytes]:crate::tree::letter::HuffLetterAsBytes
     pub fn try_from_bin(bin: BitVec<Msb0, u8>) -> Result<Self, FromBinError<L>>{
+        // deeper than any tree from_weights can build with weights that fit in usize,
+        // shallow enough to never overflow the stack
+        const MAX_DEPTH: usize = 256;
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>) -> 
+        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>, depth: usize) -> 
         Result<HuffBranch<L>, FromBinError<L>>{
+            if depth > MAX_DEPTH{
+                return Err(FromBinError::new(
+                    "Provided BitVec encodes a HuffTree that is too deep"
+                ))
+            }
             // check whether the bit can be popped at all, if not return Err
             // remove first bit, if its 1 -> joint branch
             if if let Some(bit) = bits.next(){*bit}
@@ -537,8 +545,8 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 let branch = HuffBranch::new(
                     HuffLeaf::new(None, 0),
                     Some(( 
-                        read_branches_from_bits(bits)?, 
-                        read_branches_from_bits(bits)?
+                        read_branches_from_bits(bits, depth + 1)?, 
+                        read_branches_from_bits(bits, depth + 1)?
                     ))
                 );
                 Ok(branch)
@@ -580,7 +588,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         let mut bin = bin;
         // recurse to create root, and set codes for all branches
         let mut bin_iter_mut = bin.iter_mut();
-        let mut root = read_branches_from_bits(&mut bin_iter_mut)?;
+        let mut root = read_branches_from_bits(&mut bin_iter_mut, 0)?;
 
         // return Err if not all bits used
         if bin_iter_mut.next().is_some(){
-- 
2.43.0


From 9392e6f9b2049f2b403ec5823745ca50bebd505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 13/17] fix: HuffTree::try_from_bin panicked on bytes that are
 no letter

HuffLetterAsBytes::try_from_be_bytes may refuse them; the error was unwrapped.
---
 huff_coding/src/tree/tree_inner.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index 2355764..4a82414 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -575,10 +575,15 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                     else{bit_ptr -= 1};
                 }
                 
+                // create letter from letter_bytes, return err if they aren't any
+                let letter = L::try_from_be_bytes(&letter_bytes)
+                    .map_err(|_| FromBinError::new(
+                        "Provided BitVec contains an invalid letter"
+                    ))?;
+
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
-                    // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(Some(letter), 0),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From 6ccee4cb23ea282d3b0dd81b9a7511ffc8083d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:50 +0000
Subject: [PATCH 14/17] fix: append .hff to the whole destination name

with_extension drops the final dot of names like "a." (so that a and a.
share an archive) and turns names like "..a" into "..".
---
 huff/src/cli.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 6dcf408..7bd2bd9 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -41,15 +41,13 @@ macro_rules! parse_paths {
         parse_paths!($src_path, $dst_path);
         
         // add cli::EXTENSION to the dst_path
-        $dst_path = $dst_path.with_extension({
-            let mut ex = $dst_path
-                .extension()
-                .unwrap_or(OsStr::new(""))
-                .to_os_string();
-            if !ex.is_empty(){ex.push(".");}
-            ex.push(EXTENSION);
-            ex
-        });
+        // (with_extension would change names like "a." or "..a")
+        if let Some(name) = $dst_path.file_name(){
+            let mut name = name.to_os_string();
+            name.push(".");
+            name.push(EXTENSION);
+            $dst_path.set_file_name(name);
+        }
 
     };
     (decomp; $src_path: expr, $dst_path:expr) =>{
-- 
2.43.0


From 51de067abf93b8843498640b0280f24b45ffa6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 15/17] fix: a huge thread count aborted the counting of bytes

Memory was reserved for as many rations and handles as threads were asked
for, not for as many as there are.
---
 huff_coding/src/utils.rs   | 2 +-
 huff_coding/src/weights.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/huff_coding/src/utils.rs b/huff_coding/src/utils.rs
index 8ce59eb..fe1cfe5 100644
--- a/huff_coding/src/utils.rs
+++ b/huff_coding/src/utils.rs
@@ -8,7 +8,7 @@ pub fn ration_vec<T: Clone>(vec: &[T], ration_count: usize) -> Vec<Vec<T>>{
     let elements_per_ration = elements_left / ration_count;
     let mut current_element = 0;
 
-    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count);
+    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count.min(vec.len()));
     if elements_per_ration == 0{
         rations.push(vec[..].to_vec());
     }
diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 765d0d3..8802470 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -293,6 +293,7 @@ pub mod byte_weights{
         pub fn threaded_from_bytes(bytes: &[u8], thread_num: usize) -> Self{
             // divide the bytes into rations per thread
             let byte_rations = ration_vec(bytes, thread_num);
+            let thread_num = byte_rations.len();
 
             // create ByteWeights from every ration
             let mut handles = Vec::with_capacity(thread_num);
-- 
2.43.0


From e62520c108e4d463a68ce3b5603fa918c816429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 16/17] fix: trees of a thousand letters of weight 0 could not
 be read back

Letters without weight are joined into long branches: the limit on the depth
of a tree read from bits was too low for them.
---
 huff_coding/src/tree/tree_inner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index 4a82414..ee70d44 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -520,9 +520,9 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
     /// [branch]:crate::tree::branch::HuffBranch
     /// [letter_bytes]:crate::tree::letter::HuffLetterAsBytes
     pub fn try_from_bin(bin: BitVec<Msb0, u8>) -> Result<Self, FromBinError<L>>{
-        // deeper than any tree from_weights can build with weights that fit in usize,
-        // shallow enough to never overflow the stack
-        const MAX_DEPTH: usize = 256;
+        // deeper than any tree from_weights can build with weights above 0 that fit in usize
+        // (and with thousands of letters of weight 0), shallow enough to never overflow the stack
+        const MAX_DEPTH: usize = 1024;
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-- 
2.43.0


From ab855b460fd6bf93baa8e0d5621865d99a087083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 17/17] fix: a tree of 512 MiB or more was stored with a
 wrapped length

---
 huff_coding/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 9405483..36eb52e 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -290,7 +290,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         // calculate its lenght in bytes
         let tree_bin = self.huff_tree().as_bin();
         let tree_bin_padding_bits = calc_padding_bits(tree_bin.len());
-        let tree_bytes_len = (tree_bin.len() as u32 + tree_bin_padding_bits as u32) / 8;
+        let tree_bytes_len = ((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32;
 
         let mut bytes = Vec::new();
         // push an empty byte, later to be filled by the padding bit nums
-- 
2.43.0

