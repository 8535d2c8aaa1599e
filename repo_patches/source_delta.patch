From 98a6d47091b214894546be14d6f11571761ff547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:52 +0000
Subject: [PATCH 01/25] fix: refuse absurd image sizes instead of aborting on
 allocation failure

Width and height come straight from the file. A corrupt one could ask for
hundreds of gigabytes, and a failed allocation aborts the whole process where
every other kind of corruption is turned into an error.
---
 src/decoders/arw.rs    |  2 +-
 src/decoders/basics.rs | 15 +++++++++++++--
 src/decoders/cr2.rs    |  4 ++--
 src/decoders/crw.rs    |  2 +-
 src/decoders/dcr.rs    |  2 +-
 src/decoders/dng.rs    |  2 +-
 src/decoders/mos.rs    |  2 +-
 src/decoders/nef.rs    |  2 +-
 src/decoders/orf.rs    |  2 +-
 src/decoders/packed.rs |  4 ++--
 src/decoders/pef.rs    |  2 +-
 src/decoders/raf.rs    |  4 ++--
 src/decoders/srw.rs    |  6 +++---
 src/decoders/tfr.rs    |  3 ++-
 14 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..c237b7a 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -141,7 +141,7 @@ impl<'a> ArwDecoder<'a> {
 
   fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
     let mut pump = BitPumpMSB::new(buf);
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     let mut sum: i32 = 0;
     for x in 0..width {
diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..dbb29d3 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -80,10 +80,21 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
   LittleEndian::read_u16(&buf[pos..pos+2])
 }
 
+// The largest image we're willing to allocate, in samples. The sizes come straight
+// from the file so a corrupt one can ask for more memory than there is.
+const MAX_IMAGE_SAMPLES: usize = 500_000_000;
+
+pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
+  match width.checked_mul(height) {
+    Some(samples) if samples <= MAX_IMAGE_SAMPLES => vec![0; samples],
+    _ => panic!("image is too large: {}x{} samples", width, height),
+  }
+}
+
 pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
   out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {
     closure(line, row);
   });
@@ -93,7 +104,7 @@ pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
 pub fn decode_threaded_multiline<F>(width: usize, height: usize, lines: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
   out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
     closure(line, row*lines);
   });
diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..462c683 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -44,7 +44,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       let mut width = ljpegwidth;
       let mut height = decompressor.height();
       let cpp = if decompressor.super_h() == 2 {3} else {1};
-      let mut ljpegout = vec![0 as u16; width*height];
+      let mut ljpegout = alloc_image(width, height);
       try!(decompressor.decode(&mut ljpegout, 0, width, width, height));
 
       // Linearize the output (applies only to D2000 as far as I can tell)
@@ -87,7 +87,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
-          let mut out = vec![0 as u16; width*height];
+          let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..d05e1a9 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -189,7 +189,7 @@ impl<'a> CrwDecoder<'a> {
   }
 
   fn decode_compressed(&self, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
 
     let dectable = fetch_tag!(self.ciff, CiffTag::DecoderTable).get_usize(0);
     if dectable > 2 {
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..e832d58 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -61,7 +61,7 @@ impl<'a> DcrDecoder<'a> {
   }
 
   fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
     let mut input = ByteStream::new(buf, LITTLE_ENDIAN);
 
     let mut random: u32 = 0;
diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..246fb0e 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -182,7 +182,7 @@ impl<'a> DngDecoder<'a> {
       }
       let offset = offsets.get_usize(0);
       let src = &self.buffer[offset..];
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       let decompressor = try!(LjpegDecompressor::new(src));
       try!(decompressor.decode(&mut out, 0, width, width, height));
       Ok(out)
diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 27ba117..7c957d1 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -89,7 +89,7 @@ impl<'a> MosDecoder<'a> {
     let decompressor = try!(LjpegDecompressor::new_full(src, true, true));
     let ljpegout = try!(decompressor.decode_leaf(width, height));
     if cam.find_hint("interlaced") {
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       for (row,line) in ljpegout.chunks(width).enumerate() {
         let orow = if row & 1 == 1 {height-1-row/2} else {row/2};
         out[orow*width .. (orow+1)*width].copy_from_slice(line);
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..b632b71 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -285,7 +285,7 @@ impl<'a> NefDecoder<'a> {
     }
     let curve = LookupTable::new(&points[0..max]);
 
-    let mut out = vec![0 as u16; width * height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
diff --git a/src/decoders/orf.rs b/src/decoders/orf.rs
index 2ab2802..7ab4d8e 100644
--- a/src/decoders/orf.rs
+++ b/src/decoders/orf.rs
@@ -67,7 +67,7 @@ impl<'a> OrfDecoder<'a> {
    */
 
   pub fn decode_compressed(buf: &'a [u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     /* Build a table to quickly look up "high" value */
     let mut bittable: [u8; 4096] = [0; 4096];
diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..6433b57 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -74,7 +74,7 @@ pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 }
 
 pub fn decode_12be_msb16(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(4).zip(buf.chunks(6)) {
     let g1:  u16 = i[ 0] as u16;
@@ -109,7 +109,7 @@ pub fn decode_12le_16bitaligned(buf: &[u8], width: usize, height: usize) -> Vec<
 }
 
 pub fn decode_12be_msb32(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(8).zip(buf.chunks(12)) {
     let g1:  u16 = i[ 0] as u16;
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..6bd74c5 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -121,7 +121,7 @@ impl<'a> PefDecoder<'a> {
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     for row in 0..height {
       pred_up1[row & 1] += try!(htable.huff_decode(&mut pump));
       pred_up2[row & 1] += try!(htable.huff_decode(&mut pump));
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..0ecc00c 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -109,7 +109,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropheight + cropwidth/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
@@ -124,7 +124,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropwidth + cropheight/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..c29345c 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -74,7 +74,7 @@ impl<'a> Decoder for SrwDecoder<'a> {
 
 impl<'a> SrwDecoder<'a> {
   pub fn decode_srw1(buf: &[u8], loffsets: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     for row in 0..height {
       let mut len: [u32; 4] = [if row < 2 {7} else {4}; 4];
@@ -141,7 +141,7 @@ impl<'a> SrwDecoder<'a> {
   }
 
   pub fn decode_srw2(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
 
     // This format has a variable length encoding of how many bits are needed
     // to encode the difference between pixels, we use a table to process it
@@ -213,7 +213,7 @@ impl<'a> SrwDecoder<'a> {
     // and Loring von Palleske (Samsung) for pointing to the open-source code of
     // Samsung's DNG converter at http://opensource.samsung.com/
 
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB32::new(buf);
 
     // Process the initial metadata bits, we only really use initVal, width and
diff --git a/src/decoders/tfr.rs b/src/decoders/tfr.rs
index 339be38..013bc09 100644
--- a/src/decoders/tfr.rs
+++ b/src/decoders/tfr.rs
@@ -1,5 +1,6 @@
 use decoders::*;
 use decoders::tiff::*;
+use decoders::basics::*;
 use decoders::ljpeg::*;
 use std::f32::NAN;
 
@@ -41,7 +42,7 @@ impl<'a> TfrDecoder<'a> {
   }
 
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     let decompressor = try!(LjpegDecompressor::new_full(src, true, false));
     try!(decompressor.decode(&mut out, 0, width, width, height));
     Ok(out)
-- 
2.43.0


From 7851599c736a85e87ba893f0ca40eed03a4f7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:04 +0000
Subject: [PATCH 02/25] fix: do not reserve more memory for decrypted ARW data
 than the file can fill

---
 src/decoders/arw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index c237b7a..4f11602 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -259,7 +259,7 @@ impl<'a> ArwDecoder<'a> {
       pad[p] = u32::from_be(pad[p]);
     }
 
-    let mut out = Vec::with_capacity(length+4);
+    let mut out = Vec::with_capacity(cmp::min(length, buf.len())+4);
     for i in 0..(length/4+1) {
       let p = i + 127;
       pad[p & 127] = pad[(p+1) & 127] ^ pad[(p+1+64) & 127];
-- 
2.43.0


From a6c92838f08dfe5992cbe89ddb8e128649a2b080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:09 +0000
Subject: [PATCH 03/25] fix: do not loop forever on an MRW block length that
 wraps around

---
 src/decoders/mrw.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..cbc6819 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -21,7 +21,7 @@ pub struct MrwDecoder<'a> {
 
 impl<'a> MrwDecoder<'a> {
   pub fn new(buf: &'a [u8], rawloader: &'a RawLoader) -> MrwDecoder<'a> {
-    let data_offset: usize = (BEu32(buf, 4) + 8) as usize;
+    let data_offset: usize = BEu32(buf, 4) as usize + 8;
     let mut raw_height: usize = 0;
     let mut raw_width: usize = 0;
     let mut packed = false;
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
-- 
2.43.0


From e27c4d07749600531c28a537fdced74ac44d44e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:48 +0000
Subject: [PATCH 04/25] fix: report an error when the end of the output file
 can't be written

The buffered writer was dropped without a flush, so a full disk (or any other
write error) at the end left a truncated file behind and exit status 0.
---
 src/bin/rawloader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index a2feb62..ead3393 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -81,4 +81,8 @@ fn main() {
       error(err.description());
     }
   }
+  // The last of the data is only written now, and dropping f would ignore any error
+  if let Err(err) = f.flush() {
+    error(err.description());
+  }
 }
-- 
2.43.0


From d9282894c34879fc3e4963051b05a090437f1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:59 +0000
Subject: [PATCH 05/25] fix: don't panic out of library calls when stdout can't
 be written

println!() panics when stdout is a closed pipe or a full disk, which turned a
timing message into the loss of the picture.
---
 src/decoders/dcr.rs | 3 ++-
 src/decoders/nef.rs | 3 ++-
 src/imageops/mod.rs | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e832d58..a06afe3 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -1,6 +1,7 @@
 use decoders::*;
 use decoders::tiff::*;
 use decoders::basics::*;
+use std::io::{self, Write};
 use std::f32::NAN;
 use itertools::Itertools;
 use std::cmp;
@@ -72,7 +73,7 @@ impl<'a> DcrDecoder<'a> {
         for (i,val) in buf.iter().enumerate() {
           pred[i & 1] += *val;
           if pred[i & 1] < 0 {
-            println!("Found a negative pixel!");
+            let _ = writeln!(io::stdout(), "Found a negative pixel!");
           }
           out[row*width+col+i] = curve.dither(pred[i & 1] as u16, &mut random);
         }
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index b632b71..28bc6f1 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -3,6 +3,7 @@ use decoders::tiff::*;
 use decoders::basics::*;
 use decoders::ljpeg::huffman::*;
 use itertools::Itertools;
+use std::io::{self, Write};
 use std::f32::NAN;
 
 const NIKON_TREE: [[u8;32];6] = [
@@ -317,7 +318,7 @@ impl<'a> NefDecoder<'a> {
     let inv_wb_r = (1024.0 / coeffs[0]) as i32;
     let inv_wb_b = (1024.0 / coeffs[2]) as i32;
 
-    println!("Got invwb {} {}", inv_wb_r, inv_wb_b);
+    let _ = writeln!(io::stdout(), "Got invwb {} {}", inv_wb_r, inv_wb_b);
 
     Ok(decode_threaded(width*3, height, &(|out: &mut [u16], row| {
       let inb = &src[row*width*3..];
diff --git a/src/imageops/mod.rs b/src/imageops/mod.rs
index 75af0b0..4a7f4ff 100644
--- a/src/imageops/mod.rs
+++ b/src/imageops/mod.rs
@@ -1,5 +1,6 @@
 extern crate rayon;
 use self::rayon::prelude::*;
+use std::io::{self, Write};
 
 pub mod gofloat;
 pub mod demosaic;
@@ -87,7 +88,8 @@ fn do_timing<O, F: FnMut() -> O>(name: &str, mut closure: F) -> O {
   let from_time = time::precise_time_ns();
   let ret = closure();
   let to_time = time::precise_time_ns();
-  println!("{} ms for '{}'", (to_time - from_time)/1000000, name);
+  // Not println!(), that panics when stdout is closed or full
+  let _ = writeln!(io::stdout(), "{} ms for '{}'", (to_time - from_time)/1000000, name);
 
   ret
 }
-- 
2.43.0


From 944985ef8f8da504468788d9938a7859273eba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:38 +0000
Subject: [PATCH 06/25] fix: limit the number of IFDs read from a file

Directories that refer to each other made the parsers read an exponential
number of them, until time or memory ran out.
---
 src/decoders/ciff.rs | 16 +++++++++++++++-
 src/decoders/tiff.rs | 32 +++++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/decoders/ciff.rs b/src/decoders/ciff.rs
index 7ffdde1..0adf52c 100644
--- a/src/decoders/ciff.rs
+++ b/src/decoders/ciff.rs
@@ -21,6 +21,10 @@ pub enum CiffTag {
 }
 }
 
+// IFDs can refer to each other in any way so limit how many we read in total,
+// the depth alone still allows for an exponential number of them
+const MAX_IFDS: usize = 100;
+
 fn ct (tag: CiffTag) -> u16 {
   tag as u16
 }
@@ -52,9 +56,19 @@ impl<'a> CiffIFD<'a> {
   }
 
   pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD<'a>, String> {
+    let mut left = MAX_IFDS;
+    CiffIFD::new_limited(buf, start, end, depth, &mut left)
+  }
+
+  fn new_limited(buf: &'a[u8], start: usize, end: usize, depth: u32, left: &mut usize) -> Result<CiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if *left == 0 {
+      return Err("too many IFDs".to_string())
+    }
+    *left -= 1;
+
     let valuedata_size = LEu32(buf, end-4) as usize;
     let dircount = LEu16(buf, start+valuedata_size) as usize;
 
@@ -63,7 +77,7 @@ impl<'a> CiffIFD<'a> {
       let e = try!(CiffEntry::new(buf, start, entry_offset));
       if e.typ == 0x2800 || e.typ == 0x3000 { // SubIFDs
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1);
+          let ifd = CiffIFD::new_limited(buf, e.data_offset, e.data_offset+e.bytesize, depth+1, left);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(e.tag, e);}, // Ignore unparsable IFDs
diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..44e9d84 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -97,6 +97,10 @@ pub enum Tag {
                           // 0-1-2-3-4-5-6-7-8-9-10-11-12-13
 const DATASHIFTS: [u8;14] = [0,0,0,1,2,3,0,0,1,2, 3, 2, 3, 2];
 
+// IFDs can refer to each other in any way so limit how many we read in total,
+// the depth alone still allows for an exponential number of them
+const MAX_IFDS: usize = 1000;
+
 fn t (tag: Tag) -> u16 {
   tag as u16
 }
@@ -170,8 +174,9 @@ impl<'a> TiffIFD<'a> {
       x => {return Err(format!("TIFF: don't know marker 0x{:x}", x).to_string())},
     };
     let mut nextifd = endian.ru32(buf, offset+4) as usize;
+    let mut left = MAX_IFDS;
     for _ in 0..100 { // Never read more than 100 IFDs
-      let ifd = try!(TiffIFD::new(&buf[offset..], nextifd, 0, offset, 0, endian));
+      let ifd = try!(TiffIFD::new_limited(&buf[offset..], nextifd, 0, offset, 0, endian, &mut left));
       nextifd = ifd.nextifd;
       subifds.push(ifd);
       if nextifd == 0 {
@@ -189,9 +194,19 @@ impl<'a> TiffIFD<'a> {
   }
 
   pub fn new(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+    let mut left = MAX_IFDS;
+    TiffIFD::new_limited(buf, offset, base_offset, start_offset, depth, e, &mut left)
+  }
+
+  fn new_limited(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian, left: &mut usize) -> Result<TiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
+    if *left == 0 {
+      return Err("too many IFDs".to_string())
+    }
+    *left -= 1;
+
     let num = e.ru16(buf, offset); // Directory entries in this IFD
     if num > 4000 {
       return Err(format!("too many entries in IFD ({})", num).to_string())
@@ -211,7 +226,10 @@ impl<'a> TiffIFD<'a> {
       || entry.tag == t(Tag::KdcIFD) {
         if depth < 10 { // Avoid infinite looping IFDs
           for i in 0..entry.count {
-            let ifd = TiffIFD::new(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e);
+            if *left == 0 {
+              break
+            }
+            let ifd = TiffIFD::new_limited(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e, left);
             match ifd {
               Ok(val) => {subifds.push(val);},
               Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -220,7 +238,7 @@ impl<'a> TiffIFD<'a> {
         }
       } else if entry.tag == t(Tag::Makernote) {
         if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e);
+          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e, left);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -240,7 +258,7 @@ impl<'a> TiffIFD<'a> {
     })
   }
 
-  pub fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+  fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian, left: &mut usize) -> Result<TiffIFD<'a>, String> {
     let mut off = 0;
     let data = &buf[offset..];
     let mut endian = e;
@@ -267,13 +285,13 @@ impl<'a> TiffIFD<'a> {
     if data[0..6] == b"PENTAX"[..] {
       off += 8;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[offset..], 10, base_offset, 0, depth, endian)
+      return TiffIFD::new_limited(&buf[offset..], 10, base_offset, 0, depth, endian, left)
     }
 
     if data[0..7] == b"Nikon\0\x02"[..] {
       off += 10;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[off+offset..], 8, base_offset, 0, depth, endian)
+      return TiffIFD::new_limited(&buf[off+offset..], 8, base_offset, 0, depth, endian, left)
     }
 
     // Some have MM or II to indicate endianness - read that
@@ -285,7 +303,7 @@ impl<'a> TiffIFD<'a> {
       endian = BIG_ENDIAN;
     }
 
-    TiffIFD::new(buf, offset+off, base_offset, 0, depth, endian)
+    TiffIFD::new_limited(buf, offset+off, base_offset, 0, depth, endian, left)
   }
 
   pub fn new_fuji(buf: &'a[u8], offset: usize) -> Result<TiffIFD<'a>, String> {
-- 
2.43.0


From 64a34932170b9262238329afff0bfed87d750ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 07/25] fix: take the third sample of 10 bit data from the
 right bytes

decode_10le combined the low bits of the third byte with the high bits of
the same byte, so every third sample of four in 10 bit DNGs was wrong.
---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 6433b57..df180b1 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From 1c9b22929a9c6bb06af03d3e0e6797613d29253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 08/25] fix: read 16 bit DNGs in the byte order of the file

Uncompressed 16 bit samples of big endian DNGs came out byte swapped.
---
 src/decoders/dng.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 246fb0e..e5db3f8 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,11 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => if self.tiff.little_endian() {
+        Ok(decode_16le(src, width, height))
+      } else {
+        Ok(decode_16be(src, width, height))
+      },
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0


From 58bc14d6cae16326f174c8c31c82d23e4684b815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 09/25] fix: stay in the block when reading split panasonic
 data

Values that cross the point where the halves of a block are joined took
their high bits from the following block instead of the start of their own.
---
 src/decoders/rw2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..f659d9d 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -155,7 +155,9 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    // In split blocks the last byte of the block is followed by the first one
+    let block = &self.buffer[self.pos - 0x4000..];
+    let bits = block[byte as usize] as u32 | (block[((byte + 1) % 0x4000) as usize] as u32) << 8;
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From d586c2ebcd94a428481030280c888cc261e51edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 10/25] fix: clamp values that are too large to the largest
 value

clampbits returned -1 for values with too many bits, which is only right for
16 bits. sNEFs with a saturated color made the decoder index its curve with
65535 and panic, and colors above 32767 came out as 65535: these files use
the full 16 bits.
---
 src/decoders/basics.rs | 2 +-
 src/decoders/nef.rs    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index dbb29d3..9af5903 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -10,7 +10,7 @@ pub use decoders::pumps::*;
 pub fn clampbits(val: i32, bits: u32) -> i32 {
   let temp = val >> bits;
   if temp != 0 {
-    !temp >> (32-bits)
+    ((!temp as u32) >> (32-bits)) as i32
   } else {
     val
   }
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 28bc6f1..0b29f35 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -340,17 +340,17 @@ impl<'a> NefDecoder<'a> {
         let g = SNEF_CURVE.dither(clampbits((y1 - 0.337633 * cb - 0.698001 * cr) as i32, 12) as u16, &mut random);
         let b = SNEF_CURVE.dither(clampbits((y1 + 1.732446 * cb) as i32, 12) as u16, &mut random);
         // invert the white balance
-        o[0] = clampbits((inv_wb_r * r as i32 + (1<<9)) >> 10, 15) as u16;
+        o[0] = clampbits((inv_wb_r * r as i32 + (1<<9)) >> 10, 16) as u16;
         o[1] = g;
-        o[2] = clampbits((inv_wb_b * b as i32 + (1<<9)) >> 10, 15) as u16;
+        o[2] = clampbits((inv_wb_b * b as i32 + (1<<9)) >> 10, 16) as u16;
 
         let r = SNEF_CURVE.dither(clampbits((y2 + 1.370705 * cr) as i32, 12) as u16, &mut random);
         let g = SNEF_CURVE.dither(clampbits((y2 - 0.337633 * cb - 0.698001 * cr) as i32, 12) as u16, &mut random);
         let b = SNEF_CURVE.dither(clampbits((y2 + 1.732446 * cb) as i32, 12) as u16, &mut random);
         // invert the white balance
-        o[3] = clampbits((inv_wb_r * r as i32 + (1<<9)) >> 10, 15) as u16;
+        o[3] = clampbits((inv_wb_r * r as i32 + (1<<9)) >> 10, 16) as u16;
         o[4] = g;
-        o[5] = clampbits((inv_wb_b * b as i32 + (1<<9)) >> 10, 15) as u16;
+        o[5] = clampbits((inv_wb_b * b as i32 + (1<<9)) >> 10, 16) as u16;
       }
     })))
   }
-- 
2.43.0


From 8abf58359e83f21e4023b10dc8f339d789578542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 11/25] fix: do not wrap around at the ends of dithered lookup
 tables

Where a table is steep near 0 the lower bound of a value wrapped to nearly
65535, and values close to 65535 wrapped to nearly 0.
---
 src/decoders/basics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 9af5903..e0d1763 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -123,8 +123,9 @@ impl LookupTable {
       let center = table[i];
       let lower = if i > 0 {table[i-1]} else {center};
       let upper = if i < (table.len()-1) {table[i+1]} else {center};
-      let base = if center == 0 {0} else {center - ((upper - lower + 2) / 4)};
-      let delta = upper - lower;
+      let diff = upper as i32 - lower as i32;
+      let base = if center == 0 {0} else {clampbits(center as i32 - ((diff + 2) / 4), 16) as u16};
+      let delta = clampbits(diff, 16) as u16;
       tbl[i] = (center, base, delta);
     }
     LookupTable {
@@ -143,6 +144,6 @@ impl LookupTable {
     let delta = sdelta as u32;
     let pixel = base + ((delta * (*rand & 2047) + 1024) >> 12);
     *rand = 15700 * (*rand & 65535) + (*rand >> 16);
-    pixel as u16
+    clampbits(pixel as i32, 16) as u16
   }
 }
-- 
2.43.0


From 9eabf83d2b2689298b5067525822cd7ff4e84d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 12/25] fix: read full colour pixels at their own place when
 converting to float

The row offset counted pixels where the data has three samples each, so
every line of an RGB image was taken from a third of its position.
---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From f98b28ee1fdcca5eba5bb32831e037ab912c4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 13/25] fix: step through rows by the vertical scale and
 columns by the horizontal one

The two were swapped when scaling down, which for sizes that do not keep
the ratio exactly (all small ones) cut off or repeated part of the picture.
---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From 943061a06febba64e0ee2a73cabd04c1b9b1fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 14/25] fix: never scale a side of the picture down to nothing

A picture much longer than wide gave a width or height of zero, and with it
a panic when its lines were processed.
---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From 944cc689be49dce8e1fd78cc09bbf60794b6abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:58 +0000
Subject: [PATCH 15/25] fix: add up the black areas in double precision

A single precision sum stops being exact after a few thousand samples, and
the black areas of real images have hundreds of thousands.
---
 src/decoders/image.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..ac48ed0 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,19 +64,19 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      let mut avg = [0 as f64; 4];
+      let mut count = [0 as f64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
-- 
2.43.0


From b17eb606d5bdf1c9c916105a05d33a0961e756b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:27 +0000
Subject: [PATCH 16/25] fix: look at whole codes only when decoding a
 difference of 32768

The fast table took any bits that start like the code of that difference
for it when the code is longer than the table's index, and with the DNG
bug skipped 16 bits that may not have been read yet.
---
 src/decoders/ljpeg/huffman.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..94759ff 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -235,8 +235,9 @@ impl HuffTable {
       }
 
       if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
+        // The whole code, and the extra bits of the DNG bug, need to be in the input
+        self.bigtable[i] = if self.dng_bug || l > BIG_TABLE_BITS {
+          0xff
         } else {
           (-(32768 << 8)) | l as i32
         };
-- 
2.43.0


From b1d87a23877747fb1904362ae6a1771b13ed8aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:25 +0000
Subject: [PATCH 17/25] fix: put the black levels of Pentax files in RGBE order

The file has them in RGGB order so blue got the level of the second green.
---
 src/decoders/pef.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 6bd74c5..c24cc67 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -52,8 +52,9 @@ impl<'a> PefDecoder<'a> {
   fn get_blacklevels(&self) -> Option<[u16;4]> {
     match self.tiff.find_entry(Tag::PefBlackLevels) {
       Some(levels) => {
+        // The levels are in RGGB order like the whitebalance
         Some([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-             levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+             levels.get_f32(3) as u16,levels.get_f32(2) as u16])
       },
       None => None,
     }
-- 
2.43.0


From 56309d651c885fc5a1769a574718277ad30a4d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:23 +0000
Subject: [PATCH 18/25] fix: read the levels of DNGs for each color and
 component

The black levels are in the order of the CFA pattern, and of the components in
RGB images, so they can't be used as is for the colors. RGB images also have
a white level for each component.
---
 src/decoders/dng.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index e5db3f8..361832e 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -61,6 +61,8 @@ impl<'a> Decoder for DngDecoder<'a> {
       }
     };
 
+    let cfa = if linear {CFA::new("")} else {try!(self.get_cfa(raw))};
+
     Ok(RawImage {
       make: make,
       model: model,
@@ -71,10 +73,10 @@ impl<'a> Decoder for DngDecoder<'a> {
       cpp: cpp,
       wb_coeffs: try!(self.get_wb()),
       data: image,
-      blacklevels: try!(self.get_blacklevels(raw)),
+      blacklevels: try!(self.get_blacklevels(raw, &cfa)),
       whitelevels: try!(self.get_whitelevels(raw)),
       xyz_to_cam: try!(self.get_color_matrix()),
-      cfa: if linear {CFA::new("")} else {try!(self.get_cfa(raw))},
+      cfa: cfa,
       crops: try!(self.get_crops(raw, width, height)),
       orientation: orientation,
     })
@@ -90,14 +92,24 @@ impl<'a> DngDecoder<'a> {
     }
   }
 
-  fn get_blacklevels(&self, raw: &TiffIFD) -> Result<[u16;4], String> {
+  fn get_blacklevels(&self, raw: &TiffIFD, cfa: &CFA) -> Result<[u16;4], String> {
     if let Some(levels) = raw.find_entry(Tag::BlackLevels) {
-      if levels.count() < 4 {
+      if levels.count() < 3 {
         let black = levels.get_f32(0) as u16;
         Ok([black, black, black, black])
-      } else {
+      } else if levels.count() == 3 { // One for each component of an RGB image
         Ok([levels.get_f32(0) as u16,levels.get_f32(1) as u16,
-            levels.get_f32(2) as u16,levels.get_f32(3) as u16])
+            levels.get_f32(2) as u16,levels.get_f32(2) as u16])
+      } else {
+        let mut blacks = [levels.get_f32(0) as u16,levels.get_f32(1) as u16,
+                          levels.get_f32(2) as u16,levels.get_f32(3) as u16];
+        if cfa.width == 2 && cfa.height == 2 {
+          // The levels are in the order of the pattern but we need them in RGBE order
+          for i in (0..4).rev() {
+            blacks[cfa.color_at(i/2, i%2)] = levels.get_f32(i) as u16;
+          }
+        }
+        Ok(blacks)
       }
     } else {
       Ok([0,0,0,0])
@@ -105,8 +117,14 @@ impl<'a> DngDecoder<'a> {
   }
 
   fn get_whitelevels(&self, raw: &TiffIFD) -> Result<[u16;4], String> {
-    let level = fetch_tag!(raw, Tag::WhiteLevel).get_u32(0) as u16;
-    Ok([level,level,level,level])
+    let levels = fetch_tag!(raw, Tag::WhiteLevel);
+    if levels.count() == 3 { // One for each component of an RGB image
+      Ok([levels.get_u32(0) as u16,levels.get_u32(1) as u16,
+          levels.get_u32(2) as u16,levels.get_u32(2) as u16])
+    } else {
+      let level = levels.get_u32(0) as u16;
+      Ok([level,level,level,level])
+    }
   }
 
   fn get_cfa(&self, raw: &TiffIFD) -> Result<CFA,String> {
-- 
2.43.0


From c1862e8a28ede68f548f71d5fcc8faf88dba451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:01 +0000
Subject: [PATCH 19/25] fix: place the CFA pattern of DNGs at the active area

The pattern in the file starts at the active area, whereas the one of a RawImage
starts at the edge of the image, so all the colors were wrong when the active
area starts at an odd row or column.
---
 src/decoders/dng.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 361832e..33ae5fe 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -62,6 +62,7 @@ impl<'a> Decoder for DngDecoder<'a> {
     };
 
     let cfa = if linear {CFA::new("")} else {try!(self.get_cfa(raw))};
+    let crops = try!(self.get_crops(raw, width, height));
 
     Ok(RawImage {
       make: make,
@@ -76,8 +77,13 @@ impl<'a> Decoder for DngDecoder<'a> {
       blacklevels: try!(self.get_blacklevels(raw, &cfa)),
       whitelevels: try!(self.get_whitelevels(raw)),
       xyz_to_cam: try!(self.get_color_matrix()),
-      cfa: cfa,
-      crops: try!(self.get_crops(raw, width, height)),
+      // The pattern starts at the active area but ours starts at the edge of the image
+      cfa: if cfa.is_valid() && (crops[3] % cfa.width != 0 || crops[0] % cfa.height != 0) {
+        cfa.shift(cfa.width - crops[3] % cfa.width, cfa.height - crops[0] % cfa.height)
+      } else {
+        cfa
+      },
+      crops: crops,
       orientation: orientation,
     })
   }
-- 
2.43.0


From 8ec7f5417568ad64d145f96c2488f85fc6ea9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 20/25] fix: keep the scale of SRW differences for 64 pixels

---
 src/decoders/srw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index c29345c..92b44ed 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -282,7 +282,8 @@ impl<'a> SrwDecoder<'a> {
             pump.get_bits(12) as i32
           }
         } else {
-          0
+          // It only changes every 64 pixels
+          scale
         };
 
         // First we figure out which reference pixels mode we're in
-- 
2.43.0


From 61c233773a1de917ff168a66fb5a2e6c721c6a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 21/25] fix: report IFDs outside of the file instead of
 panicking

---
 src/decoders/tiff.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 44e9d84..2843670 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -207,6 +207,9 @@ impl<'a> TiffIFD<'a> {
     }
     *left -= 1;
 
+    if offset + 2 > buf.len() {
+      return Err(format!("IFD at {} is outside of the file", offset).to_string())
+    }
     let num = e.ru16(buf, offset); // Directory entries in this IFD
     if num > 4000 {
       return Err(format!("too many entries in IFD ({})", num).to_string())
-- 
2.43.0


From df78d17d8dbf1883feb9aaa56424f8361d7a869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 22/25] fix: refuse images without samples instead of going
 through their rows

---
 src/decoders/basics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index e0d1763..034fc96 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -81,13 +81,14 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
 }
 
 // The largest image we're willing to allocate, in samples. The sizes come straight
-// from the file so a corrupt one can ask for more memory than there is.
+// from the file so a corrupt one can ask for more memory than there is, or for
+// billions of rows with nothing in them.
 const MAX_IMAGE_SAMPLES: usize = 500_000_000;
 
 pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
   match width.checked_mul(height) {
-    Some(samples) if samples <= MAX_IMAGE_SAMPLES => vec![0; samples],
-    _ => panic!("image is too large: {}x{} samples", width, height),
+    Some(samples) if samples > 0 && samples <= MAX_IMAGE_SAMPLES => vec![0; samples],
+    _ => panic!("image is empty or too large: {}x{} samples", width, height),
   }
 }
 
-- 
2.43.0


From 3ba5ebea255e1512f139ed7cfb70999ba04df883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:59 +0000
Subject: [PATCH 23/25] fix: give an error instead of panicking for images
 smaller than their crops

---
 src/decoders/image.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index ac48ed0..ae14388 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -218,6 +218,15 @@ impl RawImage {
     out
   }
 
+  // The crops are meant for images of the size the camera makes, a corrupt file can
+  // give one that has nothing left after them
+  fn check_crops(&self) -> Result<(),String> {
+    if self.width <= self.crops[1] + self.crops[3] || self.height <= self.crops[0] + self.crops[2] {
+      return Err(format!("image of {}x{} is too small for crops of {:?}", self.width, self.height, self.crops))
+    }
+    Ok(())
+  }
+
   /// Convert the image to a sRGB image by doing a demosaic and applying levels,
   /// whitebalance, a base curve, color conversions and gamma.
   ///
@@ -226,6 +235,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -243,6 +253,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_srgb(&self, maxwidth: usize, maxheight: usize) -> Result<SRGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
     let mut image = vec![0 as u8; buffer.width*buffer.height*3];
     for (o, i) in image.chunks_mut(1).zip(buffer.data.iter()) {
@@ -264,6 +275,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_linear_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode_linear(self, maxwidth, maxheight);
 
     Ok(RGBImage{
-- 
2.43.0


From 73c20f9a194994db9db9e6074bf006281e95bca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:59 +0000
Subject: [PATCH 24/25] fix: keep the crops of DNGs inside of the image

---
 src/decoders/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 33ae5fe..7d1c081 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -140,8 +140,9 @@ impl<'a> DngDecoder<'a> {
 
   fn get_crops(&self, raw: &TiffIFD, width: usize, height: usize) -> Result<[usize;4],String> {
     if let Some(crops) = raw.find_entry(Tag::ActiveArea) {
-      Ok([crops.get_usize(0), width - crops.get_usize(3),
-          height - crops.get_usize(2), crops.get_usize(1)])
+      // A corrupt active area can end outside of the image
+      Ok([crops.get_usize(0), width.saturating_sub(crops.get_usize(3)),
+          height.saturating_sub(crops.get_usize(2)), crops.get_usize(1)])
     } else {
       // Ignore missing crops, at least some pentax DNGs don't have it
       Ok([0,0,0,0])
-- 
2.43.0


From 59c3d9c535840d713cffe88bc6c86e0f532339c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:31 +0000
Subject: [PATCH 25/25] fix: refuse sRAW images whose size isn't that of their
 data

---
 src/decoders/cr2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 462c683..76b14e5 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,11 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    // The size an sRAW file gives can differ from that of the data, if it's corrupt
+    if width.checked_mul(height) != Some(image.len()) {
+      return Err(format!("CR2: {} samples in an image of {}x{}", image.len(), width, height).to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0

