From dbe0604b29982ec2bfec80173da3f5989147aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 001/180] fix: zune-inflate: keep the input position exact
 after a stored block near the end of input

---
 crates/zune-inflate/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 4a074bf..495abea 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -636,8 +636,11 @@ impl<'a> DeflateDecoder<'a> {
                 dest_offset += len;
 
                 // get the new position to write.
-                self.stream.position =
-                    len + (self.stream.position - usize::from(self.stream.bits_left >> 3));
+                //
+                // `start` already accounts for the zero bytes appended when the bit-buffer
+                // was refilled past the end of input, those bytes were not consumed, so forget them.
+                self.stream.position = start - self.position + len;
+                self.stream.over_read = 0;
 
                 self.stream.reset();
 
-- 
2.43.0


From 5cba947b7f7f39d82bac7387252a33857c451f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 002/180] fix: zune-inflate: refill before decoding an offset
 when too few bits are left

---
 crates/zune-inflate/src/decoder.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 495abea..00b0954 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -849,6 +849,14 @@ impl<'a> DeflateDecoder<'a> {
 
                         length += (saved_bitbuf & mask) as usize >> ((entry_dup >> 8) as u8);
 
+                        // a literal followed by a length with long codes can leave us with less
+                        // than the 28 bits (15 code + 13 extra bits) an offset may need
+                        if self.stream.bits_left < 28 {
+                            self.stream.refill();
+                            entry =
+                                offset_decode_table[self.stream.peek_bits::<OFFSET_TABLEBITS>()];
+                        }
+
                         // offset requires a subtable
                         if (entry & HUFFDEC_EXCEPTIONAL) != 0 {
                             self.stream.drop_bits(OFFSET_TABLEBITS as u8);
-- 
2.43.0


From b888ee2ac9ccfd5253303f4b258eb81f9bb717b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 003/180] fix: zune-inflate: refuse code-length repeats running
 past the last code

---
 crates/zune-inflate/src/decoder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 00b0954..daaea51 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -1290,6 +1290,10 @@ impl<'a> DeflateDecoder<'a> {
                     break;
                 }
             }
+            // a repeat code must not run past the last code length
+            if i != num_litlen_syms + num_offset_syms {
+                return Err(DecodeErrorStatus::CorruptData);
+            }
         } else if block_type == DEFLATE_BLOCKTYPE_STATIC {
             if self.static_codes_loaded {
                 return Ok(());
-- 
2.43.0


From 3a78872b8b8e85afa1005cc1341cffaa9dc1ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 004/180] fix: zune-inflate: apply the output limit to literal
 runs

---
 crates/zune-inflate/src/decoder.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index daaea51..3af95c0 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -702,6 +702,18 @@ impl<'a> DeflateDecoder<'a> {
                         // Resize the output vector here to ensure we can always have
                         // enough space for sloppy copies
                         if dest_offset + FASTLOOP_MAX_BYTES_WRITTEN > out_block.len() {
+                            // literals do not pass through the check done after every match
+                            if dest_offset > self.options.limit {
+                                out_block.truncate(dest_offset);
+
+                                let err_msg = DecodeErrorStatus::OutputLimitExceeded(
+                                    self.options.limit,
+                                    dest_offset
+                                );
+                                let error = InflateDecodeErrors::new(err_msg, out_block);
+
+                                return Err(error);
+                            }
                             let curr_len = out_block.len();
                             out_block.resize(curr_len + FASTLOOP_MAX_BYTES_WRITTEN + RESIZE_BY, 0)
                         }
-- 
2.43.0


From b96d5b551eab41837e8f6dbc63be9885af9ac32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 005/180] fix: zune-png: compare 16-bit transparency keys in
 the byte order of the samples

---
 crates/zune-png/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index 1633e4d..e844ddc 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -135,7 +135,7 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
     if SIXTEEN_BITS {
         match color {
             PngColor::Luma => {
-                let trns_byte = trns_bytes[0].to_ne_bytes();
+                let trns_byte = trns_bytes[0].to_be_bytes();
 
                 for (in_chunk, chunk) in input.chunks_exact(2).zip(out.chunks_exact_mut(4)) {
                     chunk[..2].copy_from_slice(in_chunk);
@@ -150,9 +150,9 @@ pub fn expand_trns<const SIXTEEN_BITS: bool>(
                 }
             }
             PngColor::RGB => {
-                let r = trns_bytes[0].to_ne_bytes();
-                let g = trns_bytes[1].to_ne_bytes();
-                let b = trns_bytes[2].to_ne_bytes();
+                let r = trns_bytes[0].to_be_bytes();
+                let g = trns_bytes[1].to_be_bytes();
+                let b = trns_bytes[2].to_be_bytes();
 
                 // copy all trns chunks into one big vector
                 let mut all: [u8; 6] = [0; 6];
-- 
2.43.0


From 3d77a1d2b0b80359e8f3e15f33a1365fef509278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 006/180] fix: zune-png: do not overwrite tRNS transparency
 when adding an alpha channel

---
 crates/zune-png/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index cf55eb3..923e7bc 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1165,7 +1165,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         // Normal expansion
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     // the image is a normal RGB/ Luma image, which we need to add the alpha channel
                     // do it here
                     add_alpha(
@@ -1255,7 +1255,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     } else {
                         expand_palette(&self.previous_stride, to_filter_row, plte_entry, 3);
                     }
-                } else if add_alpha_channel {
+                } else if add_alpha_channel && !self.seen_trns {
                     add_alpha(
                         &self.previous_stride,
                         to_filter_row,
-- 
2.43.0


From bb6a6ecca97b99f32ed7e4b8aef0b1152cf52fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 007/180] fix: zune-png: add the alpha channel to the last row
 of images below 8 bits too

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 923e7bc..2e15e86 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -1183,7 +1183,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 let to_filter_row = &mut out[(i - 1) * out_chunk_size..i * out_chunk_size];
 
                 // check if we will run any other transform
-                let extra_transform = self.seen_ptle | self.seen_trns;
+                let extra_transform = self.seen_ptle | self.seen_trns | add_alpha_channel;
 
                 if info.depth < 8 {
                     if extra_transform {
-- 
2.43.0


From 898eadeb22be3ce6cebf871c85c58fbb12a27004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 008/180] fix: zune-png: strip 16-bit samples to their high
 byte whatever the configured byte order

---
 crates/zune-png/src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 2e15e86..7337fd8 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -659,7 +659,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         }
 
         // convert to set endian if need be
-        if self.depth().unwrap() == BitDepth::Sixteen {
+        // (when stripping to 8 bits the caller takes the first, most significant, byte)
+        if self.depth().unwrap() == BitDepth::Sixteen && !self.options.png_get_strip_to_8bit() {
             convert_be_to_target_endian_u16(out, self.byte_endian(), self.options.use_sse41());
         }
         // one more frame decoded
-- 
2.43.0


From 1f2aa10ed03e88271dcac1bf2d17502fdd3418f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 009/180] fix: zune-png: size stripped 16-bit output by the
 frame, and fail instead of panicking when no frame is left

---
 crates/zune-png/src/decoder.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 7337fd8..bb33d25 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -171,8 +171,7 @@ pub struct PngDecoder<T> {
     pub(crate) seen_headers:            bool,
     pub(crate) seen_trns:               bool,
     pub(crate) seen_iend:               bool,
-    pub(crate) current_frame:           usize,
-    pub(crate) called_from_decode_into: bool
+    pub(crate) current_frame:           usize
 }
 
 impl<T: ZByteReaderTrait> PngDecoder<T> {
@@ -216,8 +215,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             seen_headers:            false,
             seen_iend:               false,
             trns_bytes:              [0; 4],
-            current_frame:           0,
-            called_from_decode_into: true
+            current_frame:           0
         }
     }
 
@@ -590,17 +588,17 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         self.decode_headers()?;
 
         // in case we are to decode from 16 bit to 8 bit, allocate separate and decode
-        if self.called_from_decode_into
-            && self.png_info.depth == 16
-            && self.options.png_get_strip_to_8bit()
-        {
-            let image_len = self.output_buffer_size().unwrap();
+        if self.png_info.depth == 16 && self.options.png_get_strip_to_8bit() {
+            let inner_len = self
+                .inner_buffer_size()
+                .ok_or(PngDecodeErrors::GenericStatic("No more frames"))?;
+            let image_len = inner_len / 2;
 
             if out.len() < image_len {
                 return Err(PngDecodeErrors::TooSmallOutput(image_len, out.len()));
             }
             // allocate new size
-            let mut temp_alloc = vec![0; self.inner_buffer_size().unwrap()];
+            let mut temp_alloc = vec![0; inner_len];
             self.decode_into_inner(&mut temp_alloc)?;
 
             let out = &mut out[..image_len];
@@ -683,14 +681,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     ///
     pub fn decode_raw(&mut self) -> Result<Vec<u8>, PngDecodeErrors> {
         self.decode_headers()?;
-        self.called_from_decode_into = false;
 
         // allocate
-        let new_len = self.output_buffer_size().unwrap();
-        let t = self.inner_buffer_size().unwrap();
+        let t = self
+            .inner_buffer_size()
+            .ok_or(PngDecodeErrors::GenericStatic("No more frames"))?;
         let mut out: Vec<u8> = vec![0; t];
         //decode
-        self.decode_into(&mut out)?;
+        self.decode_into_inner(&mut out)?;
         if self.options.png_get_strip_to_8bit() && self.png_info.depth == 16 {
             // in case we are to convert from 16 bit to 8 bit, we can do it here
             // we optimize it by using the same buffer the 16 bit data is stored in
@@ -708,7 +706,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 i += 1;
                 j += 2;
             }
-            out.truncate(new_len);
+            out.truncate(i);
         }
 
         Ok(out)
-- 
2.43.0


From 4c2b27c56be8acc67cb314af9ff7d398f33396c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 010/180] fix: zune-png: place interlaced animation frames by
 their own width

---
 crates/zune-png/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index bb33d25..710ef8c 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -810,7 +810,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         let out_y = j * YSPC[p] + YORIG[p];
                         let out_x = i * XSPC[p] + XORIG[p];
 
-                        let final_start = out_y * info.width * out_bytes + out_x * out_bytes;
+                        let final_start = out_y * frame_info.width * out_bytes + out_x * out_bytes;
                         let out_start = (j * x + i) * out_bytes;
 
                         if let Some(e) = out.get_mut(final_start..final_start + out_bytes) {
-- 
2.43.0


From 1d24608b393ffd2136e81f83acee699f60b153bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 011/180] fix: zune-png: size the output of decode() by the
 frame being decoded

---
 crates/zune-png/src/decoder.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 710ef8c..40ad42a 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -888,8 +888,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let info = &self.png_info;
         let bytes = if info.depth == 16 { 2 } else { 1 };
 
-        let out_n = self.colorspace().unwrap().num_components();
-        let new_len = info.width * info.height * out_n;
+        // animation frames may be smaller than the image
+        let new_len = self
+            .inner_buffer_size()
+            .ok_or(PngDecodeErrors::GenericStatic("No more frames"))?
+            / bytes;
 
         let mut out_u8: Vec<u8> = vec![0; new_len * usize::from(info.depth != 16)];
         let mut out_u16: Vec<u16> = vec![0; new_len * usize::from(info.depth == 16)];
-- 
2.43.0


From 8f4e996d1812dbc946fa68afa8359195d2183f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 012/180] fix: zune-png: start a new frame when other chunks
 sit between fcTL and fdAT

---
 crates/zune-png/src/headers/readers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index e0853f2..f66fa04 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -493,6 +493,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 self.parse_idat(next_header)?;
                 // set fctl information
                 self.frames[0].set_fctl(fctl_info);
+                should_add_fctl = false;
             } else if next_header.chunk_type == PngChunkType::fcTL {
                 // next frame, stop and go back
                 //
@@ -506,6 +507,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                     //
                     // captures fctl->fdat sequence of apng
                     self.frames.push(SingleFrame::new(vec![], Some(fctl_info)));
+                    should_add_fctl = false;
                 }
                 // get frame data
                 // skip four  bytes since it's usually sequence number
@@ -531,7 +533,6 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                 //     next_header.chunk_type
                 // )));
             }
-            should_add_fctl = false;
         }
 
         Ok(())
-- 
2.43.0


From 8d0cff4a64536e899b53639bca7936956d61e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 013/180] fix: zune-png: accept keywords of the maximum length
 of 79 bytes

---
 crates/zune-png/src/headers/readers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index f66fa04..8dbc39d 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -320,7 +320,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -359,7 +359,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -389,7 +389,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
@@ -424,7 +424,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 79);
+        let length = core::cmp::min(chunk.length, 80);
         let keyword_bytes = self.stream.peek_at(0, length).unwrap();
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-- 
2.43.0


From 51b3767346dd2ab816a788e7e8254e23113b29fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 014/180] fix: zune-png: really skip acTL chunks of the wrong
 length

---
 crates/zune-png/src/headers/readers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 8dbc39d..f1a0170 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -241,6 +241,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         if chunk.length != 8 {
             warn!("Invalid chunk length for ACTL, skipping");
             self.stream.skip(chunk.length + 4)?;
+            return Ok(());
         }
         // extract num_frames
         let num_frames = self.stream.get_u32_be();
-- 
2.43.0


From c453e20ef3a56370fc7ca35cecdb84a773fa6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 015/180] fix: zune-png: skip gAMA chunks of the wrong length
 in lenient mode

---
 crates/zune-png/src/headers/readers.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index f1a0170..ba2a890 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -222,6 +222,12 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             return Err(PngDecodeErrors::Generic(error));
         }
 
+        if chunk.length != 4 {
+            warn!("Invalid gAMA chunk length {}", chunk.length);
+            self.stream.skip(chunk.length + 4)?;
+            return Ok(());
+        }
+
         let mut gama = (self.stream.get_u32_be() as f64 / 100000.0) as f32;
         if gama == 0.0 {
             // this is invalid gama
-- 
2.43.0


From 9439493ddc35e2ed81bd5c6889ea639997625dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 016/180] fix: zune-png: report read errors inside optional
 chunks instead of panicking

---
 crates/zune-png/src/headers/readers.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index ba2a890..9454964 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -300,7 +300,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
 
     pub(crate) fn parse_exif(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let data = self.stream.peek_at(0, chunk.length).unwrap();
+        let data = self.stream.peek_at(0, chunk.length)?;
 
         // recommended that we check for first four bytes compatibility
         // so do it here
@@ -328,7 +328,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the iCCP chunk
     pub(crate) fn parse_iccp(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -345,7 +345,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(icc_uncompressed) = DeflateDecoder::new(data).decode_zlib() {
@@ -367,7 +367,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the text chunk
     pub(crate) fn parse_text(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -379,7 +379,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             // read remaining chunk
 
-            let text = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let text = self.stream.peek_at(0, remainder)?.to_vec();
 
             let text_chunk = TextChunk { keyword, text };
             self.png_info.text_chunk.push(text_chunk);
@@ -397,7 +397,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -411,7 +411,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
             self.stream.skip(bytes_to_skip)?;
             let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder).unwrap().to_vec();
+            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
 
             let itxt_chunk = ItxtChunk {
                 keyword,
@@ -432,7 +432,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     /// Parse zTxt chunk
     pub(crate) fn parse_ztxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
         let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length).unwrap();
+        let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
         if let Some(pos) = keyword_position {
@@ -451,7 +451,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             let _ = self.stream.read_u8();
 
             // read remaining chunk
-            let data = self.stream.peek_at(0, remainder).unwrap();
+            let data = self.stream.peek_at(0, remainder)?;
 
             // decode to vec
             if let Ok(ztxt) = DeflateDecoder::new(data).decode_zlib() {
-- 
2.43.0


From d1d5acd69d56ca545e90e71b401438a022e46c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 017/180] fix: zune-png: find the text of iTXt chunks behind
 language tag and translated keyword

---
 crates/zune-png/src/headers/readers.rs | 46 +++++++++++---------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 9454964..66d767e 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -396,36 +396,30 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
     }
     /// Parse the itXT chunk
     pub(crate) fn parse_itxt(&mut self, chunk: PngChunk) -> Result<(), PngDecodeErrors> {
-        let length = core::cmp::min(chunk.length, 80);
-        let keyword_bytes = self.stream.peek_at(0, length)?;
-        let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
-
-        if let Some(pos) = keyword_position {
-            let keyword = keyword_bytes[..pos].to_vec();
-            // skip name plus null byte
-            let bytes_to_skip = pos + 1 // null separator
-                + 1  // compression flag
-                + 1  // compression method
-                + 1  // null separator
-                + 1; // null separator
-
-            self.stream.skip(bytes_to_skip)?;
-            let remainder = chunk.length.saturating_sub(bytes_to_skip);
-            let raw_data = self.stream.peek_at(0, remainder)?.to_vec();
-
-            let itxt_chunk = ItxtChunk {
-                keyword,
-                text: raw_data
-            };
+        let data = self.stream.peek_at(0, chunk.length)?;
+        // Format is keyword, null, compression flag, compression method,
+        // language tag, null, translated keyword, null, text
+        let keyword_position = data.iter().take(80).position(|x| *x == 0);
+
+        let parsed = keyword_position.and_then(|pos| {
+            let rest = data.get(pos + 3..)?;
+            let language_end = rest.iter().position(|x| *x == 0)?;
+            let rest = &rest[language_end + 1..];
+            let translated_end = rest.iter().position(|x| *x == 0)?;
+
+            Some(ItxtChunk {
+                keyword: data[..pos].to_vec(),
+                text:    rest[translated_end + 1..].to_vec()
+            })
+        });
+
+        if let Some(itxt_chunk) = parsed {
             self.png_info.itxt_chunk.push(itxt_chunk);
-            // skip bytes we read
-            self.stream.skip(remainder)?;
         } else {
             warn!("Possibly corrupt iTXT chunk");
-            self.stream.skip(chunk.length)?;
         }
-        // skip crc
-        self.stream.skip(4)?;
+        // skip chunk and crc
+        self.stream.skip(chunk.length + 4)?;
         Ok(())
     }
 
-- 
2.43.0


From c13937d592c7e509be73538f28e592142cb5ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 018/180] fix: zune-png: do not read past iCCP and zTXt chunks
 that end at their keyword

---
 crates/zune-png/src/headers/readers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index 66d767e..ade63b3 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -331,7 +331,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-        if let Some(pos) = keyword_position {
+        if let Some(pos) = keyword_position.filter(|pos| pos + 2 <= chunk.length) {
             // skip name plus null byte
             self.stream.skip(pos + 1)?;
 
@@ -429,7 +429,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         let keyword_bytes = self.stream.peek_at(0, length)?;
         let keyword_position = keyword_bytes.iter().position(|x| *x == 0);
 
-        if let Some(pos) = keyword_position {
+        if let Some(pos) = keyword_position.filter(|pos| pos + 2 <= chunk.length) {
             let keyword = keyword_bytes[..pos].to_vec();
 
             // skip name plus null byte
-- 
2.43.0


From 1b56af81cfa5b2e334191c6f472d22e535b9c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 019/180] fix: zune-png: let frames without alpha use the over
 blend operation

---
 crates/zune-png/src/apng.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 574c27c..0387776 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -322,6 +322,10 @@ pub fn post_process_image(
 
         // now blend
         match frame_info.blend_op {
+            // without an alpha channel every pixel is opaque, hence over is the same as source
+            BlendOp::Over if !colorspace.has_alpha() => {
+                h_x.copy_from_slice(src_width);
+            }
             BlendOp::Source => {
                 // overwrite
                 h_x.copy_from_slice(src_width);
@@ -329,10 +333,7 @@ pub fn post_process_image(
             BlendOp::Over => {
                 // carry out alpha blending, we do the alpha bending in linear colorspace
                 //
-                assert!(colorspace.has_alpha());
-                if !colorspace.has_alpha() {
-                    return Err(PngDecodeErrors::GenericStatic("Image doesn't have alpha but requests blending using over which requires alpha"));
-                }
+
                 // pre-calculate the gamma samples
                 let mut gamma_values = [0.0; 256];
                 let mut inv_gamma_values = [0.0; 256];
-- 
2.43.0


From c6b5ddcda49aece726c7c5a7f563751682140e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 020/180] fix: zune-png: composite the alpha channel too when
 blending frames over the canvas

---
 crates/zune-png/src/apng.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 0387776..17e9100 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -355,7 +355,10 @@ pub fn post_process_image(
                 {
                     let alpha = *src_comp.last().unwrap();
                     let foreground_alpha = f32::from(alpha) / 255.0;
-                    let dst_alpha = 1.0 - foreground_alpha;
+                    // the background only contributes as far as it is opaque itself
+                    let background_alpha = f32::from(dst_comp[nc - 1]) / 255.0;
+                    let dst_alpha = background_alpha * (1.0 - foreground_alpha);
+                    let out_alpha = foreground_alpha + dst_alpha;
 
                     let max_sample = 255.0;
 
@@ -368,12 +371,12 @@ pub fn post_process_image(
                         continue;
                     }
 
-                    for (a, b) in src_comp.iter().zip(dst_comp).take(nc - 1) {
+                    for (a, b) in src_comp.iter().zip(dst_comp.iter_mut()).take(nc - 1) {
                         // convert to floating point, undo gamma encoding
                         let linfg = gamma_values[usize::from(*a)];
                         let linbg = gamma_values[usize::from(*b)];
                         // composite
-                        let commpix = linfg * foreground_alpha + linbg * dst_alpha;
+                        let commpix = (linfg * foreground_alpha + linbg * dst_alpha) / out_alpha;
                         // gamma encode for storage
                         // NB: (cae): This function becomes quite expensive.
                         // I'm not sure if memoization may help us here.
@@ -383,6 +386,7 @@ pub fn post_process_image(
                         let pix = (gamout * max_sample + 0.5) as u8;
                         *b = pix;
                     }
+                    dst_comp[nc - 1] = (out_alpha * max_sample + 0.5) as u8;
                 }
             }
         }
-- 
2.43.0


From c16e1506eaf0b7244b64b718dd76435ed6464eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:04 +0000
Subject: [PATCH 021/180] fix: zune-png: default to the customary file gamma of
 1/2.2 when blending

---
 crates/zune-png/src/apng.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-png/src/apng.rs b/crates/zune-png/src/apng.rs
index 17e9100..b85b726 100644
--- a/crates/zune-png/src/apng.rs
+++ b/crates/zune-png/src/apng.rs
@@ -157,7 +157,7 @@ impl SingleFrame {
 ///   This is the fully processed previous frame, hence the width and height should match that of the image (indicated by `info.width`,`info.height`)
 /// * `output`: The output of the processed frame. The dimensions of this should be (`info.width * info.height*decoder.colorspace().num_components()`)
 /// * `gamma`: An optional gamma value. It is best this is retrieved from [the image's gamma](crate::PngInfo.gamma),
-/// if `None`, we will default to use 2.2 (default gamma value)
+/// if `None`, we will default to use 1/2.2 (default file gamma value)
 ///
 /// returns: Ok(()) Output is written to `output` variable
 ///
@@ -307,7 +307,7 @@ pub fn post_process_image(
         } // blend
     }
     // deal with gamma
-    let gamma_value = gamma.unwrap_or(2.2);
+    let gamma_value = gamma.unwrap_or(1.0 / 2.2);
     let gamma_inv = 1.0 / gamma_value;
 
     // iterate by a width stride
-- 
2.43.0


From 9795af64d9955df79481a7eeeb3d2dd0ebca7887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 022/180] fix: zune-image: dispose of animated PNG frames after
 showing them, and leave the default image out of the sequence

---
 crates/zune-image/src/codecs/png.rs | 55 +++++++++++++++++++++++++----
 crates/zune-png/src/lib.rs          |  2 +-
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index edafb02..213a7a7 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -31,6 +31,29 @@ use crate::image::Image;
 use crate::metadata::ImageMetadata;
 use crate::traits::{DecodeInto, DecoderTrait, EncoderTrait};
 
+/// Undo drawing of `frame` on `canvas` according to its dispose operation.
+///
+/// `before` is what the canvas looked like before the frame was drawn.
+fn dispose_frame(
+    canvas: &mut [u8], before: &[u8], frame: &FrameInfo, width: usize, components: usize
+) {
+    let start = frame.x_offset * components;
+    let end = (frame.x_offset + frame.width) * components;
+
+    for (row, before_row) in canvas
+        .chunks_exact_mut(width * components)
+        .zip(before.chunks_exact(width * components))
+        .skip(frame.y_offset)
+        .take(frame.height)
+    {
+        match frame.dispose_op {
+            DisposeOp::None => {}
+            DisposeOp::Background => row[start..end].fill(0),
+            DisposeOp::Previous => row[start..end].copy_from_slice(&before_row[start..end])
+        }
+    }
+}
+
 impl<T> DecoderTrait for PngDecoder<T>
 where
     T: ZByteReaderTrait
@@ -50,15 +73,24 @@ where
             // set this up outside of the loop.
             let mut output = vec![0; info.width * info.height * colorspace.num_components()];
             let mut output_frames = Vec::new();
+            // the previous frame, if it is to be disposed of, and the canvas it was drawn on
+            let mut previous: Option<(FrameInfo, Vec<u8>)> = None;
+            let mut default_image = None;
             while self.more_frames() {
                 self.decode_headers()?;
 
-                let mut frame = self.frame_info().unwrap();
-                if frame.dispose_op == DisposeOp::Previous {
-                    // we don't clear our buffer, so output always contains the previous frame
-                    //
-                    // this means that there is no need to store the previous frame and copy it
-                    frame.dispose_op = DisposeOp::None;
+                let frame = self.frame_info().unwrap();
+                if !frame.is_part_of_seq {
+                    // the default image, only meant for decoders that don't support animation
+                    default_image = Some(self.decode()?);
+                    continue;
+                }
+                // clean up after the previous frame as it demanded
+                if let Some((prev, before)) = previous.take() {
+                    dispose_frame(&mut output, &before, &prev, width, colorspace.num_components());
+                }
+                if frame.dispose_op != DisposeOp::None {
+                    previous = Some((frame, output.clone()));
                 }
                 let pix = self.decode()?;
                 match pix {
@@ -66,7 +98,8 @@ where
                         post_process_image(
                             &info,
                             colorspace,
-                            &frame,
+                            // disposal was dealt with above
+                            &FrameInfo { dispose_op: DisposeOp::None, ..frame },
                             &pix,
                             None,
                             &mut output,
@@ -80,6 +113,14 @@ where
                     _ => return Err(ImageDecodeErrors("The current image is an  Animated PNG but has a depth of 16, such an image isn't supported".to_string()))
                 }
             }
+            if output_frames.is_empty() {
+                // no animation frames after all
+                match default_image {
+                    Some(DecodingResult::U8(pix)) => output_frames.push(Frame::from_u8(&pix, colorspace, 1, 1)),
+                    Some(DecodingResult::U16(pix)) => output_frames.push(Frame::from_u16(&pix, colorspace, 1, 1)),
+                    _ => return Err(ImageDecodeErrors("Animated PNG without frames".to_string()))
+                }
+            }
             let mut image = Image::new_frames(output_frames, depth, width, height, colorspace);
             image.metadata = metadata;
 
diff --git a/crates/zune-png/src/lib.rs b/crates/zune-png/src/lib.rs
index 0b08674..66876b9 100644
--- a/crates/zune-png/src/lib.rs
+++ b/crates/zune-png/src/lib.rs
@@ -167,7 +167,7 @@ extern crate core;
 
 #[cfg(feature = "std")]
 pub use apng::post_process_image;
-pub use apng::{BlendOp, DisposeOp};
+pub use apng::{BlendOp, DisposeOp, FrameInfo};
 pub use decoder::{ItxtChunk, PngDecoder, PngInfo, TextChunk, TimeInfo, ZtxtChunk};
 pub use encoder::PngEncoder;
 pub use enums::InterlaceMethod;
-- 
2.43.0


From 4b3263ddc73981273da0f7b07cfe991cdb811680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 023/180] fix: zune-png: refuse to encode colour spaces and
 depths PNG does not have, and report failed signature writes

---
 crates/zune-png/src/encoder.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zune-png/src/encoder.rs b/crates/zune-png/src/encoder.rs
index 4f3f78a..3f36eb2 100644
--- a/crates/zune-png/src/encoder.rs
+++ b/crates/zune-png/src/encoder.rs
@@ -6,7 +6,9 @@
 
 use alloc::vec::Vec;
 
+use zune_core::bit_depth::BitDepth;
 use zune_core::bytestream::{ZByteIoError, ZByteWriterTrait, ZWriter};
+use zune_core::colorspace::ColorSpace;
 use zune_core::options::EncoderOptions;
 use zune_inflate::DeflateEncoder;
 
@@ -55,7 +57,7 @@ impl<'a> PngEncoder<'a> {
         &self, writer: &mut ZWriter<T>
     ) -> Result<(), ZByteIoError> {
         // write signature
-        writer.write_u64_be(PNG_SIGNATURE);
+        writer.write_u64_be_err(PNG_SIGNATURE)?;
         // write ihdr
         write_header_fn(self, writer, b"IHDR", write_ihdr)?;
 
@@ -72,6 +74,15 @@ impl<'a> PngEncoder<'a> {
     }
 
     pub fn encode<T: ZByteWriterTrait>(&mut self, sink: T) -> Result<usize, ZByteIoError> {
+        if !matches!(
+            self.options.colorspace(),
+            ColorSpace::Luma | ColorSpace::LumaA | ColorSpace::RGB | ColorSpace::RGBA
+        ) {
+            return Err(ZByteIoError::Generic("Unsupported colorspace for PNG"));
+        }
+        if !matches!(self.options.depth(), BitDepth::Eight | BitDepth::Sixteen) {
+            return Err(ZByteIoError::Generic("Unsupported bit depth for PNG"));
+        }
         let expected_data_size = self
             .options
             .width()
-- 
2.43.0


From c85b909eb20cad86721e9a873da081a52afd46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 024/180] fix: zune-jpeg: do not look for a restart marker
 after the last MCU of a progressive scan

---
 crates/zune-jpeg/src/mcu_prog.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index a4ecbab..8590b1a 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -343,7 +343,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // + EOB and investigate effect.
                     self.todo -= 1;
 
-                    self.handle_rst_main(stream)?;
+                    // the last MCU of a scan is not followed by a restart marker
+                    if i + 1 != mcu_height || j + 1 != mcu_width {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         } else {
@@ -432,7 +435,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     // we get a higher number in the case this underflows
                     self.todo -= 1;
                     // after every scan that's a mcu, count down restart markers.
-                    self.handle_rst_main(stream)?;
+                    // the last MCU of a scan is not followed by one
+                    if i + 1 != self.mcu_y || j + 1 != self.mcu_x {
+                        self.handle_rst_main(stream)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 67f780f3c2ca0822f3d0674e22e0deb73f2908a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 025/180] fix: zune-jpeg: a progressive DC refinement scan
 needs no Huffman table

---
 crates/zune-jpeg/src/mcu_prog.rs | 43 ++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 8590b1a..4ce53e8 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -281,21 +281,21 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             .unwrap();
 
                         if self.spec_start == 0 {
-                            let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
-                            let dc_table = self
-                                .dc_huffman_tables
-                                .get(pos)
-                                .ok_or(DecodeErrors::FormatStatic(
-                                    "No huffman table for DC component"
-                                ))?
-                                .as_ref()
-                                .ok_or(DecodeErrors::FormatStatic(
-                                    "Huffman table at index  {} not initialized"
-                                ))?;
-
-                            let dc_pred = &mut self.components[k].dc_pred;
-
                             if self.succ_high == 0 {
+                                let pos = self.components[k].dc_huff_table & (MAX_COMPONENTS - 1);
+                                let dc_table = self
+                                    .dc_huffman_tables
+                                    .get(pos)
+                                    .ok_or(DecodeErrors::FormatStatic(
+                                        "No huffman table for DC component"
+                                    ))?
+                                    .as_ref()
+                                    .ok_or(DecodeErrors::FormatStatic(
+                                        "Huffman table at index  {} not initialized"
+                                    ))?;
+
+                                let dc_pred = &mut self.components[k].dc_pred;
+
                                 // first scan for this mcu
                                 stream.decode_prog_dc_first(
                                     &mut self.stream,
@@ -368,6 +368,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     )));
                 }
 
+                if self.succ_high != 0 {
+                    // refinement scans read raw bits, they use no table
+                    continue;
+                }
+
                 let component = &mut self.components[n];
                 let _ = self
                     .dc_huffman_tables
@@ -399,11 +404,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                         let huff_table = self
                             .dc_huffman_tables
                             .get(component.dc_huff_table)
-                            .ok_or(DecodeErrors::FormatStatic("No huffman table for component"))?
-                            .as_ref()
-                            .ok_or(DecodeErrors::FormatStatic(
-                                "Huffman table at index not initialized"
-                            ))?;
+                            .and_then(|table| table.as_ref());
 
                         for v_samp in 0..component.vertical_sample {
                             for h_samp in 0..component.horizontal_sample {
@@ -419,6 +420,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                                 };
 
                                 if self.succ_high == 0 {
+                                    let huff_table =
+                                        huff_table.ok_or(DecodeErrors::FormatStatic(
+                                            "Huffman table at index not initialized"
+                                        ))?;
                                     stream.decode_prog_dc_first(
                                         &mut self.stream,
                                         huff_table,
-- 
2.43.0


From fedd5ac91d926c6b92bee4069f86c673c6d157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 026/180] fix: zune-jpeg: application segments 3 to 12 and 15
 may follow entropy-coded data

---
 crates/zune-jpeg/src/marker.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/marker.rs b/crates/zune-jpeg/src/marker.rs
index f080b41..17a5163 100644
--- a/crates/zune-jpeg/src/marker.rs
+++ b/crates/zune-jpeg/src/marker.rs
@@ -80,11 +80,7 @@ impl Marker {
             0xDB => Some(DQT),
             0xDC => Some(DNL),
             0xDD => Some(DRI),
-            0xE0 => Some(APP(0)),
-            0xE1 => Some(APP(1)),
-            0xE2 => Some(APP(2)),
-            0xED => Some(APP(13)),
-            0xEE => Some(APP(14)),
+            0xE0..=0xEF => Some(APP(n - 0xE0)),
             _ => Some(UNKNOWN(n))
         }
     }
-- 
2.43.0


From 2bec7e27eff568d3977c33206651f450fb122dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 027/180] fix: zune-jpeg: skip short or foreign APP0 and APP14
 segments by their own length

---
 crates/zune-jpeg/src/decoder.rs | 3 ++-
 crates/zune-jpeg/src/headers.rs | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index 892628b..a37c549 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -526,7 +526,8 @@ where
                     )));
                 }
                 // skip for now
-                if length > 5 {
+                // (the length counts its own two bytes)
+                if length >= 7 {
                     let mut buffer = [0u8; 5];
                     self.stream.read_exact_bytes(&mut buffer)?;
                     if &buffer == b"AVI1\0" {
diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 8c3892f..c6db4af 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -463,9 +463,11 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
     if length < 2 {
         return Err(DecodeErrors::FormatStatic("Too small APP14 length"));
     }
+    // length bytes
+    length -= 2;
 
-    if decoder.stream.peek_at(0, 5)? == b"Adobe" {
-        if length < 14 {
+    if length >= 5 && decoder.stream.peek_at(0, 5)? == b"Adobe" {
+        if length < 12 {
             return Err(DecodeErrors::FormatStatic(
                 "Too short of a length for App14 segment"
             ));
@@ -487,11 +489,10 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
                 )))
             }
         }
-        // length   = 2
         // adobe id = 6
         // version =  5
         // transform = 1
-        length = length.saturating_sub(14);
+        length -= 12;
     } else {
         warn!("Not a valid Adobe APP14 Segment, skipping");
     }
-- 
2.43.0


From a091de5772000fba9e87eb61ce3e30955d33585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 028/180] fix: zune-jpeg: scans which hold part of the
 components have their own geometry, tables and restart counts

---
 crates/zune-jpeg/src/mcu.rs      | 99 ++++++++++++++++++++++++++------
 crates/zune-jpeg/src/mcu_prog.rs | 18 +-----
 2 files changed, 85 insertions(+), 32 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 61ee2df..a331033 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -33,7 +33,9 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     /// Check for existence of DC and AC Huffman Tables
     pub(crate) fn check_tables(&self) -> Result<(), DecodeErrors> {
         // check that dc and AC tables exist outside the hot path
-        for component in &self.components {
+        // a component which is not in this scan may get its tables later
+        for &k in &self.z_order[..usize::from(self.num_scans)] {
+            let component = &self.components[k];
             let _ = &self
                 .dc_huffman_tables
                 .get(component.dc_huff_table)
@@ -175,11 +177,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
         if !all_components_in_first_scan {
             for (component, mcu) in self.components.iter().zip(&mut progressive_mcus) {
-                let len = mcu_width
-                    * component.vertical_sample
-                    * component.horizontal_sample
-                    * mcu_height
-                    * 64;
+                // the scans decode into whole MCUs of the frame
+                let len = component.width_stride * component.vertical_sample * 8 * self.mcu_y;
                 *mcu = vec![0; len];
             }
         }
@@ -196,6 +195,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 &self.z_order[..usize::from(self.num_scans)]
             );
 
+            if !all_components_in_first_scan {
+                self.check_tables()?;
+                (mcu_width, mcu_height) = self.start_baseline_scan();
+            }
+
             trace!("Decoding MCU width: {mcu_width}, height: {mcu_height}");
 
             for i in 0..mcu_height {
@@ -215,6 +219,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     self.decode_mcu_width::<false>(
                         mcu_width,
                         i,
+                        i + 1 == mcu_height,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -240,6 +245,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     self.decode_mcu_width::<true>(
                         mcu_width,
                         i,
+                        i + 1 == mcu_height,
                         &mut tmp,
                         &mut stream,
                         &mut progressive_mcus
@@ -274,7 +280,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             continue 'sos;
                         } else {
                             // Hit EOI
-                            break;
+                            break 'sos;
                         }
                     }
                     McuContinuation::Terminate => {
@@ -285,6 +291,25 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 }
             }
 
+            // The bits of the last MCU may have been read without running into the marker
+            // which ends the scan, in which case the next scan is still to be found.
+            if !all_components_in_first_scan && !stream.seen_eoi && stream.overread_by == 0 {
+                match get_marker(&mut self.stream, &mut stream) {
+                    Ok(Marker::EOI) => stream.seen_eoi = true,
+                    Ok(Marker::SOS) => {
+                        self.parse_marker_inner(Marker::SOS)?;
+                        stream.reset();
+                        continue 'sos;
+                    }
+                    Ok(marker) => {
+                        if self.advance_to_next_sos(marker, &mut stream)? {
+                            continue 'sos;
+                        }
+                    }
+                    Err(_) => {}
+                }
+            }
+
             // Breaks if we get here, looping only if we have restarted, i.e. found another SOS and
             // continued at `'sos'.
             break;
@@ -394,11 +419,38 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         return Ok(());
     }
 
+    /// Prepare for one of the scans of an image whose components are spread over more than one
+    /// scan, and return the dimensions of that scan in MCUs.
+    ///
+    /// When a scan has one component, its MCU is one block, and the blocks which only exist to
+    /// complete the MCUs of an interleaved scan are not there (A.2.2)
+    fn start_baseline_scan(&mut self) -> (usize, usize) {
+        self.todo = if self.restart_interval != 0 { self.restart_interval } else { usize::MAX };
+        self.components.iter_mut().for_each(|x| x.dc_pred = 0);
+
+        if self.num_scans == 1 {
+            self.blocks_in_component(self.z_order[0])
+        } else {
+            (self.mcu_x, self.mcu_y)
+        }
+    }
+
+    /// Number of blocks in the rows and in the columns of a component
+    /// when it's in a scan of its own.
+    pub(crate) fn blocks_in_component(&self, k: usize) -> (usize, usize) {
+        let component = &self.components[k];
+
+        let x = (usize::from(self.info.width) * component.horizontal_sample).div_ceil(self.h_max);
+        let y = (usize::from(self.info.height) * component.vertical_sample).div_ceil(self.v_max);
+
+        (x.div_ceil(8), y.div_ceil(8))
+    }
+
     fn decode_mcu_width<const PROGRESSIVE: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, last_row: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
-        let is_one_by_one = !self.scan_subsampled;
+        let is_one_by_one = !self.scan_subsampled || (PROGRESSIVE && self.num_scans == 1);
 
         // The definition of MCU depends on the sampling factor of involved scans. When components
         // have different factors then each Minimal-Coding-Unit is the least common multiple such
@@ -413,6 +465,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, false>(
                 mcu_width,
                 mcu_height,
+                last_row,
                 tmp,
                 stream,
                 progressive
@@ -421,6 +474,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.inner_decode_mcu_width::<PROGRESSIVE, true>(
                 mcu_width,
                 mcu_height,
+                last_row,
                 tmp,
                 stream,
                 progressive
@@ -434,7 +488,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     // when `not SAMPLED` then the inner loop has exactly one iteration per component in
     // the scan. The difference was ~1% or a bit more.
     fn inner_decode_mcu_width<const PROGRESSIVE: bool, const SAMPLED: bool>(
-        &mut self, mcu_width: usize, mcu_height: usize, tmp: &mut [i32; 64],
+        &mut self, mcu_width: usize, mcu_height: usize, last_row: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
     ) -> Result<McuContinuation, DecodeErrors> {
         let z_order = self.z_order;
@@ -466,9 +520,13 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     .ok_or(DecodeErrors::FormatStatic("AC table not found"))?;
 
                 let qt_table = &component.quantization_table;
+                let (h_samples, v_samples) = if SAMPLED {
+                    (component.horizontal_sample, component.vertical_sample)
+                } else {
+                    (1, 1)
+                };
                 let channel = if PROGRESSIVE {
-                    let offset =
-                        mcu_height * component.width_stride * 8 * component.vertical_sample;
+                    let offset = mcu_height * component.width_stride * 8 * v_samples;
                     &mut progressive[k][offset..]
                 } else {
                     &mut component.raw_coeff
@@ -482,10 +540,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 //
                 // Turn the bounds into a compile time constant for a common special case. This
                 // allows the compiler to unroll the loop and then do a bunch of interleaving.
-                let v_step = if SAMPLED { 0..component.vertical_sample } else { 0..1 };
+                let v_step = 0..v_samples;
 
                 for v_samp in v_step {
-                    let h_step = if SAMPLED { 0..component.horizontal_sample } else { 0..1 };
+                    let h_step = 0..h_samples;
 
                     for h_samp in h_step {
                         let result = if component_samples_needed {
@@ -540,7 +598,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                             let idct_position = {
                                 // derived from stb and rewritten for my tastes
                                 let c2 = v_samp * 8;
-                                let c3 = ((j * component.horizontal_sample) + h_samp) * 8;
+                                let c3 = ((j * h_samples) + h_samp) * 8;
 
                                 component.width_stride * c2 + c3
                             };
@@ -563,7 +621,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             self.todo = self.todo.wrapping_sub(1);
 
             if self.todo == 0 {
-                self.handle_rst_main(stream)?;
+                // the last MCU of a scan is not followed by a restart marker
+                if !PROGRESSIVE || !last_row || j + 1 != mcu_width {
+                    self.handle_rst_main(stream)?;
+                }
                 continue;
             }
 
@@ -572,6 +633,12 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
             }
         }
 
+        if PROGRESSIVE && !last_row && !(stream.marker.is_some() && stream.bits_left == 0) {
+            // The marker which ends this scan may have been seen by now,
+            // but the bits before it belong to the rows we haven't decoded
+            return Ok(McuContinuation::Ok);
+        }
+
         self.check_stream_marker_after_mcu_width(stream)
     }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 4ce53e8..5e9e988 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -247,22 +247,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 )));
             }
 
-            let (mcu_width, mcu_height);
-
-            if self.components[k].vertical_sample != 1
-                || self.components[k].horizontal_sample != 1
-                || !self.is_interleaved
-            {
-                // For non interleaved scans
-                // mcu's is the image dimensions divided by 8
-                mcu_width = self.info.width.div_ceil(8) as usize;
-                mcu_height = self.info.height.div_ceil(8) as usize;
-            } else {
-                // For other channels, in an interleaved mcu, number of MCU's
-                // are determined by some weird maths done in headers.rs->parse_sos()
-                mcu_width = self.mcu_x;
-                mcu_height = self.mcu_y;
-            }
+            // For non interleaved scans the mcu's are the blocks of the component
+            let (mcu_width, mcu_height) = self.blocks_in_component(k);
 
             for i in 0..mcu_height {
                 for j in 0..mcu_width {
-- 
2.43.0


From b194f720bd1f6d46553fa1adf555deae810cf8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 029/180] fix: zune-jpeg: derive component sizes from the
 sampling factors of all components

---
 crates/zune-jpeg/src/misc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 19391ba..d263f90 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -210,7 +210,7 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         img.input_colorspace = ColorSpace::RGB;
     }
 
-    for component in &mut img.components {
+    for component in &img.components {
         // compute interleaved image info
         // h_max contains the maximum horizontal component
         img.h_max = max(img.h_max, component.horizontal_sample);
@@ -228,6 +228,10 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             // not equal to 1.
             img.is_interleaved = true;
         }
+    }
+
+    // these depend on the maximum over all the components
+    for component in &mut img.components {
         // Extract quantization tables from the arrays into components
         let qt_table = *img.qt_tables[component.quantization_table_number as usize]
             .as_ref()
@@ -239,7 +243,7 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             })?;
 
         let x = (usize::from(img_width) * component.horizontal_sample + img.h_max - 1) / img.h_max;
-        let y = (usize::from(img_height) * component.horizontal_sample + img.h_max - 1) / img.v_max;
+        let y = (usize::from(img_height) * component.vertical_sample + img.v_max - 1) / img.v_max;
         component.x = x;
         component.w2 = img.mcu_x * component.horizontal_sample * 8;
         // probably not needed. :)
-- 
2.43.0


From b862f14cc6cbfa78ca81f5a1af11b370973cb187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 030/180] fix: zune-jpeg: size the upsampler scratch space for
 the widest component

---
 crates/zune-jpeg/src/mcu.rs      | 10 ++++++++--
 crates/zune-jpeg/src/mcu_prog.rs |  2 +-
 crates/zune-jpeg/src/worker.rs   |  4 ++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index a331033..0dee804 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -186,7 +186,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         let mut pixels_written = 0;
 
         let is_hv = usize::from(self.is_interleaved);
-        let upsampler_scratch_size = is_hv * self.components[0].width_stride;
+        let upsampler_scratch_size = is_hv * self.max_scratch_size();
         let mut upsampler_scratch_space = vec![0; upsampler_scratch_size];
 
         'sos: loop {
@@ -356,7 +356,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
         // Size of our output image(width*height)
         let is_hv = usize::from(self.is_interleaved);
-        let upsampler_scratch_size = is_hv * self.components[0].width_stride;
+        let upsampler_scratch_size = is_hv * self.max_scratch_size();
         let width = usize::from(self.info.width);
         let padded_width = calculate_padded_width(width, self.sub_sample_ratio);
 
@@ -446,6 +446,12 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         (x.div_ceil(8), y.div_ceil(8))
     }
 
+    /// Size of a scratch space with room for two rows of any component
+    pub(crate) fn max_scratch_size(&self) -> usize {
+        let strides = self.components.iter().map(|x| x.width_stride);
+        2 * strides.max().unwrap_or(0)
+    }
+
     fn decode_mcu_width<const PROGRESSIVE: bool>(
         &mut self, mcu_width: usize, mcu_height: usize, last_row: bool, tmp: &mut [i32; 64],
         stream: &mut BitStream, progressive: &mut [Vec<i16>; 4]
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 5e9e988..2760d1a 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -511,7 +511,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
 
         // Size of our output image(width*height)
         let is_hv = usize::from(self.is_interleaved);
-        let upsampler_scratch_size = is_hv * self.components[0].width_stride;
+        let upsampler_scratch_size = is_hv * self.max_scratch_size();
         let width = usize::from(self.info.width);
         let padded_width = calculate_padded_width(width, self.sub_sample_ratio);
 
diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index 83927d7..86402a8 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -376,6 +376,10 @@ pub(crate) fn upsample(
     component: &mut Components, mcu_height: usize, i: usize, upsampler_scratch_space: &mut [i16],
     has_vertical_sample: bool
 ) -> Result<(), DecodeErrors> {
+    // The scratch space is shared by the components, and holds two rows of this one
+    let scratch_size = core::cmp::min(component.width_stride * 2, upsampler_scratch_space.len());
+    let upsampler_scratch_space = &mut upsampler_scratch_space[..scratch_size];
+
     match component.sample_ratio {
         SampleRatios::V | SampleRatios::HV => {
             /*
-- 
2.43.0


From fb66ff89a8b97081b3e0c70ace72a477f681b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 031/180] fix: zune-jpeg: look for the marker after the first
 progressive scan when it was not read yet

---
 crates/zune-jpeg/src/mcu_prog.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index 2760d1a..d08964f 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -121,10 +121,8 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
         }
 
         // extract marker
-        let mut marker = stream
-            .marker
-            .take()
-            .ok_or(DecodeErrors::FormatStatic("Marker missing where expected"))?;
+        let mut marker = get_marker(&mut self.stream, &mut stream)
+            .map_err(|_| DecodeErrors::FormatStatic("Marker missing where expected"))?;
 
         // if marker is EOI, we are done, otherwise continue scanning.
         //
-- 
2.43.0


From 1215b347f98f09730942aede801c211aa36a40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 032/180] fix: zune-jpeg: the rows of MCUs do not depend on the
 output colorspace

---
 crates/zune-jpeg/src/mcu.rs      |  8 ++------
 crates/zune-jpeg/src/mcu_prog.rs | 10 +++-------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 0dee804..13c6e6e 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -116,15 +116,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
-            // parses two rows per mcu width.
+            // when converting from YcbCr to grayscale, an MCU has two rows
+            // of luma blocks
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
diff --git a/crates/zune-jpeg/src/mcu_prog.rs b/crates/zune-jpeg/src/mcu_prog.rs
index d08964f..c6459a7 100644
--- a/crates/zune-jpeg/src/mcu_prog.rs
+++ b/crates/zune-jpeg/src/mcu_prog.rs
@@ -53,7 +53,7 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
     ) -> Result<(), DecodeErrors> {
         setup_component_params(self)?;
 
-        let mut mcu_height;
+        let mcu_height;
 
         // memory location for decoded pixels for components
         let mut block: [Vec<i16>; MAX_COMPONENTS] = [vec![], vec![], vec![], vec![]];
@@ -84,15 +84,11 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                 || self.sub_sample_ratio == SampleRatios::HV)
         {
             // For a specific set of images, e.g interleaved,
-            // when converting from YcbCr to grayscale, we need to
-            // take into account mcu height since the MCU decoding needs to take
-            // it into account for padding purposes and the post processor
-            // parses two rows per mcu width.
+            // when converting from YcbCr to grayscale, an MCU has two rows
+            // of luma blocks
             //
             // set coeff to be 2 to ensure that we increment two rows
             // for every mcu processed also
-            mcu_height *= self.v_max;
-            mcu_height /= self.h_max;
             self.coeff = 2;
         }
 
-- 
2.43.0


From 791a9d160a24c374bcd30ec26772039691871d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 033/180] fix: zune-jpeg: CMYK and YCCK to RGBA writes four
 bytes per pixel

---
 crates/zune-jpeg/src/worker.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index 86402a8..bf0cb3d 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -242,7 +242,7 @@ fn color_convert_ycck_to_rgb<const NUM_COMPONENTS: usize>(
         output
     );
     for (pix_w, m_w) in output
-        .chunks_exact_mut(width * 3)
+        .chunks_exact_mut(width * NUM_COMPONENTS)
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for (pix, m) in pix_w.chunks_exact_mut(NUM_COMPONENTS).zip(m_w) {
@@ -266,7 +266,7 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
         .zip(mcu_block[3].chunks_exact(padded_width))
     {
         for ((((pix, c), m), y), k) in pix_w
-            .chunks_exact_mut(3)
+            .chunks_exact_mut(NUM_COMPONENTS)
             .zip(c_w)
             .zip(m_w)
             .zip(y_w)
@@ -280,6 +280,9 @@ fn color_convert_cymk_to_rgb<const NUM_COMPONENTS: usize>(
             pix[0] = blinn_8x8(c, k);
             pix[1] = blinn_8x8(m, k);
             pix[2] = blinn_8x8(y, k);
+            if NUM_COMPONENTS == 4 {
+                pix[3] = 255;
+            }
         }
     }
 }
-- 
2.43.0


From 7a94b4a12b4f3d90a3968172d1c03e4b708dce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:34 +0000
Subject: [PATCH 034/180] fix: zune-jpeg: an ICC profile may have 255 segments

---
 crates/zune-jpeg/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/decoder.rs b/crates/zune-jpeg/src/decoder.rs
index a37c549..e56fd63 100644
--- a/crates/zune-jpeg/src/decoder.rs
+++ b/crates/zune-jpeg/src/decoder.rs
@@ -626,7 +626,7 @@ where
         }
         let num_markers = self.icc_data.len();
 
-        if num_markers == 0 || num_markers >= 255 {
+        if num_markers == 0 || num_markers > 255 {
             return None;
         }
         // check validity
-- 
2.43.0


From 2222f360fe64e21eaea1d09ab2ebbd6eb16ec4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:06 +0000
Subject: [PATCH 035/180] fix: zune-jpeg: report an unsupported output
 colorspace before decoding

---
 crates/zune-jpeg/src/misc.rs   |  9 +++++++++
 crates/zune-jpeg/src/worker.rs | 13 +++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index d263f90..86b9a9a 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -21,6 +21,7 @@ use zune_core::log::{trace, warn};
 use crate::components::{ComponentID, SampleRatios};
 use crate::errors::DecodeErrors;
 use crate::huffman::HuffmanTable;
+use crate::worker::color_convert_supported;
 use crate::JpegDecoder;
 
 /// Start of baseline DCT Huffman coding
@@ -347,6 +348,14 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
             }
         }
     }
+    // a conversion we can't do is an error before we touch any pixel
+    if !color_convert_supported(img.input_colorspace, img.options.jpeg_get_out_colorspace()) {
+        return Err(DecodeErrors::Format(format!(
+            "Unimplemented colorspace mapping from {:?} to {:?}",
+            img.input_colorspace,
+            img.options.jpeg_get_out_colorspace()
+        )));
+    }
     Ok(())
 }
 
diff --git a/crates/zune-jpeg/src/worker.rs b/crates/zune-jpeg/src/worker.rs
index bf0cb3d..c60e1d3 100644
--- a/crates/zune-jpeg/src/worker.rs
+++ b/crates/zune-jpeg/src/worker.rs
@@ -132,6 +132,19 @@ pub(crate) fn color_convert(
     Ok(())
 }
 
+/// Return true if [`color_convert`] can convert between the two colorspaces
+pub(crate) fn color_convert_supported(input: ColorSpace, output: ColorSpace) -> bool {
+    use ColorSpace::{Luma, MultiBand, YCbCr, BGR, BGRA, CMYK, RGB, RGBA, YCCK};
+
+    match input {
+        YCbCr => matches!(output, YCbCr | Luma | RGB | RGBA | BGR | BGRA),
+        Luma => matches!(output, Luma | RGB | RGBA),
+        YCCK | CMYK => output == input || matches!(output, RGB | RGBA),
+        MultiBand(_) => output.num_components() > 1,
+        _ => input == output
+    }
+}
+
 fn convert_luma_to_rgb(
     mcu_block: &[&[i16]; MAX_COMPONENTS], width: usize, padded_width: usize, output: &mut [u8]
 ) {
-- 
2.43.0


From 2adb26f5976e58b89a343e43dc1b3f87e746925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 036/180] fix: zune-qoi: decode_into fills only the image's
 part of a bigger buffer

---
 crates/zune-qoi/src/decoder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index a9298d5..85359cf 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -254,6 +254,8 @@ where
                 pixels.len()
             ));
         }
+        // a bigger buffer is allowed, only fill what the image needs
+        let pixels = &mut pixels[..self.output_buffer_size().unwrap()];
 
         match self.colorspace.num_components() {
             3 => self.decode_inner_generic::<3>(pixels)?,
-- 
2.43.0


From ca27994d1500cc4362cd4a3f355d73951527cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 037/180] fix: zune-qoi: report a failed write of a DIFF chunk

---
 crates/zune-qoi/src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-qoi/src/encoder.rs b/crates/zune-qoi/src/encoder.rs
index 60156fb..9ec78b7 100644
--- a/crates/zune-qoi/src/encoder.rs
+++ b/crates/zune-qoi/src/encoder.rs
@@ -185,12 +185,12 @@ impl<'a> QoiEncoder<'a> {
                             && !(2..=253).contains(&vg)
                             && !(2..=253).contains(&vb)
                         {
-                            stream.write_u8(
+                            stream.write_u8_err(
                                 QOI_OP_DIFF
                                     | vr.wrapping_add(2) << 4
                                     | vg.wrapping_add(2) << 2
                                     | vb.wrapping_add(2)
-                            );
+                            )?;
                         } else if !(8..=247).contains(&vg_r)
                             && !(32..=223).contains(&vg)
                             && !(8..=247).contains(&vg_b)
-- 
2.43.0


From 9a5d37371394eeacdf2c76ab03da70d914d6dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 038/180] fix: zune-farbfeld: decode_into compares samples with
 samples

---
 crates/zune-farbfeld/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 95b7348..8a94117 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -120,9 +120,11 @@ where
         if !self.decoded_headers {
             self.decode_headers()?;
         }
+        // output_buffer_size is in bytes, the sink is made of u16
         let expected_len = self
             .output_buffer_size()
-            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?;
+            .ok_or(FarbFeldErrors::Generic("Overflowed int"))?
+            / 2;
 
         if sink.len() < expected_len {
             return Err(FarbFeldErrors::Generic("Too small output buffer size"));
-- 
2.43.0


From b1832de5179cf425341992d897ae521c92d3b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 039/180] fix: zune-farbfeld: decode after decode_headers does
 not read the header again

---
 crates/zune-farbfeld/src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 8a94117..23444e7 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -154,7 +154,9 @@ where
     /// assert!(decoder.decode().is_err());
     /// ```
     pub fn decode(&mut self) -> Result<Vec<u16>, FarbFeldErrors> {
-        self.decode_headers()?;
+        if !self.decoded_headers {
+            self.decode_headers()?;
+        }
 
         let size = (FARBFELD_COLORSPACE.num_components()/*RGBA*/)
             .saturating_mul(self.width)
-- 
2.43.0


From a6615c7136bb6d1e7c9ef204e8e3d9c607162fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:12 +0000
Subject: [PATCH 040/180] fix: zune-farbfeld: report failed writes of the
 header

---
 crates/zune-farbfeld/src/encoder.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/zune-farbfeld/src/encoder.rs b/crates/zune-farbfeld/src/encoder.rs
index e9aeda1..96e76e7 100644
--- a/crates/zune-farbfeld/src/encoder.rs
+++ b/crates/zune-farbfeld/src/encoder.rs
@@ -123,9 +123,7 @@ impl<'a> FarbFeldEncoder<'a> {
     fn encode_headers<T: ZByteWriterTrait>(
         &self, stream: &mut ZWriter<T>
     ) -> Result<(), FarbFeldEncoderErrors> {
-        // these routines panic because I need them
-        // to panic as it is a me problem
-        stream.write_all(b"farbfeld").unwrap();
+        stream.write_all(b"farbfeld")?;
 
         if (self.options.width() as u64) > u64::from(u32::MAX) {
             // error out
@@ -139,8 +137,8 @@ impl<'a> FarbFeldEncoder<'a> {
             ));
         }
         // dimensions
-        stream.write_u32_be(self.options.width() as u32);
-        stream.write_u32_be(self.options.height() as u32);
+        stream.write_u32_be_err(self.options.width() as u32)?;
+        stream.write_u32_be_err(self.options.height() as u32)?;
 
         Ok(())
     }
-- 
2.43.0


From 17ad7a886ddb706e1bf35219a1b504c6c35f3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 041/180] fix: zune-ppm: one whitespace ends the PGM/PPM
 header, the rest is pixels

---
 crates/zune-ppm/src/decoder.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a169a88..e06a0ab 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -400,8 +400,9 @@ where
         skip_spaces(&mut self.reader)?;
         // read max value
         let max_value = self.get_integer()?;
-        // skip ascii space
-        skip_spaces(&mut self.reader)?;
+        // a single whitespace separates the header from the pixels, anything after it,
+        // including bytes that look like whitespace, is pixel data
+        self.skip_header_end()?;
 
         if max_value > usize::from(u16::MAX) {
             let msg = format!("MAX value {max_value} greater than 65535");
@@ -420,6 +421,26 @@ where
         Ok(())
     }
 
+    /// Consume the single whitespace byte (possibly preceded by a comment)
+    /// that ends a P5 or P6 header
+    fn skip_header_end(&mut self) -> Result<(), PPMDecodeErrors> {
+        if self.reader.eof()? {
+            return Ok(());
+        }
+        let mut byte = self.reader.read_u8();
+
+        if byte == b'#' {
+            while byte != b'\n' && !self.reader.eof()? {
+                byte = self.reader.read_u8();
+            }
+        } else if !byte.is_ascii_whitespace() {
+            return Err(PPMDecodeErrors::InvalidHeader(
+                "Expected whitespace after the maximum value".to_string()
+            ));
+        }
+        Ok(())
+    }
+
     fn get_integer(&mut self) -> Result<usize, PPMDecodeErrors> {
         let mut value = 0_usize;
 
-- 
2.43.0


From d76e5df13745c6a246ac2da686b1336878c6b1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 042/180] fix: zune-ppm: do not skip pixel bytes that look like
 whitespace after ENDHDR or the PFM scale

---
 crates/zune-ppm/src/decoder.rs | 43 ++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index e06a0ab..26c1e03 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -250,12 +250,21 @@ where
             skip_spaces(&mut self.reader)?;
 
             let value_size = get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
-            let value = &byte_header[..value_size];
+            let value = byte_header[..value_size].trim_ascii();
+
+            if value == b"ENDHDR" {
+                // pixels start right after this line
+                let mut byte = byte_header[value_size - 1];
+
+                while byte != b'\n' && !self.reader.eof()? {
+                    byte = self.reader.read_u8();
+                }
+                break 'infinite;
+            }
+            skip_spaces(&mut self.reader)?;
 
             match value {
-                // Notice the explicit space,
-                // It's needed
-                b"WIDTH " => {
+                b"WIDTH" => {
                     self.width = self.get_integer()?;
 
                     if self.width > self.options.max_width() {
@@ -266,7 +275,7 @@ where
                     }
                     seen_width = true;
                 }
-                b"HEIGHT " => {
+                b"HEIGHT" => {
                     self.height = self.get_integer()?;
 
                     if self.height > self.options.max_height() {
@@ -278,7 +287,7 @@ where
 
                     seen_height = true;
                 }
-                b"DEPTH " => {
+                b"DEPTH" => {
                     let depth = self.get_integer()?;
 
                     if depth > 4 {
@@ -288,7 +297,7 @@ where
 
                     seen_depth = true;
                 }
-                b"MAXVAL " => {
+                b"MAXVAL" => {
                     let max_value = self.get_integer()?;
 
                     if max_value > usize::from(u16::MAX) {
@@ -305,7 +314,7 @@ where
                     }
                     seen_max_val = true;
                 }
-                b"TUPLTYPE " => {
+                b"TUPLTYPE" => {
                     let value_size =
                         get_bytes_until_whitespace(&mut self.reader, &mut byte_header)?;
                     let new_value = &byte_header[..value_size];
@@ -330,15 +339,11 @@ where
                     seen_tuple_type = true;
                 }
                 _ => {
-                    if value.starts_with(b"ENDHDR") {
-                        break 'infinite;
-                    } else {
-                        let msg = format!(
-                            "Unknown/unsupported header declaration {}",
-                            String::from_utf8_lossy(value)
-                        );
-                        return Err(PPMDecodeErrors::InvalidHeader(msg));
-                    }
+                    let msg = format!(
+                        "Unknown/unsupported header declaration {}",
+                        String::from_utf8_lossy(value)
+                    );
+                    return Err(PPMDecodeErrors::InvalidHeader(msg));
                 }
             }
         }
@@ -669,7 +674,7 @@ where
 /// Return a reference to all bytes preceding a whitespace.
 ///
 /// # Note
-/// This skips all whitespaces after it finds one. That is the desired implementation
+/// This consumes a single whitespace, bytes after it may be pixel data
 ///
 /// # Panics
 /// If end < start
@@ -688,8 +693,6 @@ fn get_bytes_until_whitespace<T: ZByteReaderTrait>(
         if byte.is_ascii_whitespace() {
             // mark where the text ends
             end = z.position()?;
-            // skip any proceeding whitespace
-            skip_spaces(z)?;
             break;
         }
         // push the byte read
-- 
2.43.0


From bcdf1a3ca7a566a7735c4ef435d515528002ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 043/180] fix: zune-ppm: flip PFM images of odd height
 correctly

---
 crates/zune-ppm/src/decoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index 26c1e03..b2339e3 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -619,11 +619,13 @@ where
                 };
 
                 // pfm uses bottom-top orientation, so let's fix it
-                let length = result.len() / 2;
+                let single_stride = self.width * self.colorspace.num_components();
+                let length = (self.height / 2) * single_stride;
 
                 let (in_img_top, in_img_bottom) = result.split_at_mut(length);
+                // the middle row of an image with an odd height stays in place
+                let in_img_bottom = &mut in_img_bottom[(self.height % 2) * single_stride..];
 
-                let single_stride = self.width * self.colorspace.num_components();
                 let mut stride = vec![0.; single_stride];
 
                 for (in_dim, out_dim) in in_img_top
-- 
2.43.0


From b8fb8955341ed10ab128626d31d31ce97bde7ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 044/180] fix: zune-ppm: report header numbers and image sizes
 that overflow

---
 crates/zune-ppm/src/decoder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index b2339e3..a5677ae 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -453,10 +453,10 @@ where
             let byte = self.reader.read_u8();
 
             if byte.is_ascii_digit() {
-                // if it overflows, we have bigger problems.
                 value = value
-                    .wrapping_mul(10_usize)
-                    .wrapping_add(usize::from(byte - b'0'))
+                    .checked_mul(10_usize)
+                    .and_then(|v| v.checked_add(usize::from(byte - b'0')))
+                    .ok_or(PPMDecodeErrors::GenericStatic("Number in header too large"))?;
             } else {
                 // rewind to the previous byte
                 self.reader.rewind(1)?;
@@ -564,8 +564,12 @@ where
             ));
         }
         // okay check if the stream is large enough for the bit depth
-        let size =
-            self.width * self.height * self.colorspace.num_components() * self.bit_depth.size_of();
+        let size = self
+            .width
+            .checked_mul(self.height)
+            .and_then(|v| v.checked_mul(self.colorspace.num_components()))
+            .and_then(|v| v.checked_mul(self.bit_depth.size_of()))
+            .ok_or(PPMDecodeErrors::GenericStatic("Image size overflows"))?;
 
         return match self.bit_depth.bit_type() {
             BitType::U8 => {
-- 
2.43.0


From 54a54e71f8dedc32cff92dccc25b29065b3ac9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 045/180] fix: zune-ppm: report a failed write of the header

---
 crates/zune-ppm/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index b860aa2..358ad17 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -136,7 +136,7 @@ impl<'a> PPMEncoder<'a> {
             }
         };
 
-        stream.write_all(header.as_bytes()).unwrap();
+        stream.write_all(header.as_bytes())?;
 
         Ok(())
     }
-- 
2.43.0


From 6fa8c8e15921a5b337c6aa74b695405d79060079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 046/180] fix: zune-ppm: report an unsupported bit depth
 instead of panicking

---
 crates/zune-ppm/src/encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index 358ad17..92c2f58 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -151,6 +151,9 @@ impl<'a> PPMEncoder<'a> {
     /// - Ok(size): The actual number of bytes written
     /// - Err: An error in case something bad happened, contents of `out` are to be treated as invalid
     pub fn encode<T: ZByteWriterTrait>(&self, out: T) -> Result<usize, PPMEncodeErrors> {
+        if !matches!(self.options.depth().bit_type(), BitType::U8 | BitType::U16) {
+            return Err(PPMEncodeErrors::Static("Unsupported bit depth for ppm"));
+        }
         let found = self.data.len();
         let expected = calc_expected_size(self.options);
 
-- 
2.43.0


From 2d8e6847fa880bc636e8a489f487fd8b6acfeefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 047/180] fix: zune-ppm: ENDHDR starts its line

---
 crates/zune-ppm/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-ppm/src/encoder.rs b/crates/zune-ppm/src/encoder.rs
index 92c2f58..535a951 100644
--- a/crates/zune-ppm/src/encoder.rs
+++ b/crates/zune-ppm/src/encoder.rs
@@ -131,7 +131,7 @@ impl<'a> PPMEncoder<'a> {
                 let tuple_type = convert_tuple_type_to_pam(colorspace);
 
                 format!(
-                    "P7\nWIDTH {width}\nHEIGHT {height}\nDEPTH {components}\nMAXVAL {max_val}\nTUPLTYPE {tuple_type}\n ENDHDR\n",
+                    "P7\nWIDTH {width}\nHEIGHT {height}\nDEPTH {components}\nMAXVAL {max_val}\nTUPLTYPE {tuple_type}\nENDHDR\n",
                 )
             }
         };
-- 
2.43.0


From 69d81685c93804f9c8dd5ffc823024308511deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 048/180] fix: zune-hdr: decode every RGBE exponent

---
 crates/zune-hdr/src/decoder.rs | 56 ++++++----------------------------
 1 file changed, 9 insertions(+), 47 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index ed514d3..8344b06 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -465,55 +465,17 @@ fn convert_scanline(in_scanline: &[u8], out_scanline: &mut [f32]) {
         if rgbe[3] == 0 {
             out[0..3].fill(0.0);
         } else {
-            // separate concerns to generate code that has better
-            //  ILP
-            let epxo = i32::from(rgbe[3]) - 128;
-
-            if epxo.is_positive() {
-                out[0] = convert_pos(i32::from(rgbe[0]), epxo);
-                out[1] = convert_pos(i32::from(rgbe[1]), epxo);
-                out[2] = convert_pos(i32::from(rgbe[2]), epxo);
-            } else {
-                out[0] = convert_neg(i32::from(rgbe[0]), epxo);
-                out[1] = convert_neg(i32::from(rgbe[1]), epxo);
-                out[2] = convert_neg(i32::from(rgbe[2]), epxo);
-            }
+            // value * 2^(exponent - (128 + 8)), any exponent is valid and the products are exact
+            let scale = exp2i(i32::from(rgbe[3]) - 136);
+
+            out[0] = (f64::from(rgbe[0]) * scale) as f32;
+            out[1] = (f64::from(rgbe[1]) * scale) as f32;
+            out[2] = (f64::from(rgbe[2]) * scale) as f32;
         }
     }
 }
 
-fn ldexp_pos(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x * pow
-}
-fn ldexp_neg(x: f32, exp: u32) -> f32 {
-    let pow = 1_u32.wrapping_shl(exp) as f32;
-    x / pow
-}
-/// Fast calculation of  x*(2^exp).
-///
-/// exp is assumed to be integer
-// #[inline]
-// fn ldxep(x: f32, exp: i32) -> f32 {
-//     let pow = (1_i32 << (exp.abs() & 31)) as f32;
-//     if exp.is_negative() {
-//         // if negative 2 ^ exp is the same as 1 / (1<<exp.abs()) since
-//         // 2^(-exp) is sexpressed as 1/(2^exp)
-//         x / pow
-//     } else {
-//         // 2^exp is same as 1<<exp, but latter is way faster
-//         x * pow
-//     }
-// }
-
-#[inline]
-fn convert_pos(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_pos(v, exponent.unsigned_abs() & 31)
-}
-
-#[inline]
-fn convert_neg(val: i32, exponent: i32) -> f32 {
-    let v = (val as f32) / 256.0;
-    ldexp_neg(v, exponent.unsigned_abs() & 31)
+/// 2^exp for exponents of normal f64 numbers
+fn exp2i(exp: i32) -> f64 {
+    f64::from_bits(((exp + 1023) as u64) << 52)
 }
-- 
2.43.0


From 17a4b7efc7c9e8831f2bd0e0325320f9b2a951ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 049/180] fix: zune-hdr: repeat the previous pixel in old style
 run lengths

---
 crates/zune-hdr/src/decoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 8344b06..83b0d39 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -344,7 +344,8 @@ where
                 scanline[0] = 2;
                 scanline[3] = i;
 
-                self.decompress(&mut scanline[4..], self.width as i32 - 1, 0)?;
+                // the first pixel was read already, runs after it may repeat it
+                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -412,11 +413,11 @@ where
 
                 let mut i = i32::from(run) << shift;
 
-                while width > 0 && scanline_offset > 4 && i > 0 {
-                    scanline.copy_within(scanline_offset - 4..scanline_offset, 4);
+                while width > 0 && scanline_offset >= 4 && i > 0 {
+                    scanline.copy_within(scanline_offset - 4..scanline_offset, scanline_offset);
                     scanline_offset += 4;
                     i -= 1;
-                    width -= 4;
+                    width -= 1;
                 }
                 shift += 8;
 
-- 
2.43.0


From 2025d369011444dfbbc540e6cc74029ca2df46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 050/180] fix: zune-hdr: keep header values that contain an
 equals sign

---
 crates/zune-hdr/src/decoder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 83b0d39..5c25b20 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -136,7 +136,8 @@ where
                 // utf-8, we throw garbage to the dictionary if the image is garbage
                 let keys_and_values = String::from_utf8_lossy(&max_header_size[..size]);
 
-                let mut keys_and_values_split = keys_and_values.trim().split('=');
+                // only the first '=' separates, the value may contain more of them
+                let mut keys_and_values_split = keys_and_values.trim().splitn(2, '=');
                 let key = keys_and_values_split.next().unwrap().trim().to_string();
                 let value = keys_and_values_split.next().unwrap().trim().to_string();
                 self.metadata.insert(key, value);
-- 
2.43.0


From a1dc2c0501725aa26dcdbb119f9e300896f026af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 051/180] fix: zune-hdr: scanlines of a +X -Y image are its
 columns

---
 crates/zune-hdr/src/decoder.rs | 47 ++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 5c25b20..9e37c59 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -36,6 +36,8 @@ pub struct HdrDecoder<T: ZByteReaderTrait> {
     metadata:        BTreeMap<String, String>,
     width:           usize,
     height:          usize,
+    // scanlines are columns of the image, i.e. the resolution line is `+X w -Y h`
+    column_major:    bool,
     decoded_headers: bool
 }
 
@@ -94,6 +96,7 @@ where
             width: 0,
             height: 0,
             metadata: BTreeMap::new(),
+            column_major: false,
             decoded_headers: false
         }
     }
@@ -180,6 +183,7 @@ where
             ("+X", "-Y") => {
                 self.height = coords2.parse::<usize>()?;
                 self.width = coords1.parse::<usize>()?;
+                self.column_major = true;
             }
             (_, _) => {
                 return Err(HdrDecodeErrors::UnsupportedOrientation(
@@ -306,22 +310,28 @@ where
                 buffer.len()
             ));
         }
-        if self.width == 0 {
-           return Err(HdrDecodeErrors::Generic("Width cannot be 0"));
+        if self.width == 0 || self.height == 0 {
+           return Err(HdrDecodeErrors::Generic("Width and height cannot be 0"));
         }
 
-        // single width scanline
-        let mut scanline = vec![0_u8; self.width * 4]; // R,G,B,E
+        // pixels in a scanline and number of scanlines
+        let (scanline_len, scanlines) = if self.column_major {
+            (self.height, self.width)
+        } else {
+            (self.width, self.height)
+        };
+        // single scanline
+        let mut scanline = vec![0_u8; scanline_len * 4]; // R,G,B,E
 
-        let output_scanline_size = self.width * 3; // RGB, * width gives us size of one scanline
+        let output_scanline_size = scanline_len * 3; // RGB, * length gives us size of one scanline
 
         // read flat data
         for out_scanline in buffer
             .chunks_exact_mut(output_scanline_size)
-            .take(self.height)
+            .take(scanlines)
         {
-            if self.width < 8 || self.width > 0x7fff {
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+            if scanline_len < 8 || scanline_len > 0x7fff {
+                self.decompress(&mut scanline, scanline_len as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -332,7 +342,7 @@ where
                 // undo byte read
                 self.buf.rewind(1)?;
 
-                self.decompress(&mut scanline, self.width as i32, 0)?;
+                self.decompress(&mut scanline, scanline_len as i32, 0)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -346,7 +356,7 @@ where
                 scanline[3] = i;
 
                 // the first pixel was read already, runs after it may repeat it
-                self.decompress(&mut scanline, self.width as i32 - 1, 4)?;
+                self.decompress(&mut scanline, scanline_len as i32 - 1, 4)?;
                 convert_scanline(&scanline, out_scanline);
                 continue;
             }
@@ -357,7 +367,7 @@ where
                 let mut j = 0;
 
                 loop {
-                    if j >= self.width * 4 {
+                    if j >= scanline_len * 4 {
                         break;
                     }
                     let mut run = i32::from(self.buf.read_u8_err()?);
@@ -369,7 +379,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= scanline_len * 4 {
                                 break;
                             }
                             new_scanline[j] = val;
@@ -379,7 +389,7 @@ where
                         while run > 0 {
                             run -= 1;
 
-                            if j >= self.width * 4 {
+                            if j >= scanline_len * 4 {
                                 break;
                             }
 
@@ -392,6 +402,17 @@ where
             convert_scanline(&scanline, out_scanline);
         }
 
+        if self.column_major {
+            let columns = buffer[..output_size].to_vec();
+
+            for (x, column) in columns.chunks_exact(output_scanline_size).enumerate() {
+                for (y, pixel) in column.chunks_exact(3).enumerate() {
+                    let position = (y * self.width + x) * 3;
+                    buffer[position..position + 3].copy_from_slice(pixel);
+                }
+            }
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From b81fc9db336ea17284264becfa937f13f0b5c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:08 +0000
Subject: [PATCH 052/180] fix: zune-hdr: report pixel data that ends inside a
 run

---
 crates/zune-hdr/src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 9e37c59..9a4b3bd 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -336,7 +336,7 @@ where
                 continue;
             }
 
-            let mut i = self.buf.read_u8();
+            let mut i = self.buf.read_u8_err()?;
 
             if i != 2 {
                 // undo byte read
@@ -373,7 +373,7 @@ where
                     let mut run = i32::from(self.buf.read_u8_err()?);
 
                     if run > 128 {
-                        let val = self.buf.read_u8();
+                        let val = self.buf.read_u8_err()?;
                         run &= 127;
 
                         while run > 0 {
@@ -393,7 +393,7 @@ where
                                 break;
                             }
 
-                            new_scanline[j] = self.buf.read_u8();
+                            new_scanline[j] = self.buf.read_u8_err()?;
                             j += 4;
                         }
                     }
-- 
2.43.0


From d10000a61224991ef2807d950e3fe5da6540fe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 053/180] fix: zune-hdr: report dimensions that overflow

---
 crates/zune-hdr/src/decoder.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zune-hdr/src/decoder.rs b/crates/zune-hdr/src/decoder.rs
index 9a4b3bd..d76d5d6 100644
--- a/crates/zune-hdr/src/decoder.rs
+++ b/crates/zune-hdr/src/decoder.rs
@@ -252,7 +252,10 @@ where
     ///  error occurred during decoding.
     pub fn decode(&mut self) -> Result<Vec<f32>, HdrDecodeErrors> {
         self.decode_headers()?;
-        let mut buffer = vec![0.0f32; self.width * self.height * 3];
+        let size = self
+            .output_buffer_size()
+            .ok_or(HdrDecodeErrors::Generic("Image dimensions overflow"))?;
+        let mut buffer = vec![0.0f32; size];
 
         self.decode_into(&mut buffer)?;
 
@@ -302,7 +305,9 @@ where
             self.decode_headers()?;
         }
 
-        let output_size = self.output_buffer_size().unwrap();
+        let output_size = self
+            .output_buffer_size()
+            .ok_or(HdrDecodeErrors::Generic("Image dimensions overflow"))?;
 
         if buffer.len() < output_size {
             return Err(HdrDecodeErrors::TooSmallOutputArray(
-- 
2.43.0


From 5b32096d6e8f9880a1faf5406bd8a09371f5bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 054/180] fix: zune-hdr: report a failed write of a run length

---
 crates/zune-hdr/src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 2bb9f41..fda65da 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -239,7 +239,7 @@ fn rle<T: ZByteWriterTrait>(
         while cur < beg_run {
             let nonrun_count = 128.min(beg_run - cur);
             buf[0] = nonrun_count as u8;
-            writer.write_u8(buf[0]);
+            writer.write_u8_err(buf[0])?;
             for i in 0..nonrun_count {
                 writer.write_u8_err(data[(cur + i) * 4])?;
             }
-- 
2.43.0


From ae59d6ab95e092c40b62ab18b76eb9741c0817c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:39 +0000
Subject: [PATCH 055/180] fix: zune-hdr: encode with the exact shared exponent

---
 crates/zune-hdr/src/encoder.rs | 91 +++++-----------------------------
 1 file changed, 13 insertions(+), 78 deletions(-)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index fda65da..59e1ee5 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -261,88 +261,23 @@ fn float_to_rgbe(rgb: &[f32; 3], rgbe: &mut [u8; 4]) {
     let v = rgb.iter().fold(f32::MIN, |x, y| x.max(*y));
 
     if v > 1e-32 {
-        let old_v = v;
-        let (mut v, e) = frexp(v);
-        v = v * 256. / old_v;
-        rgbe[0] = (rgb[0] * v).clamp(0.0, 255.0) as u8;
-        rgbe[1] = (rgb[1] * v).clamp(0.0, 255.0) as u8;
-        rgbe[2] = (rgb[2] * v).clamp(0.0, 255.0) as u8;
+        // the largest exponent that fits is 127, colors above that are clipped
+        let e = exponent(v).min(127);
+        // 2^(8 - e)
+        let scale = f64::from_bits(((8 - e + 1023) as u64) << 52);
 
-        rgbe[3] = (e.wrapping_add(128)) as u8;
+        for (out, color) in rgbe.iter_mut().zip(rgb) {
+            *out = (f64::from(*color) * scale).clamp(0.0, 255.0) as u8;
+        }
+        rgbe[3] = (e + 128) as u8;
     } else {
         rgbe.fill(0);
     }
 }
 
-#[rustfmt::skip]
-pub fn abs(num: f32) -> f32
-{
-    // standard compliant
-    // handles NAN and infinity.
-    // pretty cool
-    f32::from_bits(num.to_bits() & (i32::MAX as u32))
-}
-
-/// Implementation of signum that works in no_std
-#[rustfmt::skip]
-pub fn signum(num: f32) -> f32
-{
-    if num.is_nan() { f32::NAN } else if num.is_infinite()
-    {
-        if num.is_sign_positive() { 0.0 } else { -0.0 }
-    } else if num > 0.0 { 1.0 } else { -1.0 }
-}
-
-fn floor(num: f32) -> f32 {
-    if num.is_nan() || num.is_infinite() {
-        /* handle infinities and nan */
-        return num;
-    }
-    let n = num as u64;
-    let d = n as f32;
-
-    if d == num || num >= 0.0 {
-        d
-    } else {
-        d - 1.0
-    }
-}
-
-/// Fast log2 approximation
-/// (we really don't need that accurate)
-#[allow(clippy::cast_precision_loss, clippy::cast_sign_loss)]
-fn fast_log2(x: f32) -> f32 {
-    /*
-     * Fast log approximation from
-     * https://github.com/romeric/fastapprox
-     *
-     * Some pretty good stuff.
-     */
-    let vx = x.to_bits();
-    let mx = (vx & 0x007F_FFFF) | 0x3f00_0000;
-    let mx_f = f32::from_bits(mx);
-
-    let mut y = vx as f32;
-    // 1/(1<<23)
-    y *= 1.192_092_9e-7;
-
-    y - 124.225_52 - 1.498_030_3 * mx_f - 1.725_88 / (0.352_088_72 + mx_f)
-}
-
-/// non standard frexp implementation
-fn frexp(s: f32) -> (f32, i32) {
-    // from https://stackoverflow.com/a/55696477
-    if 0.0 == s {
-        (s, 0)
-    } else {
-        let lg = fast_log2(abs(s));
-        let lg_floor = floor(lg);
-        // Note: This is the only reason we need the standard library
-        // I haven't found a good exp2 function, fast_exp2 doesn't work
-        // and libm/musl exp2 introduces visible color distortions and is slow, so for
-        // now let's stick to whatever the platform provides
-        let x = (lg - lg_floor - 1.0).exp2();
-        let exp = lg_floor + 1.0;
-        (signum(s) * x, exp as i32)
-    }
+/// The exponent `e` for which `0.5 <= num / 2^e < 1`
+///
+/// `num` must be positive and not be subnormal
+fn exponent(num: f32) -> i32 {
+    (num.to_bits() >> 23) as i32 - 126
 }
-- 
2.43.0


From 0908b5fee6912ddd19409d9c37b02b5e8c5761b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:46 +0000
Subject: [PATCH 056/180] fix: zune-hdr: report an image without pixels instead
 of panicking

---
 crates/zune-hdr/src/encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-hdr/src/encoder.rs b/crates/zune-hdr/src/encoder.rs
index 59e1ee5..87207c8 100644
--- a/crates/zune-hdr/src/encoder.rs
+++ b/crates/zune-hdr/src/encoder.rs
@@ -145,6 +145,9 @@ impl<'a> HdrEncoder<'a> {
                 self.options.colorspace()
             ));
         }
+        if expected == 0 {
+            return Err(HdrEncodeErrors::Static("width and height cannot be 0"));
+        }
         let mut writer = ZWriter::new(out);
         // reserve space
         let size = self
-- 
2.43.0


From 26be323c2865e8af9e86a65cf87d4ae7cf34e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 057/180] fix: zune-bmp: a 16 byte header has no compression
 field

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 23259bb..62295a2 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -319,7 +319,7 @@ where
                 height = self.bytes.get_u32_le_err()?;
                 _planes = self.bytes.get_u16_le_err()?;
                 bpp = self.bytes.get_u16_le_err()?;
-                compression = if hsize >= 40 {
+                compression = if ihsize >= 40 {
                     match BmpCompression::from_u32(self.bytes.get_u32_le_err()?) {
                         Some(c) => c,
                         None => {
-- 
2.43.0


From 28278304953b212313d1c6982ad2eeef20395385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 058/180] fix: zune-bmp: read only the masks and color fields
 the header has

---
 crates/zune-bmp/src/decoder.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 62295a2..9e682ec 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -344,16 +344,21 @@ where
                     trace!("Color used : {}", color_used);
                     trace!("Important Colors: {}", important_colors);
 
-                    self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
-                    self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    // masks are part of the bigger windows headers, or follow
+                    // the 40 byte one if it says so
+                    if compression == BmpCompression::BITFIELDS || (ihsize > 40 && ihsize != 64) {
+                        self.rgb_bitfields[0] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[1] = self.bytes.get_u32_le_err()?;
+                        self.rgb_bitfields[2] = self.bytes.get_u32_le_err()?;
+                    }
 
                     let mut colorspace_type = 0;
 
-                    if ihsize > 40 {
+                    if ihsize >= 56 && ihsize != 64 {
                         // alpha mask
                         self.rgb_bitfields[3] = self.bytes.get_u32_le_err()?;
-
+                    }
+                    if ihsize >= 108 {
                         colorspace_type = self.bytes.get_u32_le_err()?;
 
                         const BMP_DENOM: f64 = 0x40000000_u32 as f64;
-- 
2.43.0


From ac21496234cc2e25401c8802225c8950c3349b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 059/180] fix: zune-bmp: row padding of 16 bit images depends
 on the width

---
 crates/zune-bmp/src/decoder.rs | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 9e682ec..dcfdf90 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -861,41 +861,20 @@ where
                                     // PS: Not sure if it works
                                     assert!(self.pix_fmt.num_components() >= 3);
 
-                                    // Number of iterations we expect to go
-                                    let num_iters = buf.len() / pad_size;
-                                    // Input bytes per every output byte width
-                                    //
-                                    // this does ceil division to ensure input is appropriately rounded
-                                    // of to a multiple of 4 to handle pad bytes in BMP
-                                    let input_bytes_per_width = (((num_iters * 2) + 3) / 4) * 4;
-
-                                    // we chunk according to number of iterations, which is usually the
-                                    // image dimensions (w*h*color components), this is given by the size of
-                                    // buf - output buffer is appropriately sized for this-.
-                                    // for the input, we are reading two bytes( for every three bytes (or four)
-                                    // consumed hence if we know how many iterations we will be doing
-                                    // we can use that to chunk appropriately
+                                    // Each row uses two bytes per pixel and is rounded
+                                    // up to a multiple of 4
+                                    let padding_bytes = (self.width & 1) * 2;
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
-                                        let mut count = 0;
-                                        for raw_pix in out
-                                            .chunks_exact_mut(self.pix_fmt.num_components())
-                                            .take(input_bytes_per_width)
+                                        for raw_pix in
+                                            out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
                                                 self.bytes.read_fixed_bytes_or_zero::<2>()
                                             ));
-                                            count += 2;
 
                                             conv_function(v, raw_pix);
                                         }
-                                        //assert_eq!(count, input_bytes_per_width * 2);
-                                        debug_assert!(
-                                            input_bytes_per_width * 2 >= count,
-                                            "Input bytes cannot be greater than count"
-                                        );
-                                        let padding_bytes =
-                                            (input_bytes_per_width * 2).saturating_sub(count);
                                         self.bytes.skip(padding_bytes)?;
                                     }
                                     self.image_in_bgra = true;
-- 
2.43.0


From 62542e245bf0d39792a5aea781fae882bf588655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 060/180] fix: zune-bmp: skip the row padding of 1, 2 and 4 bit
 images

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index dcfdf90..4f6e5f8 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -923,6 +923,8 @@ where
                     // before expanding them in a separate pass
                     let in_width_bytes = ((self.width * usize::from(self.depth)) + 7) / 8;
                     let mut in_width_buf = vec![0_u8; in_width_bytes];
+                    // rows are padded to a multiple of 4 bytes
+                    let padding_bytes = in_width_bytes.wrapping_neg() & 3;
 
                     let scanline_size = width_bytes * 3;
                     let mut scanline_bytes = vec![0_u8; scanline_size];
@@ -932,6 +934,7 @@ where
                     {
                         // read a whole width scanline before expanding
                         self.bytes.read_exact_bytes(&mut in_width_buf)?;
+                        self.bytes.skip(padding_bytes)?;
 
                         expand_bits_to_byte(
                             self.depth as usize,
-- 
2.43.0


From 23bc8cafb8292771df0df07828fbc95e9eb6cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 061/180] fix: zune-bmp: do not swap the samples of grayscale
 images

---
 crates/zune-bmp/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 4f6e5f8..5e35fa0 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -896,7 +896,7 @@ where
                                 // skip padding bytes
                                 self.bytes.skip(in_width.saturating_sub(out_width))?;
                                 // then flip bgr to rgb
-                                if !PRESERVE_BGRA {
+                                if !PRESERVE_BGRA && self.pix_fmt == BmpPixelFormat::RGB {
                                     for pix_pair in out.chunks_exact_mut(3) {
                                         pix_pair.swap(0, 2);
                                     }
-- 
2.43.0


From 4ccf267c3b8d4163b60877d0b3a775a898254243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 062/180] fix: zune-bmp: shift each channel by its own mask
 when preserving BGRA

---
 crates/zune-bmp/src/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 5e35fa0..a5f4dbc 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -822,9 +822,9 @@ where
                                 // Anonymous conversion function
                                 let conv_function = |v: u32, a: &mut [u8]| {
                                     if PRESERVE_BGRA {
-                                        a[0] = shift_signed(v & mb, rshift, rcount) as u8;
+                                        a[0] = shift_signed(v & mb, bshift, bcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-                                        a[2] = shift_signed(v & mr, bshift, bcount) as u8;
+                                        a[2] = shift_signed(v & mr, rshift, rcount) as u8;
                                     } else {
                                         a[0] = shift_signed(v & mr, rshift, rcount) as u8;
                                         a[1] = shift_signed(v & mg, gshift, gcount) as u8;
-- 
2.43.0


From 0836e0ea33056dea10e6dfb06f079cdb9569a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 063/180] fix: zune-bmp: the last line of an RLE4 image may
 have an end of line code

---
 crates/zune-bmp/src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index a5f4dbc..a74bd4f 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1169,9 +1169,14 @@ where
                         // move to the next line
                         line -= 1;
                         if line < 0 {
-                            return Err(BmpDecoderErrors::Generic(format!(
-                                "Line less than 0 {line}"
-                            )));
+                            return if self.bytes.get_u16_be() == 1 {
+                                // end of picture
+                                Ok(pixels)
+                            } else {
+                                Err(BmpDecoderErrors::Generic(format!(
+                                    "Line less than 0 {line}"
+                                )))
+                            };
                         }
                         // move to the next line
                         output = &mut pixels
-- 
2.43.0


From bb238692fcea77d9d9178f51019ca16622d4386b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 064/180] fix: zune-bmp: report a too small output buffer
 instead of panicking

---
 crates/zune-bmp/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index a74bd4f..d5c28fb 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -738,6 +738,9 @@ where
             .output_buf_size()
             .ok_or(BmpDecoderErrors::OverFlowOccurred)?;
 
+        if buf.len() < output_size {
+            return Err(BmpDecoderErrors::TooSmallBuffer(output_size, buf.len()));
+        }
         let buf = &mut buf[0..output_size];
 
         if self.comp == BmpCompression::RLE4 || self.comp == BmpCompression::RLE8 {
-- 
2.43.0


From 8c048e869924a0d2c3aa8974ba06a0e0b47c42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 065/180] fix: zune-bmp: report uncompressed pixel data that
 ends early

---
 crates/zune-bmp/src/decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index d5c28fb..5cc54e6 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -798,7 +798,7 @@ where
                                 // as 255
                                 for out in buf.rchunks_exact_mut(pad_size) {
                                     for a in out.chunks_exact_mut(4) {
-                                        let mut pixels = self.bytes.read_fixed_bytes_or_zero::<4>();
+                                        let mut pixels = self.bytes.read_fixed_bytes_or_error::<4>()?;
                                         // swap bgr and rgb
                                         if !PRESERVE_BGRA {
                                             pixels.swap(0, 2);
@@ -850,7 +850,7 @@ where
 
                                     for out in buf.rchunks_exact_mut(pad_size) {
                                         for raw_pix in out.chunks_exact_mut(4) {
-                                            let v = self.bytes.get_u32_le();
+                                            let v = self.bytes.get_u32_le_err()?;
                                             conv_function(v, raw_pix);
                                         }
                                     }
@@ -873,7 +873,7 @@ where
                                             out.chunks_exact_mut(self.pix_fmt.num_components())
                                         {
                                             let v = u32::from(u16::from_le_bytes(
-                                                self.bytes.read_fixed_bytes_or_zero::<2>()
+                                                self.bytes.read_fixed_bytes_or_error::<2>()?
                                             ));
 
                                             conv_function(v, raw_pix);
@@ -1077,7 +1077,7 @@ where
 
             for out_stride in buf.rchunks_exact_mut(self.width * 4).take(self.height) {
                 for chunks in out_stride.chunks_exact_mut(4) {
-                    let byte = self.bytes.read_u8();
+                    let byte = self.bytes.read_u8_err()?;
                     let entry = palette[usize::from(byte)];
 
                     chunks[0] = entry.red;
@@ -1090,7 +1090,7 @@ where
         } else {
             for out_stride in buf.rchunks_exact_mut(self.width * 3).take(self.height) {
                 for chunks in out_stride.chunks_exact_mut(3) {
-                    let byte = self.bytes.read_u8();
+                    let byte = self.bytes.read_u8_err()?;
                     let entry = palette[usize::from(byte)];
 
                     chunks[0] = entry.red;
-- 
2.43.0


From 991e517d68439ac8233d4c9e8e5106055d553a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 066/180] fix: zune-bmp: an RLE8 image that ends early is an
 error in strict mode

---
 crates/zune-bmp/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-bmp/src/decoder.rs b/crates/zune-bmp/src/decoder.rs
index 5cc54e6..94ee16e 100644
--- a/crates/zune-bmp/src/decoder.rs
+++ b/crates/zune-bmp/src/decoder.rs
@@ -1413,6 +1413,11 @@ where
                     }
                 }
             }
+            if self.options.strict_mode() {
+                return Err(BmpDecoderErrors::GenericStatic(
+                    "RLE data has no end of picture code"
+                ));
+            }
             warn!("RLE warning, no end of picture code");
             Ok(pixels)
         }
-- 
2.43.0


From 0e8c73b437c93d81dac7f5473ecdca262e1aff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 067/180] fix: zune-psd: 16 bit samples are native endian after
 decode_raw

---
 crates/zune-psd/src/decoder.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index de64502..947447c 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -316,11 +316,11 @@ where
             match self.depth {
                 BitDepth::Sixteen => {
                     for pixel in result.chunks_exact_mut(8) {
-                        let px3 = u16::from_be_bytes(pixel[6..8].try_into().unwrap());
+                        let px3 = u16::from_ne_bytes(pixel[6..8].try_into().unwrap());
                         if px3 != 0 && px3 != 65535 {
-                            let px0 = u16::from_be_bytes(pixel[0..2].try_into().unwrap());
-                            let px1 = u16::from_be_bytes(pixel[2..4].try_into().unwrap());
-                            let px2 = u16::from_be_bytes(pixel[4..6].try_into().unwrap());
+                            let px0 = u16::from_ne_bytes(pixel[0..2].try_into().unwrap());
+                            let px1 = u16::from_ne_bytes(pixel[2..4].try_into().unwrap());
+                            let px2 = u16::from_ne_bytes(pixel[4..6].try_into().unwrap());
 
                             let a = f32::from(px3) / 65535.0;
                             let ra = 1.0 / a;
@@ -371,7 +371,8 @@ where
                 .chunks_exact(2)
                 .map(|chunk| {
                     let value: [u8; 2] = chunk.try_into().unwrap();
-                    u16::from_be_bytes(value)
+                    // decode_raw stores samples in native endian
+                    u16::from_ne_bytes(value)
                 })
                 .collect();
 
-- 
2.43.0


From 973205d950640b332da98dfcb8bff701390774cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:13 +0000
Subject: [PATCH 068/180] fix: zune-psd: report run length data that ends early

---
 crates/zune-psd/src/decoder.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 947447c..65d84c5 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -391,7 +391,7 @@ where
         let mut position = 0;
 
         while nleft > 0 {
-            let mut len = usize::from(self.stream.read_u8());
+            let mut len = usize::from(self.stream.read_u8_err()?);
 
             match len.cmp(&128) {
                 Ordering::Less => {
@@ -407,7 +407,7 @@ where
                     }
 
                     while len > 0 {
-                        buffer[position] = self.stream.read_u8();
+                        buffer[position] = self.stream.read_u8_err()?;
                         position += self.channel_count;
                         len -= 1;
                     }
@@ -422,7 +422,7 @@ where
                         return Err(PSDDecodeErrors::BadRLE);
                     }
                     count += len;
-                    let val = self.stream.read_u8();
+                    let val = self.stream.read_u8_err()?;
 
                     if position + (self.channel_count * len) > buffer.len() {
                         return Err(PSDDecodeErrors::BadRLE);
-- 
2.43.0


From 2957103d79305fda26794b148264fca7b4ad7d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 069/180] fix: zune-psd: skip the row counts of every channel
 in the file

---
 crates/zune-psd/src/decoder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 65d84c5..3765054 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -50,7 +50,9 @@ where
     depth:          BitDepth,
     color_type:     Option<ColorModes>,
     compression:    CompressionMethod,
-    channel_count:  usize
+    channel_count:  usize,
+    /// channels stored in the file, may be more than the ones we return
+    file_channels:  usize
 }
 
 impl<T> PSDDecoder<T>
@@ -81,7 +83,8 @@ where
             depth: BitDepth::Eight,
             color_type: None,
             compression: CompressionMethod::NoCompression,
-            channel_count: 0
+            channel_count: 0,
+            file_channels: 0
         }
     }
 
@@ -117,6 +120,7 @@ where
         }
 
         self.channel_count = usize::from(channel_count);
+        self.file_channels = self.channel_count;
 
         let height = self.stream.get_u32_be_err()? as usize;
         let width = self.stream.get_u32_be_err()? as usize;
@@ -232,7 +236,7 @@ where
 
                 // The RLE-compressed data is preceded by a 2-byte data count for each row
                 // in the data, which we're going to just skip.
-                let skipped = self.height * self.channel_count * 2;
+                let skipped = self.height * self.file_channels * 2;
                 self.stream.skip(skipped)?;
 
                 let mut out_channel = vec![0; pixel_count * self.channel_count + 10];
-- 
2.43.0


From 7245d2a0de04794219e89259f2e96d1505ea0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 070/180] fix: zune-psd: reject images with fewer channels than
 their color mode needs

---
 crates/zune-psd/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 3765054..9250465 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -173,6 +173,11 @@ where
         } else {
             return Err(PSDDecodeErrors::Generic("Unknown color mode"));
         }
+        if matches!(color_enum, Some(ColorModes::RGB)) && channel_count < 3
+            || matches!(color_enum, Some(ColorModes::CYMK)) && channel_count < 4
+        {
+            return Err(PSDDecodeErrors::UnsupportedChannelCount(channel_count));
+        }
         self.color_type = color_enum;
 
         // skip mode data
-- 
2.43.0


From 80eecfd80c191e24750cbc6582feb269ce7212cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:22 +0000
Subject: [PATCH 071/180] fix: zune-psd: report dimensions that overflow

---
 crates/zune-psd/src/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zune-psd/src/decoder.rs b/crates/zune-psd/src/decoder.rs
index 9250465..a03cac6 100644
--- a/crates/zune-psd/src/decoder.rs
+++ b/crates/zune-psd/src/decoder.rs
@@ -227,7 +227,12 @@ where
             self.decode_headers()?;
         }
 
-        let pixel_count = self.width * self.height;
+        let pixel_count = self
+            .width
+            .checked_mul(self.height)
+            // every sample may take two bytes
+            .filter(|count| count.checked_mul(self.channel_count * 2 + 1).is_some())
+            .ok_or(PSDDecodeErrors::Generic("Image dimensions overflow"))?;
 
         let mut result = match (self.compression, self.depth) {
             (CompressionMethod::RLE, BitDepth::Eight) => {
-- 
2.43.0


From e0e7ea90ad4af2e8b6f5947ccc40553d760d1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 072/180] fix: zune-jpegxl: declare the bit depth of a 16 bit
 alpha channel

---
 crates/zune-jpegxl/src/encoder.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 7ef8e48..73ddc9c 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1517,7 +1517,19 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
         }
         if have_alpha {
             output.put_bits(2, 1); // extra channel
-            output.put_bits(1, 1); // all default (8 bit alpha)
+            match depth {
+                BitDepth::Eight => output.put_bits(1, 1), // all default (8 bit alpha)
+                _ => {
+                    output.put_bits(1, 0); // not all default
+                    output.put_bits(2, 0); // alpha channel
+                    output.put_bits(1, 0); // bit depth is not floating point
+                    output.put_bits(2, 0b11);
+                    output.put_bits(6, (depth.bit_size() - 1) as u64);
+                    output.put_bits(2, 0); // dim_shift is zero
+                    output.put_bits(2, 0); // no name
+                    output.put_bits(1, 0); // alpha is not premultiplied
+                }
+            }
         } else {
             output.put_bits(2, 0); // no extra channel
         }
-- 
2.43.0


From 5ec558d133229d4c0364aada9b485c1977fd34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:12 +0000
Subject: [PATCH 073/180] fix: zune-jpegxl: read 16 bit LumaA samples as
 unsigned

---
 crates/zune-jpegxl/src/color_convert.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-jpegxl/src/color_convert.rs b/crates/zune-jpegxl/src/color_convert.rs
index d300b18..3ac3b63 100644
--- a/crates/zune-jpegxl/src/color_convert.rs
+++ b/crates/zune-jpegxl/src/color_convert.rs
@@ -69,14 +69,14 @@ where
 
 pub fn fill_row_ga16<T>(pixels: &[u8], oxs: usize, luma: &mut [T], alpha: &mut [T])
 where
-    T: From<i16>
+    T: TryFrom<u16> + Default
 {
     for ((rg, lm), am) in pixels.chunks_exact(4).zip(luma).zip(alpha).take(oxs) {
-        let luma_bits = i16::from_ne_bytes([rg[0], rg[1]]);
-        let alpha_bits = i16::from_ne_bytes([rg[2], rg[3]]);
+        let luma_bits = u16::from_ne_bytes([rg[0], rg[1]]);
+        let alpha_bits = u16::from_ne_bytes([rg[2], rg[3]]);
 
-        *lm = T::from(luma_bits);
-        *am = T::from(alpha_bits);
+        *lm = T::try_from(luma_bits).unwrap_or_default();
+        *am = T::try_from(alpha_bits).unwrap_or_default();
     }
 }
 
-- 
2.43.0


From 82ef9ea47a781ad37943def860e52458a0fdb513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:28 +0000
Subject: [PATCH 074/180] fix: zune-jpegxl: encode images one pixel wide or
 high

---
 crates/zune-jpegxl/src/encoder.rs | 6 +++---
 crates/zune-jpegxl/src/errors.rs  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 73ddc9c..98dbdb7 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -1056,10 +1056,10 @@ impl<'a> JxlSimpleEncoder<'a> {
     /// Err(e): The error incase one is encountered
     ///
     pub fn encode<T: ZByteWriterTrait>(&self, sink: T) -> Result<usize, JxlEncodeErrors> {
-        if self.options.width() <= 1 {
+        if self.options.width() == 0 {
             return Err(JxlEncodeErrors::ZeroDimension("width"));
         }
-        if self.options.height() <= 1 {
+        if self.options.height() == 0 {
             return Err(JxlEncodeErrors::ZeroDimension("height"));
         }
         let depth = self.options.depth();
@@ -1475,7 +1475,7 @@ fn prepare_header(frame: &mut FrameState, add_image_header: bool, is_last: bool)
         output.put_bits(1, 0);
 
         let mut write_header = |size: usize, add_ration: bool| {
-            assert!(size > 1 && size < (1 << 30));
+            assert!(size >= 1 && size < (1 << 30));
             if size - 1 < (1 << 9) {
                 output.put_bits(2, 0);
                 output.put_bits(9, (size - 1) as u64);
diff --git a/crates/zune-jpegxl/src/errors.rs b/crates/zune-jpegxl/src/errors.rs
index ce4b5ee..22da97c 100644
--- a/crates/zune-jpegxl/src/errors.rs
+++ b/crates/zune-jpegxl/src/errors.rs
@@ -18,7 +18,7 @@ const MAX_DIMENSIONS: usize = 1 << 30;
 
 /// Errors that may arise during encoding
 pub enum JxlEncodeErrors {
-    /// One of the dimensions is less than 2
+    /// One of the dimensions is zero
     ZeroDimension(&'static str),
     /// The colorspace of the image isn't supported by
     /// the library
@@ -46,7 +46,7 @@ pub const SUPPORTED_DEPTHS: [BitDepth; 2] = [BitDepth::Eight, BitDepth::Sixteen]
 impl Debug for JxlEncodeErrors {
     fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
         match self {
-            JxlEncodeErrors::ZeroDimension(param) => writeln!(f, "The {param} is less than 2"),
+            JxlEncodeErrors::ZeroDimension(param) => writeln!(f, "The {param} is zero"),
             JxlEncodeErrors::UnsupportedColorspace(color) => writeln!(
                 f,
                 "JXL encoder cannot encode images in colorspace {color:?}, supported ones are {:?}",
-- 
2.43.0


From 132ed3b7892b0f5891d697ee40183cf12547dd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:38 +0000
Subject: [PATCH 075/180] fix: zune-jpegxl: reserve enough space for 16 bit
 chroma residuals

---
 crates/zune-jpegxl/src/bit_depth.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-jpegxl/src/bit_depth.rs b/crates/zune-jpegxl/src/bit_depth.rs
index 70eb5ef..67d5ace 100644
--- a/crates/zune-jpegxl/src/bit_depth.rs
+++ b/crates/zune-jpegxl/src/bit_depth.rs
@@ -203,7 +203,8 @@ impl JxlBitEncoder for MoreThan14Bits {
     }
 
     fn max_encoded_bits_per_sample(&self) -> usize {
-        24
+        // a residual of a 16 bit chroma channel needs 17 raw bits and an 8 bit symbol
+        25
     }
     fn num_symbols(&self, _: bool) -> usize {
         19
-- 
2.43.0


From a8f920c31d922d85c690248365ed147a1a0a0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 076/180] fix: zune-jpegxl: size the first channel's buffer by
 the bit depth

---
 crates/zune-jpegxl/src/encoder.rs | 32 +++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 98dbdb7..96fc2a1 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -894,10 +894,10 @@ fn process_image_area<A, BitDepth>(
 }
 
 fn prepare_dc_global_common(
-    is_single_group: bool, width: usize, height: usize, codes: &[PrefixCode],
-    output: &mut BitWriter
+    is_single_group: bool, width: usize, height: usize, bits_per_sample: usize,
+    codes: &[PrefixCode], output: &mut BitWriter
 ) {
-    let length = if is_single_group { width * height * 16 } else { 0 };
+    let length = if is_single_group { width * height * bits_per_sample } else { 0 };
 
     output.allocate(100000 + length);
 
@@ -1019,10 +1019,10 @@ fn write_a_c_section<B: JxlBitEncoder>(
 }
 
 fn prepare_dc_global(
-    is_single_group: bool, width: usize, height: usize, channels: usize, code: &[PrefixCode],
-    output: &mut BitWriter
+    is_single_group: bool, width: usize, height: usize, bits_per_sample: usize, channels: usize,
+    code: &[PrefixCode], output: &mut BitWriter
 ) {
-    prepare_dc_global_common(is_single_group, width, height, code, output);
+    prepare_dc_global_common(is_single_group, width, height, bits_per_sample, code, output);
 
     if channels > 2 {
         output.put_bits(2, 0b01); // 1 transform
@@ -1209,7 +1209,15 @@ impl<'a> JxlSimpleEncoder<'a> {
             {
                 let writer = &mut group_data[0].lock().unwrap()[0];
 
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    encoder.max_encoded_bits_per_sample(),
+                    num_components,
+                    &codes,
+                    writer
+                );
             }
             let pixels = self.data;
 
@@ -1318,7 +1326,15 @@ impl<'a> JxlSimpleEncoder<'a> {
 
             {
                 let writer = &mut group_data[0][0];
-                prepare_dc_global(one_group, width, height, num_components, &codes, writer);
+                prepare_dc_global(
+                    one_group,
+                    width,
+                    height,
+                    encoder.max_encoded_bits_per_sample(),
+                    num_components,
+                    &codes,
+                    writer
+                );
             }
             let pixels = self.data;
 
-- 
2.43.0


From b0e8944d24d45e4c2a0e4e2fa9daff45348318a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 077/180] fix: zune-png: refuse animation frames that do not
 fit the canvas

---
 crates/zune-png/src/headers/readers.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index ade63b3..cc3c1fa 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -567,6 +567,16 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             blend_op,
             is_part_of_seq: true
         };
+        // the frame must lie inside the canvas given by IHDR
+        if width == 0
+            || height == 0
+            || x_offset.saturating_add(width) > self.png_info.width
+            || y_offset.saturating_add(height) > self.png_info.height
+        {
+            return Err(PngDecodeErrors::GenericStatic(
+                "fcTL frame is empty or outside the image"
+            ));
+        }
         // skip crc
         self.stream.skip(4)?;
         Ok(fctl_info)
-- 
2.43.0


From a2c966ef516bf9b0f2fb0e7d61603ce6c0eb32c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:48 +0000
Subject: [PATCH 078/180] fix: zune-jpeg: do not multiply the component stride
 on every decode

---
 crates/zune-jpeg/src/misc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/misc.rs b/crates/zune-jpeg/src/misc.rs
index 86b9a9a..dfb6f6f 100644
--- a/crates/zune-jpeg/src/misc.rs
+++ b/crates/zune-jpeg/src/misc.rs
@@ -250,8 +250,8 @@ pub(crate) fn setup_component_params<T: ZByteReaderTrait>(
         // probably not needed. :)
         component.y = y;
         component.quantization_table = qt_table;
-        // initially stride contains its horizontal sub-sampling
-        component.width_stride *= img.mcu_x * 8;
+        // not derived from the previous stride, which an earlier decode may have set
+        component.width_stride = component.horizontal_sample * img.mcu_x * 8;
     }
     {
         // Sampling factors are one thing that suck
-- 
2.43.0


From 689617250721defa44a6ceaf24c9f89834dc4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 079/180] fix: zune-jpeg: keep the component count of a refused
 scan header out of the decoder

---
 crates/zune-jpeg/src/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index c6db4af..82945f0 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -291,7 +291,6 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
 
     let mut seen: [_; 5] = [-1; { MAX_COMPONENTS + 1 }];
 
-    image.num_scans = ns;
     let smallest_size = 6 + 2 * usize::from(ns);
 
     if ls != smallest_size {
@@ -306,6 +305,7 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
             "Invalid number of components in start of scan {ns}, expected in range 1..5"
         )));
     }
+    image.num_scans = ns;
 
     if image.info.components == 0 {
         return Err(DecodeErrors::FormatStatic(
-- 
2.43.0


From 25748a8f886d2b5ca66b61f72eefe7112d90793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 080/180] fix: zune-jpeg: keep out of range scan parameters out
 of the decoder

---
 crates/zune-jpeg/src/headers.rs | 37 +++++++++++++++++----------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 82945f0..4d5e6b4 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -376,41 +376,42 @@ pub(crate) fn parse_sos<T: ZByteReaderTrait>(
     // Page 42
 
     // Start of spectral / predictor selection. (between 0 and 63)
-    image.spec_start = image.stream.read_u8_err()?;
+    let spec_start = image.stream.read_u8_err()?;
     // End of spectral selection
-    image.spec_end = image.stream.read_u8_err()?;
+    let spec_end = image.stream.read_u8_err()?;
 
     let bit_approx = image.stream.read_u8_err()?;
     // successive approximation bit position high
-    image.succ_high = bit_approx >> 4;
+    let succ_high = bit_approx >> 4;
+    // successive approximation bit position low
+    let succ_low = bit_approx & 0xF;
 
-    if image.spec_end > 63 {
+    if spec_end > 63 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Se parameter {}, range should be 0-63",
-            image.spec_end
+            "Invalid Se parameter {spec_end}, range should be 0-63"
         )));
     }
-    if image.spec_start > 63 {
+    if spec_start > 63 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Ss parameter {}, range should be 0-63",
-            image.spec_start
+            "Invalid Ss parameter {spec_start}, range should be 0-63"
         )));
     }
-    if image.succ_high > 13 {
+    if succ_high > 13 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Ah parameter {}, range should be 0-13",
-            image.succ_low
+            "Invalid Ah parameter {succ_high}, range should be 0-13"
         )));
     }
-    // successive approximation bit position low
-    image.succ_low = bit_approx & 0xF;
-
-    if image.succ_low > 13 {
+    if succ_low > 13 {
         return Err(DecodeErrors::SosError(format!(
-            "Invalid Al parameter {}, range should be 0-13",
-            image.succ_low
+            "Invalid Al parameter {succ_low}, range should be 0-13"
         )));
     }
+    // only parameters in range may be seen by the scan decoders
+    image.spec_start = spec_start;
+    image.spec_end = spec_end;
+    image.succ_high = succ_high;
+    image.succ_low = succ_low;
+
     // skip any bytes not read
     image.stream.skip(smallest_size.saturating_sub(ls))?;
 
-- 
2.43.0


From e2b6dedf03b732909e59b89f6012aa3074161e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 081/180] fix: zune-jpeg: set the component count together with
 the components

---
 crates/zune-jpeg/src/headers.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index 4d5e6b4..a87d056 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -256,9 +256,6 @@ pub(crate) fn parse_start_of_frame<T: ZByteReaderTrait>(
         img.input_colorspace = ColorSpace::CMYK;
     }
 
-    // set number of components
-    img.info.components = num_components;
-
     let mut components = Vec::with_capacity(num_components as usize);
     let mut temp = [0; 3];
 
@@ -275,6 +272,8 @@ pub(crate) fn parse_start_of_frame<T: ZByteReaderTrait>(
 
     img.info.set_sof_marker(sof);
 
+    // set number of components
+    img.info.components = num_components;
     img.components = components;
 
     Ok(())
-- 
2.43.0


From ba6d28ffdedb284fd8516a18ce93035c615b2635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 082/180] fix: zune-png: refuse a palette image that has no
 palette

---
 crates/zune-png/src/decoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 40ad42a..0ad57ec 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -627,6 +627,11 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         let png_info = self.png_info.clone();
 
+        // the samples of such an image mean nothing without its palette
+        if png_info.color == PngColor::Palette && self.palette.is_empty() {
+            return Err(PngDecodeErrors::EmptyPalette);
+        }
+
         let image_len = self
             .inner_buffer_size()
             .ok_or(PngDecodeErrors::GenericStatic(
-- 
2.43.0


From 4802c3fbb2ef2be94a2a402944d56d0a38cfcc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 083/180] fix: zune-jpeg: let refinement of corrupt
 coefficients wrap

---
 crates/zune-jpeg/src/bitstream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-jpeg/src/bitstream.rs b/crates/zune-jpeg/src/bitstream.rs
index 300d4e0..11f754e 100644
--- a/crates/zune-jpeg/src/bitstream.rs
+++ b/crates/zune-jpeg/src/bitstream.rs
@@ -685,9 +685,9 @@ impl BitStream {
                             }
                             if self.get_bit() == 1 && (*coefficient & bit) == 0 {
                                 if *coefficient >= 0 {
-                                    *coefficient += bit;
+                                    *coefficient = coefficient.wrapping_add(bit);
                                 } else {
-                                    *coefficient -= bit;
+                                    *coefficient = coefficient.wrapping_sub(bit);
                                 }
                             }
                         } else {
-- 
2.43.0


From 48e1589325e9bcd11e14fbf9c544561582d25093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:19 +0000
Subject: [PATCH 084/180] fix: zune-inflate: have enough bits for the next
 symbol near the end of input

---
 crates/zune-inflate/src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-inflate/src/decoder.rs b/crates/zune-inflate/src/decoder.rs
index 3af95c0..6fa954a 100644
--- a/crates/zune-inflate/src/decoder.rs
+++ b/crates/zune-inflate/src/decoder.rs
@@ -898,7 +898,7 @@ impl<'a> DeflateDecoder<'a> {
                         src_offset = dest_offset - offset;
 
                         if self.stream.bits_left < 11 {
-                            self.stream.refill_inner_loop();
+                            self.stream.refill();
                         }
                         // Copy some bytes unconditionally
                         // This makes us copy smaller match lengths quicker because we don't need
-- 
2.43.0


From 9bd52b8c7746649b28eb9ac677d43acd76c34026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 085/180] fix: zune-core: retry interrupted reads and keep the
 position on failed ones

---
 .../src/bytestream/reader/std_readers.rs      | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index 2334624..b19e853 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -10,7 +10,7 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     #[inline(always)]
     fn read_byte_no_error(&mut self) -> u8 {
         let mut buf = [0];
-        let _ = self.read(&mut buf);
+        let _ = self.read_bytes(&mut buf);
         buf[0]
     }
     #[inline(always)]
@@ -33,7 +33,13 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
                 Ok(bytes) => {
                     bytes_read += bytes;
                 }
-                Err(e) => return Err(ZByteIoError::from(e))
+                // not a failure, the read should be tried again
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => {
+                    // an error should not move the position
+                    let _ = self.seek(SeekFrom::Current(-(bytes_read as i64)));
+                    return Err(ZByteIoError::from(e));
+                }
             }
         }
 
@@ -51,7 +57,13 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
 
     #[inline(always)]
     fn read_bytes(&mut self, buf: &mut [u8]) -> Result<usize, ZByteIoError> {
-        self.read(buf).map_err(ZByteIoError::from)
+        loop {
+            match self.read(buf) {
+                // not a failure, the read should be tried again
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                result => return result.map_err(ZByteIoError::from)
+            }
+        }
     }
 
     #[inline(always)]
@@ -83,9 +95,14 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
 
     #[inline(always)]
     fn is_eof(&mut self) -> Result<bool, ZByteIoError> {
-        self.fill_buf()
-            .map(|b| b.is_empty())
-            .map_err(ZByteIoError::from)
+        loop {
+            match self.fill_buf() {
+                Ok(b) => return Ok(b.is_empty()),
+                // not a failure, the read should be tried again
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(ZByteIoError::from(e))
+            }
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 4ad0528acb650a87c4752e85548a5d527f07de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 086/180] fix: zune-core: integer reads past the end give zero,
 not the bytes that were left

---
 crates/zune-core/src/bytestream/reader/std_readers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-core/src/bytestream/reader/std_readers.rs b/crates/zune-core/src/bytestream/reader/std_readers.rs
index b19e853..9074582 100644
--- a/crates/zune-core/src/bytestream/reader/std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/std_readers.rs
@@ -52,7 +52,11 @@ impl<T: io::BufRead + io::Seek> ZByteReaderTrait for T {
     }
 
     fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        let _ = self.read_const_bytes(buf);
+        let mut bytes = [0; N];
+        // bytes of a read that cannot be satisfied do not reach the caller
+        if self.read_const_bytes(&mut bytes).is_ok() {
+            *buf = bytes;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 51a140bf1b5688a1dc59bd2e8466bf51e77e9344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 087/180] fix: zune-core: a failed peek_at keeps the reader's
 position

---
 crates/zune-core/src/bytestream/reader.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader.rs b/crates/zune-core/src/bytestream/reader.rs
index d12340f..96bd584 100644
--- a/crates/zune-core/src/bytestream/reader.rs
+++ b/crates/zune-core/src/bytestream/reader.rs
@@ -228,6 +228,10 @@ impl<T: ZByteReaderTrait> ZReader<T> {
     /// at a later point.
     #[inline]
     pub fn peek_at(&mut self, position: usize, num_bytes: usize) -> Result<&[u8], ZByteIoError> {
+        if num_bytes > 20 * 1024 * 1024 {
+            // resize of 20 MBs, skipping too much, so panic
+            return Err(ZByteIoError::Generic("Too many bytes skipped"));
+        }
         // short circuit for zero
         // important since implementations like File will
         // cause a syscall on skip
@@ -235,10 +239,6 @@ impl<T: ZByteReaderTrait> ZReader<T> {
             // skip position bytes from start
             self.skip(position)?;
         }
-        if num_bytes > 20 * 1024 * 1024 {
-            // resize of 20 MBs, skipping too much, so panic
-            return Err(ZByteIoError::Generic("Too many bytes skipped"));
-        }
         // resize buffer
         self.temp_buffer.resize(num_bytes, 0);
         // read bytes
@@ -250,7 +250,13 @@ impl<T: ZByteReaderTrait> ZReader<T> {
                 }
                 Ok(&self.temp_buffer)
             }
-            Err(e) => Err(e)
+            Err(e) => {
+                // a failed peek does not move the position either
+                if position != 0 {
+                    self.rewind(position)?;
+                }
+                Err(e)
+            }
         }
     }
     /// Read a fixed number of known bytes to a buffer and return the bytes or an error
-- 
2.43.0


From 809896aad6512aab3b44a19726bb38fb294ea2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:59 +0000
Subject: [PATCH 088/180] fix: zune-jpeg: strict mode reports a baseline image
 that ends before its end marker

---
 crates/zune-jpeg/src/mcu.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zune-jpeg/src/mcu.rs b/crates/zune-jpeg/src/mcu.rs
index 13c6e6e..a100d62 100644
--- a/crates/zune-jpeg/src/mcu.rs
+++ b/crates/zune-jpeg/src/mcu.rs
@@ -330,6 +330,10 @@ impl<T: ZByteReaderTrait> JpegDecoder<T> {
                     trace!("Found marker {:?}", _m);
                 }
                 Err(_) => {
+                    // the stream ended before the image did
+                    if self.options.strict_mode() {
+                        return Err(DecodeErrors::FormatStatic("Premature end of buffer"));
+                    }
                     // ignore error
                 }
             }
-- 
2.43.0


From 57573b981ea41e3023213524641a673974635f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 089/180] fix: zune-qoi: reading the headers again changes
 nothing

---
 crates/zune-qoi/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-qoi/src/decoder.rs b/crates/zune-qoi/src/decoder.rs
index 85359cf..da97c20 100644
--- a/crates/zune-qoi/src/decoder.rs
+++ b/crates/zune-qoi/src/decoder.rs
@@ -117,6 +117,9 @@ where
     ///
     /// [QoiErrors]:crate::errors::QoiErrors
     pub fn decode_headers(&mut self) -> Result<(), QoiErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         //let header_bytes = 4/*magic*/ + 8/*Width+height*/ + 1/*channels*/ + 1 /*colorspace*/;
 
         // match magic bytes.
-- 
2.43.0


From bdfcf50f9a2ed08aa83c944b3a8be9ae735d794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 090/180] fix: zune-farbfeld: reading the headers again changes
 nothing

---
 crates/zune-farbfeld/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 23444e7..72a55ea 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -56,6 +56,9 @@ where
     }
     /// Decode a header for this specific image
     pub fn decode_headers(&mut self) -> Result<(), FarbFeldErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         // read magic
 
         let magic_value = self.stream.get_u64_be_err()?.to_be_bytes();
-- 
2.43.0


From 71a0e5d3c83c053eb5db306b4e50e85cbb16e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 091/180] fix: zune-ppm: reading the headers again changes
 nothing

---
 crates/zune-ppm/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-ppm/src/decoder.rs b/crates/zune-ppm/src/decoder.rs
index a5677ae..22f3535 100644
--- a/crates/zune-ppm/src/decoder.rs
+++ b/crates/zune-ppm/src/decoder.rs
@@ -140,6 +140,9 @@ where
     ///
     /// [`get_dimensions`]:Self::dimensions
     pub fn decode_headers(&mut self) -> Result<(), PPMDecodeErrors> {
+        if self.decoded_headers {
+            return Ok(());
+        }
         let p = self.reader.read_u8_err()?;
         let version = self.reader.read_u8_err()?;
 
-- 
2.43.0


From 12b3ed948baf99032e9ddb68cd0aca4673770ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 092/180] fix: zune-png: depth() tells the depth of the samples
 delivered

---
 crates/zune-png/src/decoder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/zune-png/src/decoder.rs b/crates/zune-png/src/decoder.rs
index 0ad57ec..43498f4 100644
--- a/crates/zune-png/src/decoder.rs
+++ b/crates/zune-png/src/decoder.rs
@@ -236,9 +236,10 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         Some((self.png_info.width, self.png_info.height))
     }
-    /// Return the depth of the image
+    /// Return the depth of the decoded image
     ///
-    /// Bit depths less than 8 will be returned as [`BitDepth::Eight`](zune_core::bit_depth::BitDepth::Eight)
+    /// Bit depths less than 8 will be returned as [`BitDepth::Eight`](zune_core::bit_depth::BitDepth::Eight),
+    /// and so are images of 16 bits when the decoder was told to strip those to 8 bits
     ///
     /// # Returns
     /// - `Some(depth)`:  The bit depth of the image.
@@ -249,6 +250,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
         }
         match self.png_info.depth {
             1 | 2 | 4 | 8 => Some(BitDepth::Eight),
+            16 if self.options.png_get_strip_to_8bit() => Some(BitDepth::Eight),
             16 => Some(BitDepth::Sixteen),
             _ => unreachable!()
         }
@@ -663,7 +665,7 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
 
         // convert to set endian if need be
         // (when stripping to 8 bits the caller takes the first, most significant, byte)
-        if self.depth().unwrap() == BitDepth::Sixteen && !self.options.png_get_strip_to_8bit() {
+        if self.depth().unwrap() == BitDepth::Sixteen {
             convert_be_to_target_endian_u16(out, self.byte_endian(), self.options.use_sse41());
         }
         // one more frame decoded
@@ -1179,7 +1181,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        // of the samples in the file
+                        if info.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight }
                     );
                 }
             }
@@ -1267,7 +1270,8 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
                         &self.previous_stride,
                         to_filter_row,
                         self.png_info.color,
-                        self.depth().unwrap()
+                        // of the samples in the file
+                        if info.depth == 16 { BitDepth::Sixteen } else { BitDepth::Eight }
                     );
                 }
             }
-- 
2.43.0


From d59726d1235344a98f740203cdf20b63907ab029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 093/180] fix: separate colour and alpha of LumaA frames, whose
 alpha is the last channel

---
 crates/zune-image/src/frame.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/crates/zune-image/src/frame.rs b/crates/zune-image/src/frame.rs
index d3a024d..abd5e1b 100644
--- a/crates/zune-image/src/frame.rs
+++ b/crates/zune-image/src/frame.rs
@@ -616,15 +616,13 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        // with a leading alpha, split after it, otherwise split before it
+        let (src_c1, src_c2) = self.channels.split_at(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if position == 0 {
             // argb
             src_alpha_channel = &src_c1[0];
             src_color_channels = src_c2;
@@ -660,15 +658,13 @@ impl Frame {
         if color_space.num_components() != self.channels.len() {
             return None;
         }
-        let mut position = color_space.alpha_position().expect("No way!!");
-        if position == 0 {
-            position = 1;
-        }
-        let (src_c1, src_c2) = self.channels.split_at_mut(position);
+        let position = color_space.alpha_position().expect("No way!!");
+        // with a leading alpha, split after it, otherwise split before it
+        let (src_c1, src_c2) = self.channels.split_at_mut(position.max(1));
 
         let src_alpha_channel;
         let src_color_channels;
-        if position == 1 {
+        if position == 0 {
             // argb
             src_alpha_channel = &mut src_c1[0];
             src_color_channels = src_c2;
-- 
2.43.0


From 8914cff1ac084a1acc0ddaaf2ae54be49ab9f222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 094/180] fix: SIMD grayscale swapped green and blue, and read
 wrong pixels for the remainder

---
 .../src/core_filters/colorspace/grayscale/avx2.rs        | 9 ++++-----
 .../src/core_filters/colorspace/grayscale/sse41.rs       | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
index b05e972..e030ce6 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/avx2.rs
@@ -29,8 +29,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // Load to memory
@@ -77,11 +77,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_avx2(r: &[u8], g: &[u8], b: &[u
         // do the remainder
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
diff --git a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
index c7c76b7..616d83d 100644
--- a/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
+++ b/crates/zune-image/src/core_filters/colorspace/grayscale/sse41.rs
@@ -34,8 +34,8 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
 
     for (((r_chunk, g_chunk), b_chunk), out) in r
         .chunks_exact(CHUNK_SIZE)
-        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(g.chunks_exact(CHUNK_SIZE))
+        .zip(b.chunks_exact(CHUNK_SIZE))
         .zip(gr.chunks_exact_mut(CHUNK_SIZE))
     {
         // PS I'm not sure if this is valid, we chunked 8 values
@@ -75,11 +75,10 @@ pub(crate) unsafe fn convert_rgb_to_grayscale_u8_sse41(
         // assume r ,g and b are equal lengths.
         let rem = r.len() % CHUNK_SIZE;
         let start = r.len() - rem;
-        let c_start = r.len() - (rem / 3);
 
-        let c1 = &r[c_start..];
-        let c2 = &g[c_start..];
-        let c3 = &b[c_start..];
+        let c1 = &r[start..];
+        let c2 = &g[start..];
+        let c3 = &b[start..];
 
         convert_rgb_to_grayscale_scalar(c1, c2, c3, &mut gr[start..], 255);
     }
-- 
2.43.0


From 46c614399dcff06c2211061782bf19f0a798309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 095/180] fix: CMYK conversions of 16-bit and float images use
 the 8-bit convention and round

---
 .../core_filters/colorspace/rgb_to_cmyk.rs    | 35 ++++++++++---------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
index a198347..cdab01c 100644
--- a/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
+++ b/crates/zune-image/src/core_filters/colorspace/rgb_to_cmyk.rs
@@ -83,16 +83,18 @@ fn rgb_to_cmyk_inner_f32(r: f32, g: f32, b: f32) -> [f32; 4] {
     let ytmp = 1.0 - b.clamp(0., 1.);
 
     let ktmp = ctmp.min(mtmp).min(ytmp);
-    let kmtp_inv = 1.0 / (1.0 - ktmp);
+    // pure black has no colour, don't divide by zero
+    let kmtp_inv = if ktmp < 1.0 { 1.0 / (1.0 - ktmp) } else { 0.0 };
 
     let c = (ctmp - ktmp) * kmtp_inv;
     let m = (mtmp - ktmp) * kmtp_inv;
     let y = (ytmp - ktmp) * kmtp_inv;
 
-    out[0] = c;
-    out[1] = m;
-    out[2] = y;
-    out[3] = ktmp;
+    // inks are stored inverted, as in the 8 bit conversion
+    out[0] = 1.0 - c;
+    out[1] = 1.0 - m;
+    out[2] = 1.0 - y;
+    out[3] = 1.0 - ktmp;
 
     out
 }
@@ -123,19 +125,18 @@ pub fn rgb_to_cmyk_u16(r_to_c: &mut [u16], g_to_m: &mut [u16], b_to_y: &mut [u16
             f32::from(*g_m) * inv,
             f32::from(*b_y) * inv
         );
-        *r_c = (result[0] * v) as u16;
-        *g_m = (result[1] * v) as u16;
-        *b_y = (result[2] * v) as u16;
-        *k = (result[3] * v) as u16;
+        *r_c = (result[0] * v + 0.5) as u16;
+        *g_m = (result[1] * v + 0.5) as u16;
+        *b_y = (result[2] * v + 0.5) as u16;
+        *k = (result[3] * v + 0.5) as u16;
     }
 }
 #[inline(always)]
 fn cmyk_to_rgb_f32_inner(c: f32, m: f32, y: f32, k: f32) -> [f32; 3] {
-    let k_inv = 1.0 / (k / 255.0 + 0.5);
-
-    let r = c * k_inv;
-    let g = m * k_inv;
-    let b = y * k_inv;
+    // inks are stored inverted, as in the 8 bit conversion
+    let r = c * k;
+    let g = m * k;
+    let b = y * k;
 
     [r, g, b]
 }
@@ -186,8 +187,8 @@ pub fn cmyk_to_rgb_u16(c_to_r: &mut [u16], m_to_g: &mut [u16], y_to_b: &mut [u16
         let [r, g, b] = cmyk_to_rgb_f32_inner(c, m, y, k);
 
         // scale back to be between 0 - 65535
-        *c_r = (r * v) as u16;
-        *m_g = (g * v) as u16;
-        *y_b = (b * v) as u16;
+        *c_r = (r * v + 0.5) as u16;
+        *m_g = (g * v + 0.5) as u16;
+        *y_b = (b * v + 0.5) as u16;
     }
 }
-- 
2.43.0


From 70cfb4e89b3887145895a6e90954890e958783e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 096/180] fix: round when narrowing float samples

---
 crates/zune-image/src/core_filters/depth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/depth.rs b/crates/zune-image/src/core_filters/depth.rs
index 5cdff7c..6ff7d25 100644
--- a/crates/zune-image/src/core_filters/depth.rs
+++ b/crates/zune-image/src/core_filters/depth.rs
@@ -145,7 +145,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 255
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (255.0 * old_chan).clamp(0.0, 255.0) as u8;
+                        *new_chan = (255.0 * old_chan + 0.5).clamp(0.0, 255.0) as u8;
                     }
 
                     *channel = new_channel;
@@ -158,7 +158,7 @@ impl OperationsTrait for Depth {
 
                     // scale by multiplying with 65535
                     for (old_chan, new_chan) in old_data.iter().zip(new_channel_raw.iter_mut()) {
-                        *new_chan = (65535.0 * old_chan).clamp(0.0, 65535.0) as u16;
+                        *new_chan = (65535.0 * old_chan + 0.5).clamp(0.0, 65535.0) as u16;
                     }
 
                     *channel = new_channel;
-- 
2.43.0


From 475a446adf2820ae4e4136ea810c072a3268c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 097/180] fix: move the leading alpha of ARGB to the end when
 converting to RGBA

---
 .../core_filters/colorspace/conversion_functions.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
index 4e58ae0..53ced32 100644
--- a/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
+++ b/crates/zune-image/src/core_filters/colorspace/conversion_functions.rs
@@ -415,11 +415,18 @@ pub fn convert_rgba_to_argb_or_vice_versa(image: &mut Image) -> Result<(), Image
         image.colorspace(),
         ColorSpace::RGBA | ColorSpace::ARGB
     ));
+    let alpha_first = image.colorspace() == ColorSpace::ARGB;
     // swap
     for frame in image.frames_mut() {
         // switch the channels now
-        let a_channel = frame.channels_vec().pop().unwrap();
-        frame.channels_vec().insert(0, a_channel);
+        let channels = frame.channels_vec();
+        if alpha_first {
+            let a_channel = channels.remove(0);
+            channels.push(a_channel);
+        } else {
+            let a_channel = channels.pop().unwrap();
+            channels.insert(0, a_channel);
+        }
     }
     Ok(())
 }
-- 
2.43.0


From 21dbfe970ebe264df9f8cef84ccdc777cabaf578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 098/180] fix: Channel::push made no room when the capacity was
 0 or 1

---
 crates/zune-image/src/channel.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 8ac3b84..ada5e4f 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -512,8 +512,9 @@ impl Channel {
         if !self.has_capacity(size) {
             unsafe {
                 // extend
-                // use 3/2 formula
-                self.realloc(self.capacity.saturating_mul(size.saturating_mul(3)) / 2);
+                // use 3/2 formula, but always make room for the element
+                let grown = self.capacity.saturating_mul(size.saturating_mul(3)) / 2;
+                self.realloc(grown.max(self.length + size));
             }
         }
         // safety:
-- 
2.43.0


From f2e45c16341036e999cd1c2a41f8d07cb85beb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:45 +0000
Subject: [PATCH 099/180] fix: Channel reallocations use the current layout,
 and none is of zero bytes

---
 crates/zune-image/src/channel.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index ada5e4f..02549a0 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -19,7 +19,7 @@
 //! as separate bit depths.
 //! All are seen as u8 to it with the only difference being the latter is twice as big as the former.
 //!
-use std::alloc::{alloc_zeroed, dealloc, realloc, Layout};
+use std::alloc::{alloc_zeroed, dealloc, handle_alloc_error, realloc, Layout};
 use std::any::TypeId;
 use std::fmt::{Debug, Formatter};
 use std::mem::size_of;
@@ -202,35 +202,51 @@ impl Channel {
         self.length == 0
     }
 
+    /// Layout of an allocation of `size` bytes
+    ///
+    /// The global allocator must not be asked for zero bytes, so an empty channel owns one
+    fn layout_for(size: usize) -> Layout {
+        Layout::from_size_align(size.max(1), MIN_ALIGNMENT).unwrap()
+    }
     /// Allocates some bytes using the system allocator.
     /// but align it to MIN_ALIGNMENT
     ///
     /// It is not unsafe to call this, it's just left as unsafe
     /// to remind one to be careful of what they are doing
     unsafe fn alloc(size: usize) -> (*mut u8, Layout) {
-        let layout = Layout::from_size_align(size, MIN_ALIGNMENT).unwrap();
+        let layout = Self::layout_for(size);
         // Safety
         //  alloc zeroed == alloc + std::mem::zeroed()
         // and we are bound by the zeroed trait, hence we are sure that
         // for whatever type we are going to allocate for,
         // it can be represented with a bit-representation of zero.
-        (alloc_zeroed(layout), layout)
+        let ptr = alloc_zeroed(layout);
+
+        if ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        (ptr, layout)
     }
     /// Reallocate the pointer in place increasing
     /// it's capacity
     pub unsafe fn realloc(&mut self, new_size: usize) {
-        self.ptr = realloc(self.ptr, self.layout, new_size);
+        let layout = Self::layout_for(new_size);
+        self.ptr = realloc(self.ptr, self.layout, layout.size());
+
+        if self.ptr.is_null() {
+            handle_alloc_error(layout);
+        }
+        // the next realloc or dealloc must be given the current layout
+        self.layout = layout;
         // set capacity to be new size
         self.capacity = new_size;
     }
     /// Deallocate storage allocated for this channel
     unsafe fn dealloc(&mut self) {
-        let layout = Layout::from_size_align(self.capacity, MIN_ALIGNMENT).unwrap();
-
         // safety
-        // - The same layout alignment we used for alloc is the same we are using for
+        // - The same layout we used for alloc is the same we are using for
         //  dealloc
-        dealloc(self.ptr, layout);
+        dealloc(self.ptr, self.layout);
     }
 
     /// Create a new channel
-- 
2.43.0


From 222d70c7749f60db94cf48e0f8d09f7908947682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 100/180] fix: EncoderOptions::strip_metadata reported the
 opposite of what was set

---
 crates/zune-bin/src/cmd_parsers.rs      | 2 +-
 crates/zune-core/src/options/encoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers.rs b/crates/zune-bin/src/cmd_parsers.rs
index c31635c..5056925 100644
--- a/crates/zune-bin/src/cmd_parsers.rs
+++ b/crates/zune-bin/src/cmd_parsers.rs
@@ -39,7 +39,7 @@ pub fn encoder_options(options: &ArgMatches) -> EncoderOptions {
     let encode_threads = *options.get_one::<u8>("encode-threads").unwrap();
     let effort = *options.get_one::<u8>("effort").unwrap();
     let progressive = options.contains_id("progressive");
-    let strip_metadata = options.contains_id("strip");
+    let strip_metadata = options.get_flag("strip");
 
     EncoderOptions::default()
         .set_quality(quality)
diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index fb59f6c..77dc45d 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -183,7 +183,7 @@ impl EncoderOptions {
     /// The default value is false, and encoders that respect this try to preserve as much
     /// data as possible from one image to another
     pub const fn strip_metadata(&self) -> bool {
-        !self.flags.image_strip_metadata
+        self.flags.image_strip_metadata
     }
 }
 
-- 
2.43.0


From 55a8ec8cf90690ac0d1b65783ddc311774070733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 101/180] fix: set_jpeg_encode_progressive set the Huffman
 table option instead

---
 crates/zune-bin/src/cmd_parsers.rs      | 2 +-
 crates/zune-core/src/options/encoder.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers.rs b/crates/zune-bin/src/cmd_parsers.rs
index 5056925..233f3a3 100644
--- a/crates/zune-bin/src/cmd_parsers.rs
+++ b/crates/zune-bin/src/cmd_parsers.rs
@@ -38,7 +38,7 @@ pub fn encoder_options(options: &ArgMatches) -> EncoderOptions {
     let quality = *options.get_one::<u8>("quality").unwrap();
     let encode_threads = *options.get_one::<u8>("encode-threads").unwrap();
     let effort = *options.get_one::<u8>("effort").unwrap();
-    let progressive = options.contains_id("progressive");
+    let progressive = options.get_flag("progressive");
     let strip_metadata = options.get_flag("strip");
 
     EncoderOptions::default()
diff --git a/crates/zune-core/src/options/encoder.rs b/crates/zune-core/src/options/encoder.rs
index 77dc45d..c634324 100644
--- a/crates/zune-core/src/options/encoder.rs
+++ b/crates/zune-core/src/options/encoder.rs
@@ -211,7 +211,7 @@ impl EncoderOptions {
     ///
     /// Default is `false`
     pub fn set_jpeg_encode_progressive(mut self, yes: bool) -> Self {
-        self.flags.jpeg_optimize_huffman = yes;
+        self.flags.jpeg_encode_progressive = yes;
         self
     }
 }
-- 
2.43.0


From aad53fe643190894aeba9970608ecd48803ebc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 102/180] fix: set_use_unsafe(false) turns platform specific
 intrinsics off, as documented

---
 crates/zune-core/src/options/decoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-core/src/options/decoder.rs b/crates/zune-core/src/options/decoder.rs
index 6093c70..3a9a96d 100644
--- a/crates/zune-core/src/options/decoder.rs
+++ b/crates/zune-core/src/options/decoder.rs
@@ -439,7 +439,7 @@ impl DecoderOptions {
     /// false if it's not present
     #[allow(unreachable_code)]
     pub fn use_sse2(&self) -> bool {
-        let opt = self.flags.zune_use_sse2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -472,7 +472,7 @@ impl DecoderOptions {
     /// it's not present
     #[allow(unreachable_code)]
     pub fn use_sse3(&self) -> bool {
-        let opt = self.flags.zune_use_sse3 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse3 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -504,7 +504,7 @@ impl DecoderOptions {
     /// is not present
     #[allow(unreachable_code)]
     pub fn use_sse41(&self) -> bool {
-        let opt = self.flags.zune_use_sse41 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_sse41 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -536,7 +536,7 @@ impl DecoderOptions {
     /// not present
     #[allow(unreachable_code)]
     pub fn use_avx(&self) -> bool {
-        let opt = self.flags.zune_use_avx | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -568,7 +568,7 @@ impl DecoderOptions {
     /// present
     #[allow(unreachable_code)]
     pub fn use_avx2(&self) -> bool {
-        let opt = self.flags.zune_use_avx2 | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_avx2 & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
@@ -596,7 +596,7 @@ impl DecoderOptions {
 
     #[allow(unreachable_code)]
     pub fn use_neon(&self) -> bool {
-        let opt = self.flags.zune_use_neon | self.flags.zune_use_unsafe;
+        let opt = self.flags.zune_use_neon & self.flags.zune_use_unsafe;
         // options says no
         if !opt {
             return false;
-- 
2.43.0


From 18ee648d97a97c7bca95d8c57b5026ee76ff2fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 103/180] fix: saving to a file lost the error of the last
 buffered write

---
 crates/zune-image/src/codecs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs.rs b/crates/zune-image/src/codecs.rs
index 23bbb3d..b293b3c 100644
--- a/crates/zune-image/src/codecs.rs
+++ b/crates/zune-image/src/codecs.rs
@@ -31,7 +31,7 @@
 //!
 #![allow(unused_imports, unused_variables, non_camel_case_types, dead_code)]
 
-use std::io::{BufRead, Cursor, Seek};
+use std::io::{BufRead, Cursor, Seek, Write};
 use std::path::Path;
 
 use zune_core::bytestream::{ZByteReaderTrait, ZByteWriterTrait, ZCursor, ZReader};
@@ -513,6 +513,8 @@ impl Image {
                 .open(file)?
         );
         self.encode(format, &mut file)?;
+        // dropping the writer would ignore errors of the last write
+        file.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 9206a16476e5bcfc5df25a1245d7880e6440417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 104/180] fix: PNG, PPM and JPEG XL encoders dropped the alpha
 of BGRA and ARGB images

---
 crates/zune-image/src/codecs/jpeg_xl.rs |  9 +++++++++
 crates/zune-image/src/codecs/png.rs     | 10 ++++++++++
 crates/zune-image/src/codecs/ppm.rs     | 10 ++++++++++
 3 files changed, 29 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 7d5d1f4..45d98d9 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -106,6 +106,15 @@ impl EncoderTrait for JxlEncoder {
         }
     }
 
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel where there is one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, options: EncoderOptions) {
         self.options = Some(options)
     }
diff --git a/crates/zune-image/src/codecs/png.rs b/crates/zune-image/src/codecs/png.rs
index 213a7a7..04933b1 100644
--- a/crates/zune-image/src/codecs/png.rs
+++ b/crates/zune-image/src/codecs/png.rs
@@ -275,6 +275,16 @@ impl EncoderTrait for PngEncoder {
             _ => BitDepth::Eight
         }
     }
+
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel where there is one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, opts: EncoderOptions) {
         self.options = Some(opts)
     }
diff --git a/crates/zune-image/src/codecs/ppm.rs b/crates/zune-image/src/codecs/ppm.rs
index f72e728..218aae8 100644
--- a/crates/zune-image/src/codecs/ppm.rs
+++ b/crates/zune-image/src/codecs/ppm.rs
@@ -84,6 +84,16 @@ impl EncoderTrait for PPMEncoder {
             _ => BitDepth::Eight
         }
     }
+
+    fn default_colorspace(&self, colorspace: ColorSpace) -> ColorSpace {
+        // preserve the alpha channel where there is one
+        if colorspace.has_alpha() {
+            ColorSpace::RGBA
+        } else {
+            ColorSpace::RGB
+        }
+    }
+
     fn set_options(&mut self, opts: EncoderOptions) {
         self.options = Some(opts)
     }
-- 
2.43.0


From df3cd26fa6c17120c24e52793f95c00b35edfafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 105/180] fix: pipelines of images only failed for want of a
 decoder

---
 crates/zune-image/src/pipelines.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/pipelines.rs b/crates/zune-image/src/pipelines.rs
index 435991f..f6e2541 100644
--- a/crates/zune-image/src/pipelines.rs
+++ b/crates/zune-image/src/pipelines.rs
@@ -160,7 +160,7 @@ impl Pipeline {
                     // do the actual decode
                     if self.decode.is_none() {
                         // we have an image, no need to decode a new one
-                        if self.image.is_empty() {
+                        if !self.image.is_empty() {
                             trace!("Image already present, no need to decode");
                             // move to the next state
                             self.state = state.next();
-- 
2.43.0


From 77cdab4c55983642ed8a0dd922271615347b9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 106/180] fix: encode_to_result returned no data

---
 crates/zune-image/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/traits.rs b/crates/zune-image/src/traits.rs
index 3f74b0f..13929fd 100644
--- a/crates/zune-image/src/traits.rs
+++ b/crates/zune-image/src/traits.rs
@@ -386,10 +386,10 @@ pub trait EncoderTrait {
     /// and format in `EncodeResult`
     fn encode_to_result(&mut self, image: &Image) -> Result<EncodeResult, ImageErrors> {
         let mut sink = vec![];
-        let data = self.encode(image, &mut sink)?;
+        self.encode(image, &mut sink)?;
 
         Ok(EncodeResult {
-            data:   vec![],
+            data:   sink,
             format: self.format()
         })
     }
-- 
2.43.0


From 1c8f2562c6c94dcf840d7da5a4c161482f9b4e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 107/180] fix: images decoded from BMP lost the colour profile
 and the format

---
 crates/zune-image/src/codecs/bmp.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/bmp.rs b/crates/zune-image/src/codecs/bmp.rs
index f63f511..7a195c8 100644
--- a/crates/zune-image/src/codecs/bmp.rs
+++ b/crates/zune-image/src/codecs/bmp.rs
@@ -27,11 +27,18 @@ where
     T: ZByteReaderTrait
 {
     fn decode(&mut self) -> Result<Image, ImageErrors> {
+        let metadata = self.read_headers()?;
+
         let pixels = self.decode()?;
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.colorspace().unwrap();
 
-        Ok(Image::from_u8(&pixels, width, height, colorspace))
+        let mut image = Image::from_u8(&pixels, width, height, colorspace);
+
+        if let Some(metadata) = metadata {
+            image.metadata = metadata;
+        }
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From 43ecf80ba4d0e2fb7031fc5cdd8f2c9d8d7821e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 108/180] fix: CMYK images were saved to JPEG as their
 negatives

---
 crates/zune-image/src/codecs/jpeg.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 282ef51..3c346ee 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -142,7 +142,13 @@ impl EncoderTrait for JpegEncoder {
             "Unsupported bit depth{:?}",
             image.depth()
         );
-        let pixels = &image.flatten_frames::<u8>()[0];
+        let mut pixels = image.flatten_frames::<u8>().swap_remove(0);
+
+        if image.colorspace() == ColorSpace::CMYK {
+            // our inks are stored inverted, as they are in files, while the encoder
+            // expects them not to be and inverts them
+            pixels.iter_mut().for_each(|x| *x = 255 - *x);
+        }
 
         if let Some(colorspace) = match_colorspace_to_colortype(image.colorspace()) {
             let max_dims = usize::from(u16::MAX);
@@ -197,7 +203,7 @@ impl EncoderTrait for JpegEncoder {
                 }
             }
 
-            encoder.encode(pixels, width as u16, height as u16, colorspace)?;
+            encoder.encode(&pixels, width as u16, height as u16, colorspace)?;
 
             Ok(writer.bytes_written())
         } else {
-- 
2.43.0


From 963406f4fb45c2479dec789250fb8008d0a67356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 109/180] fix: images decoded from HDR did not tell their
 format

---
 crates/zune-image/src/codecs/hdr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-image/src/codecs/hdr.rs b/crates/zune-image/src/codecs/hdr.rs
index b6aa05c..f2a46cf 100644
--- a/crates/zune-image/src/codecs/hdr.rs
+++ b/crates/zune-image/src/codecs/hdr.rs
@@ -29,7 +29,11 @@ where
         let (width, height) = self.dimensions().unwrap();
         let colorspace = self.get_colorspace().unwrap();
 
-        Ok(Image::from_f32(&bytes, width, height, colorspace))
+        let mut image = Image::from_f32(&bytes, width, height, colorspace);
+        // set metadata details
+        image.metadata.format = Some(ImageFormat::HDR);
+
+        Ok(image)
     }
 
     fn dimensions(&self) -> Option<(usize, usize)> {
-- 
2.43.0


From 7da77c0b56cf308a0db9de66bacd777f57721647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 110/180] fix: JPEG files were saved without the image's EXIF
 fields

---
 crates/zune-image/src/codecs/jpeg.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/crates/zune-image/src/codecs/jpeg.rs b/crates/zune-image/src/codecs/jpeg.rs
index 3c346ee..1a1105a 100644
--- a/crates/zune-image/src/codecs/jpeg.rs
+++ b/crates/zune-image/src/codecs/jpeg.rs
@@ -185,10 +185,8 @@ impl EncoderTrait for JpegEncoder {
                     // explicit :)
                 } else if let Some(metadata) = &image.metadata.exif {
                     let mut writer = Writer::new();
-                    // write first tags for exif
-                    let mut buf = std::io::Cursor::new(b"Exif\x00\x00".to_vec());
-                    // set buffer position to be bytes written, to ensure we don't overwrite anything
-                    buf.set_position(6);
+                    // the exif writer has to start at position zero
+                    let mut buf = std::io::Cursor::new(vec![]);
 
                     for metadatum in metadata {
                         writer.push_field(metadatum);
@@ -196,7 +194,8 @@ impl EncoderTrait for JpegEncoder {
                     let result = writer.write(&mut buf, false);
                     if result.is_ok() {
                         // add the exif tag to APP1 segment
-                        encoder.add_app_segment(1, buf.get_ref())?;
+                        let segment = [b"Exif\x00\x00", buf.get_ref().as_slice()].concat();
+                        encoder.add_app_segment(1, &segment)?;
                     } else {
                         warn!("Writing exif failed {:?}", result);
                     }
-- 
2.43.0


From e0b27cf51988330921042e308cc6bb6ee4c889a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 111/180] fix: reading a Channel made a mutable slice of it

---
 crates/zune-image/src/channel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-image/src/channel.rs b/crates/zune-image/src/channel.rs
index 02549a0..2092497 100644
--- a/crates/zune-image/src/channel.rs
+++ b/crates/zune-image/src/channel.rs
@@ -473,7 +473,7 @@ impl Channel {
         //  well aligned: You cannot have u8 having bad alignment as the least bit denomination
         // of alignment is a byte and u8==1 byte
         //
-        let new_slice = unsafe { std::slice::from_raw_parts_mut::<u8>(self.ptr, self.length) };
+        let new_slice = unsafe { std::slice::from_raw_parts::<u8>(self.ptr, self.length) };
 
         let (a, b, c) = new_slice.align_to();
 
-- 
2.43.0


From ac4e27644088410808bd1ed0ed86004a04561b51 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 112/180] fix: Rotate allocated, turned and measured images
 wrongly for most angles and depths

---
 crates/zune-imageprocs/src/rotate.rs | 66 ++++++++++------------------
 1 file changed, 23 insertions(+), 43 deletions(-)

diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index bed172d..5532126 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -23,7 +23,7 @@ use crate::traits::NumOps;
 use crate::utils::execute_on;
 
 pub fn get_rotated_dimensions(width: usize, height: usize, angle: f32) -> (usize, usize) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
     // Handle special cases for 90-degree rotations
     if (angle - 90.0).abs() < f32::EPSILON || (angle - 270.0).abs() < f32::EPSILON {
@@ -62,16 +62,23 @@ impl OperationsTrait for Rotate {
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let im_type = image.depth().bit_type();
+        let depth_size = image.depth().size_of();
 
         let (width, height) = image.dimensions();
 
-        let will_change_dims = (self.angle - 180.0).abs() > f32::EPSILON;
+        if !self.angle.is_finite() {
+            return Err(ImageErrors::GenericStr("Rotation angle must be finite"));
+        }
+        // compute everything from the same angle, in [0,360)
+        let angle = self.angle.rem_euclid(360.0);
 
-        let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let (new_width, new_height) = get_rotated_dimensions(width, height, self.angle);
+        let (new_width, new_height) = get_rotated_dimensions(width, height, angle);
 
-            let mut new_channel =
-                Channel::new_with_length_and_type(new_width * new_height, channel.type_id());
+        let resize_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
+            let mut new_channel = Channel::new_with_length_and_type(
+                new_width * new_height * depth_size,
+                channel.type_id()
+            );
 
             match im_type {
                 BitType::U8 => {
@@ -112,9 +119,7 @@ impl OperationsTrait for Rotate {
         };
         execute_on(resize_fn, image, false)?;
 
-        if will_change_dims {
-            change_image_dims(image, self.angle);
-        }
+        image.set_dimensions(new_width, new_height);
 
         Ok(())
     }
@@ -124,35 +129,19 @@ impl OperationsTrait for Rotate {
     }
 }
 
-fn change_image_dims(image: &mut Image, angle: f32) {
-    let (ow, oh) = image.dimensions();
-    if (angle - 90.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    if (angle - 270.0).abs() < f32::EPSILON {
-        image.set_dimensions(oh, ow);
-    }
-    // For arbitrary angles, calculate bounding box
-    let angle_rad = angle.to_radians();
-    let cos_a = angle_rad.cos().abs();
-    let sin_a = angle_rad.sin().abs();
-
-    let new_width = (ow as f32 * cos_a + oh as f32 * sin_a).ceil() as usize;
-    let new_height = (ow as f32 * sin_a + oh as f32 * cos_a).ceil() as usize;
-
-    image.set_dimensions(new_width, new_height)
-}
-
 pub fn rotate<T: Copy + NumOps<T> + Default>(
     angle: f32, width: usize, height: usize, out_width: usize, out_height: usize, in_image: &[T],
     out_image: &mut [T]
 ) {
-    let angle = angle % 360.0;
+    let angle = angle.rem_euclid(360.0);
 
-    if (angle - 180.0).abs() < f32::EPSILON {
+    if angle.abs() < f32::EPSILON {
+        // a whole turn
+        out_image.copy_from_slice(in_image);
+    } else if (angle - 180.0).abs() < f32::EPSILON {
         // copy in image to out image
         out_image.copy_from_slice(in_image);
-        rotate_180(out_image, width);
+        rotate_180(out_image);
     } else if (angle - 90.0).abs() < f32::EPSILON {
         rotate_90(in_image, out_image, width, height);
     } else if (angle - 270.0).abs() < f32::EPSILON {
@@ -164,18 +153,9 @@ pub fn rotate<T: Copy + NumOps<T> + Default>(
     }
 }
 
-fn rotate_180<T: Copy>(in_out_image: &mut [T], width: usize) {
-    let half = in_out_image.len() / 2;
-    let (top, bottom) = in_out_image.split_at_mut(half);
-
-    for (top_chunk, bottom_chunk) in top
-        .chunks_exact_mut(width)
-        .zip(bottom.chunks_exact_mut(width).rev())
-    {
-        for (a, b) in top_chunk.iter_mut().zip(bottom_chunk.iter_mut()) {
-            core::mem::swap(a, b);
-        }
-    }
+fn rotate_180<T: Copy>(in_out_image: &mut [T]) {
+    // half a turn puts the last pixel first
+    in_out_image.reverse();
 }
 
 fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
-- 
2.43.0


From c6a87188e72b9800f3afd806b9aeaabbbf92746f Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 113/180] fix: AffineTransform failed for 16-bit and float
 images and dropped the last row and column

---
 crates/zune-imageprocs/src/affine.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 7dcb7b3..97ef59d 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -136,6 +136,7 @@ impl OperationsTrait for AffineTransform {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (w, h) = image.dimensions();
         let depth = image.depth().bit_type();
+        let depth_size = image.depth().size_of();
         let (new_w, new_h) = get_affine_output_dimensions(w, h, self);
 
         // Get inverse transform for reverse mapping
@@ -147,7 +148,8 @@ impl OperationsTrait for AffineTransform {
             } // Degenerate transform
         };
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
-            let mut new_channel = Channel::new_with_bit_type(new_w * new_h, depth);
+            let mut new_channel =
+                Channel::new_with_bit_type(new_w * new_h * depth_size, depth);
 
             match depth {
                 BitType::U8 => affine_transform_channel::<u8>(
@@ -282,14 +284,15 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
 
             // Bilinear interpolation
             if src_x >= 0.0
-                && src_x < (in_width - 1) as f32
+                && src_x <= (in_width - 1) as f32
                 && src_y >= 0.0
-                && src_y < (in_height - 1) as f32
+                && src_y <= (in_height - 1) as f32
             {
                 let x0 = src_x.floor() as usize;
                 let y0 = src_y.floor() as usize;
-                let x1 = x0 + 1;
-                let y1 = y0 + 1;
+                // the last column and row are their own neighbours
+                let x1 = (x0 + 1).min(in_width - 1);
+                let y1 = (y0 + 1).min(in_height - 1);
 
                 let fx = src_x - x0 as f32;
                 let fy = src_y - y0 as f32;
-- 
2.43.0


From b4b3069b6c181025be4367b57db44dd6f4deac5f Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 114/180] fix: rotated and transformed constant images lost a
 level to rounding

---
 crates/zune-imageprocs/src/affine.rs | 6 +++++-
 crates/zune-imageprocs/src/rotate.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 97ef59d..499acde 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -302,12 +302,16 @@ pub fn affine_transform_channel<T: Copy + Default + NumOps<T>>(
                 let p01 = in_channel[y1 * in_width + x0].to_f32();
                 let p11 = in_channel[y1 * in_width + x1].to_f32();
 
+                let min = p00.min(p10).min(p01).min(p11);
+                let max = p00.max(p10).max(p01).max(p11);
+
                 let result = p00 * (1.0 - fx) * (1.0 - fy)
                     + p10 * fx * (1.0 - fy)
                     + p01 * (1.0 - fx) * fy
                     + p11 * fx * fy;
 
-                out_channel[out_y * out_width + out_x] = T::from_f32(result);
+                // rounding in the sum must not leave the range of the samples
+                out_channel[out_y * out_width + out_x] = T::from_f32(result.max(min).min(max));
             }
         }
     }
diff --git a/crates/zune-imageprocs/src/rotate.rs b/crates/zune-imageprocs/src/rotate.rs
index 5532126..35bca8c 100644
--- a/crates/zune-imageprocs/src/rotate.rs
+++ b/crates/zune-imageprocs/src/rotate.rs
@@ -203,12 +203,16 @@ fn rotate_arbitrary<T: Copy + Default + NumOps<T>>(
                 let p01 = in_image[y1 * in_width + x0].to_f32();
                 let p11 = in_image[y1 * in_width + x1].to_f32();
 
+                let min = p00.min(p10).min(p01).min(p11);
+                let max = p00.max(p10).max(p01).max(p11);
+
                 let result = p00 * (1.0 - fx) * (1.0 - fy)
                     + p10 * fx * (1.0 - fy)
                     + p01 * (1.0 - fx) * fy
                     + p11 * fx * fy;
 
-                out_image[out_y * out_width + out_x] = T::from_f32(result);
+                // rounding in the sum must not leave the range of the samples
+                out_image[out_y * out_width + out_x] = T::from_f32(result.max(min).min(max));
             }
         }
     }
-- 
2.43.0


From 465b1b61f2cb43cbe99d8a45f4ea674faee9a62d Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 115/180] fix: AffineTransform with a non-finite coefficient
 left an image of size zero

---
 crates/zune-imageprocs/src/affine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-imageprocs/src/affine.rs b/crates/zune-imageprocs/src/affine.rs
index 499acde..ccdbbe9 100644
--- a/crates/zune-imageprocs/src/affine.rs
+++ b/crates/zune-imageprocs/src/affine.rs
@@ -147,6 +147,9 @@ impl OperationsTrait for AffineTransform {
                 return Err(ImageErrors::GenericString("AffineTransform doesn't have inverse".to_string()));
             } // Degenerate transform
         };
+        if new_w == 0 || new_h == 0 {
+            return Err(ImageErrors::GenericStr("AffineTransform leaves no image"));
+        }
         let affine_fn = |channel: &mut Channel| -> Result<(), ImageErrors> {
             let mut new_channel =
                 Channel::new_with_bit_type(new_w * new_h * depth_size, depth);
-- 
2.43.0


From f133978a23c207e5683a3a56e108d7e1777625f4 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 116/180] fix: Mirror East and West did the opposite of what
 they document

---
 crates/zune-imageprocs/src/mirror.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/mirror.rs b/crates/zune-imageprocs/src/mirror.rs
index 499ad55..7ed7d3c 100644
--- a/crates/zune-imageprocs/src/mirror.rs
+++ b/crates/zune-imageprocs/src/mirror.rs
@@ -137,13 +137,13 @@ pub fn mirror<T: Copy>(in_pixels: &mut [T], width: usize, height: usize, mode: M
             // split into 2
             let (left, right) = width_stride.split_at_mut(width / 2);
 
-            if mode == MirrorMode::West {
+            if mode == MirrorMode::East {
                 // write
                 left.iter().zip(right.iter_mut().rev()).for_each(|(l, r)| {
                     *r = *l;
                 });
             }
-            if mode == MirrorMode::East {
+            if mode == MirrorMode::West {
                 // write
                 left.iter_mut().zip(right.iter().rev()).for_each(|(l, r)| {
                     *l = *r;
-- 
2.43.0


From aa18fb6309a0cbf0fa3dc223a865d8e628a8de92 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 117/180] fix: AutoOrient left the orientation tag in a type
 EXIF readers reject

---
 crates/zune-imageprocs/src/auto_orient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/auto_orient.rs b/crates/zune-imageprocs/src/auto_orient.rs
index d99bd82..6b75f5e 100644
--- a/crates/zune-imageprocs/src/auto_orient.rs
+++ b/crates/zune-imageprocs/src/auto_orient.rs
@@ -106,7 +106,7 @@ impl OperationsTrait for AutoOrient {
                 for field in data {
                     // set orientation to do nothing
                     if field.tag == Tag::Orientation {
-                        field.value = Value::Byte(vec![1]);
+                        field.value = Value::Short(vec![1]);
                     }
                 }
             }
-- 
2.43.0


From c78127a94f198edf6a3330c4ac103e45b20af378 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 118/180] fix: Sobel, Scharr and Prewitt read the wrong corner
 in the horizontal gradient

---
 crates/zune-imageprocs/src/prewitt.rs | 4 ++--
 crates/zune-imageprocs/src/scharr.rs  | 4 ++--
 crates/zune-imageprocs/src/sobel.rs   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 4d07d9a..04d20d6 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -27,7 +27,7 @@ fn prewitt_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * 1.) + (f32::from(c[2]) * -1.);
     sum_a += (f32::from(c[3]) * 1.) + (f32::from(c[5]) * -1.);
-    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[7]) * -1.);
+    sum_a += (f32::from(c[6]) * 1.) + (f32::from(c[8]) * -1.);
 
     // matrix
     //  1,  1,  1,
@@ -61,7 +61,7 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * 1) + (i32::from(c[2]) * -1);
     sum_a += (i32::from(c[3]) * 1) + (i32::from(c[5]) * -1);
-    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[7]) * -1);
+    sum_a += (i32::from(c[6]) * 1) + (i32::from(c[8]) * -1);
 
     // matrix
     //  1,  1,  1,
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 1e762e5..6dfe2f9 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -158,7 +158,7 @@ fn scharr_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -03.) + (f32::from(c[2]) * 03.);
     sum_a += (f32::from(c[3]) * -10.) + (f32::from(c[5]) * 10.);
-    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[7]) * 30.);
+    sum_a += (f32::from(c[6]) * -03.) + (f32::from(c[8]) * 03.);
 
     // matrix
     // -03,-10,-03,
@@ -192,7 +192,7 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -03) + (i32::from(c[2]) * 03);
     sum_a += (i32::from(c[3]) * -10) + (i32::from(c[5]) * 10);
-    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[7]) * 03);
+    sum_a += (i32::from(c[6]) * -03) + (i32::from(c[8]) * 03);
 
     // Gy matrix
     // -3,-10,-3,
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 663c5fe..1fbf1a5 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -112,7 +112,7 @@ fn sobel_inner_f32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0.0;
     sum_a += (f32::from(c[0]) * -1.) + (f32::from(c[2]) * 1.);
     sum_a += (f32::from(c[3]) * -2.) + (f32::from(c[5]) * 2.);
-    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[7]) * 1.);
+    sum_a += (f32::from(c[6]) * -1.) + (f32::from(c[8]) * 1.);
 
     // matrix
     // -1,-2,-1,
@@ -146,7 +146,7 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     let mut sum_a = 0;
     sum_a += (i32::from(c[0]) * -1) + (i32::from(c[2]) * 1);
     sum_a += (i32::from(c[3]) * -2) + (i32::from(c[5]) * 2);
-    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[7]) * 1);
+    sum_a += (i32::from(c[6]) * -1) + (i32::from(c[8]) * 1);
 
     // matrix
     // -1,-2,-1,
-- 
2.43.0


From 7ad891852dc604e0d9ea6e0db368c5efd882b763 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 119/180] fix: Sobel, Scharr and Prewitt overflowed on 16-bit
 images

---
 crates/zune-imageprocs/src/prewitt.rs | 5 ++++-
 crates/zune-imageprocs/src/scharr.rs  | 5 ++++-
 crates/zune-imageprocs/src/sobel.rs   | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/prewitt.rs b/crates/zune-imageprocs/src/prewitt.rs
index 04d20d6..62cd3c6 100644
--- a/crates/zune-imageprocs/src/prewitt.rs
+++ b/crates/zune-imageprocs/src/prewitt.rs
@@ -72,7 +72,10 @@ fn prewitt_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * 1) + (i32::from(c[6]) * -1);
     sum_b += (i32::from(c[7]) * -1) + (i32::from(c[8]) * -1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit gradients do not fit into an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the prewitt filter for a float channel
diff --git a/crates/zune-imageprocs/src/scharr.rs b/crates/zune-imageprocs/src/scharr.rs
index 6dfe2f9..b04d227 100644
--- a/crates/zune-imageprocs/src/scharr.rs
+++ b/crates/zune-imageprocs/src/scharr.rs
@@ -203,7 +203,10 @@ fn scharr_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -03) + (i32::from(c[6]) * 03);
     sum_b += (i32::from(c[7])  * 10) + (i32::from(c[8]) * 03);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit gradients do not fit into an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the scharr filter for a float channel
diff --git a/crates/zune-imageprocs/src/sobel.rs b/crates/zune-imageprocs/src/sobel.rs
index 1fbf1a5..43498e1 100644
--- a/crates/zune-imageprocs/src/sobel.rs
+++ b/crates/zune-imageprocs/src/sobel.rs
@@ -157,7 +157,10 @@ fn sobel_inner_i32<T>(c: &[T; 9]) -> T
     sum_b += (i32::from(c[2]) * -1) + (i32::from(c[6]) * 1);
     sum_b += (i32::from(c[7]) * 2) + (i32::from(c[8]) * 1);
 
-    T::from_f64(f64::from((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
+    // squares of 16 bit gradients do not fit into an i32
+    let (sum_a, sum_b) = (f64::from(sum_a), f64::from(sum_b));
+
+    T::from_f64(((sum_a * sum_a) + (sum_b * sum_b)).sqrt())
 }
 
 /// Carry out the sobel filter for a float channel
-- 
2.43.0


From b3c5e06f67d29eaefaf0ce8b93b642069c08f706 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 120/180] fix: Median picked the value before the median and
 ignored radius 1

---
 crates/zune-imageprocs/src/median.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/median.rs b/crates/zune-imageprocs/src/median.rs
index 014c5bf..1363158 100644
--- a/crates/zune-imageprocs/src/median.rs
+++ b/crates/zune-imageprocs/src/median.rs
@@ -72,7 +72,7 @@ impl OperationsTrait for Median {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let (width, height) = image.dimensions();
 
-        if self.radius < 2 {
+        if self.radius < 1 {
             return Ok(());
         }
         let depth = image.depth();
@@ -167,7 +167,7 @@ pub fn median_u16(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u16;
                 break;
@@ -249,7 +249,7 @@ pub fn median_u8(
 
         for (pos, v) in histogram.iter().enumerate() {
             accum += *v;
-            if accum >= median_pos as u32 {
+            if accum > median_pos as u32 {
                 // we found the median
                 median = pos as u8;
                 break;
-- 
2.43.0


From 0473b8bd5defc6d573bdec6863390aaa2130aa92 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 121/180] fix: the contrast statistic overflowed on bright
 windows

---
 crates/zune-imageprocs/src/spatial_ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 687fdc3..15621ca 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -73,7 +73,7 @@ fn find_contrast<
         }
     }
     let num = maximum - minimum;
-    let div = (maximum + minimum).saturating_add(T::one()); // do not allow division by zero
+    let div = maximum.saturating_add(minimum).saturating_add(T::one()); // do not allow division by zero
 
     num / div
 }
-- 
2.43.0


From 8580aac7fe13d28358b4825cad0afa5e059e91c9 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 122/180] fix: the mean of a large 16-bit window overflowed

---
 crates/zune-imageprocs/src/spatial_ops.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/spatial_ops.rs b/crates/zune-imageprocs/src/spatial_ops.rs
index 15621ca..2b6964a 100644
--- a/crates/zune-imageprocs/src/spatial_ops.rs
+++ b/crates/zune-imageprocs/src/spatial_ops.rs
@@ -117,13 +117,13 @@ where
     u32: std::convert::From<T>
 {
     //https://godbolt.org/z/6Y8ncehd5
-    let mut maximum = u32::default();
-    let len = data.len() as u32;
+    let mut maximum = u64::default();
+    let len = data.len() as u64;
 
     for datum in data {
-        maximum += u32::from(*datum);
+        maximum += u64::from(u32::from(*datum));
     }
-    T::from_u32(maximum / len)
+    T::from_u64(maximum / len)
 }
 
 /// Run spatial operations on a pixel
-- 
2.43.0


From 478967bdd76a1e48775ad47d635c7017200bca61 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 123/180] fix: prefetching computed a pointer outside of the
 slice

---
 crates/zune-imageprocs/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/utils.rs b/crates/zune-imageprocs/src/utils.rs
index c6f49ab..464e4e9 100644
--- a/crates/zune-imageprocs/src/utils.rs
+++ b/crates/zune-imageprocs/src/utils.rs
@@ -34,7 +34,7 @@ pub fn z_prefetch<T>(data: &[T], position: usize) {
         use core::arch::x86_64::*;
         unsafe {
             // we don't need to worry for this failing
-            let ptr_position = data.as_ptr().add(position).cast::<i8>();
+            let ptr_position = data.as_ptr().wrapping_add(position).cast::<i8>();
 
             _mm_prefetch::<_MM_HINT_T0>(ptr_position);
         }
-- 
2.43.0


From a062a5f647987de7fabc87a31e6dea899e2f70ea Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 124/180] fix: box blur averaged the wrong window and left
 garbage at the right and bottom edges

---
 crates/zune-imageprocs/src/box_blur.rs | 144 ++++++-------------------
 1 file changed, 35 insertions(+), 109 deletions(-)

diff --git a/crates/zune-imageprocs/src/box_blur.rs b/crates/zune-imageprocs/src/box_blur.rs
index 7dca2f3..704fe90 100644
--- a/crates/zune-imageprocs/src/box_blur.rs
+++ b/crates/zune-imageprocs/src/box_blur.rs
@@ -193,6 +193,8 @@ where
     T: Copy + NumOps<T>,
     u32: std::convert::From<T>
 {
+    // the sum of 65535 16 bit pixels is the most an u32 can hold
+    let radius = radius.min(32767);
     let diameter = (radius * 2) + 1;
     // 1D-Box blurs can be seen as the average of radius pixels iterating
     // through a window
@@ -219,82 +221,37 @@ where
     // where a is sum of chunk[0..r], (first of the array), we can keep updating a during the loop
     // and we have a window sum!
 
-    if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+    if width == 0 {
         return;
     }
-    let diameter = diameter.min(width);
+    let last = width - 1;
     let m_radius = compute_mod_u32(diameter as u64);
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
+        let first_item = u32::from(stride_in[0]);
+        let last_item = u32::from(stride_in[last]);
 
-        let mut accumulator: u32 = stride_in[..half_radius].iter().map(|x| u32::from(*x)).sum();
-
-        accumulator += ((half_radius - 1) as u32) * u32::from(stride_in[0]);
-
-        for (data_in, data_out) in stride_in[half_radius..]
+        // the window around the first pixel, pixels beyond an edge repeat that edge
+        let mut accumulator = (radius as u32 + 1) * first_item;
+        accumulator += stride_in[1..]
             .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
-        {
-            accumulator += u32::from(*data_in);
-            accumulator -= u32::from(stride_in[0]);
-
-            *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
-        }
-
-        // testing purposes
-        //
-        // assert_eq!(
-        //     accumulator,
-        //     stride_in[..diameter]
-        //         .iter()
-        //         .map(|x| u32::from(*x))
-        //         .sum::<u32>()
-        // );
-
-        let mut window_slide = u32::from(stride_in[0]);
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += u32::from(*window_in.last().unwrap());
-
-            // testing purposes
-            //
-            // assert_eq!(
-            //     accumulator,
-            //     window_in.iter().map(|x| u32::from(*x)).sum::<u32>()
-            // );
-
-            window_slide = u32::from(window_in[0]);
-
-            *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
-        }
-
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = u32::from(*stride_in.last().unwrap());
-
-        for (data_in, data_out) in stride_in[edge_len..]
-            .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator = accumulator.wrapping_sub(u32::from(*data_in));
-            accumulator = accumulator.wrapping_add(last_item);
+            .take(radius)
+            .map(|x| u32::from(*x))
+            .sum::<u32>();
+        accumulator += radius.saturating_sub(last) as u32 * last_item;
 
+        for (x, data_out) in stride_out.iter_mut().enumerate() {
             *data_out = T::from_u32(fastdiv_u32(accumulator, m_radius));
+            // slide the window
+            accumulator += u32::from(stride_in[(x + radius + 1).min(last)]);
+            accumulator -= u32::from(stride_in[x.saturating_sub(radius)]);
         }
     }
 }
+
 #[allow(
     clippy::cast_possible_truncation,
     clippy::too_many_lines,
@@ -303,64 +260,33 @@ where
 pub(crate) fn box_blur_f32_inner(
     in_image: &[f32], out_image: &mut [f32], width: usize, radius: usize
 ) {
+    let radius = radius.min(32767);
     let diameter = (radius * 2) + 1;
 
-    if width <= 1 || diameter <= 1 {
-        // repeated here for the optimizer
+    if width == 0 {
         return;
     }
-    let diameter = diameter.min(width);
-    let recip = 1.0 / diameter as f32;
+    let last = width - 1;
+    let recip = 1.0 / diameter as f64;
 
     for (stride_in, stride_out) in in_image
         .chunks_exact(width)
         .zip(out_image.chunks_exact_mut(width))
     {
-        let half_radius = (diameter + 1) / 2;
-
-        let mut accumulator: f32 = stride_in[..half_radius].iter().copied().sum();
-
-        accumulator += (half_radius - 1) as f32 * stride_in[0];
-
-        for (data_in, data_out) in stride_in[half_radius..]
-            .iter()
-            .zip(stride_out.iter_mut())
-            .take(half_radius - 1)
-        {
-            accumulator += *data_in;
-            accumulator -= stride_in[0];
-
-            *data_out = accumulator * recip;
-        }
-
-        let mut window_slide = stride_in[0];
-
-        for (window_in, data_out) in stride_in[1..]
-            .windows(diameter)
-            .zip(stride_out[half_radius - 1..].iter_mut())
-        {
-            accumulator -= window_slide;
-            accumulator += *window_in.last().unwrap();
-
-            window_slide = window_in[0];
-
-            *data_out = accumulator * recip;
-        }
-
-        let edge_len = stride_out.len() - half_radius;
-
-        let end_stride = &mut stride_out[edge_len..];
-        let last_item = *stride_in.last().unwrap();
-
-        for (data_in, data_out) in stride_in[edge_len..]
+        // the window around the first pixel, pixels beyond an edge repeat that edge
+        let mut accumulator = (radius + 1) as f64 * f64::from(stride_in[0]);
+        accumulator += stride_in[1..]
             .iter()
-            .zip(end_stride)
-            .take(half_radius)
-        {
-            accumulator -= *data_in;
-            accumulator += last_item;
-
-            *data_out = accumulator * recip;
+            .take(radius)
+            .map(|x| f64::from(*x))
+            .sum::<f64>();
+        accumulator += radius.saturating_sub(last) as f64 * f64::from(stride_in[last]);
+
+        for (x, data_out) in stride_out.iter_mut().enumerate() {
+            *data_out = (accumulator * recip) as f32;
+            // slide the window
+            accumulator += f64::from(stride_in[(x + radius + 1).min(last)]);
+            accumulator -= f64::from(stride_in[x.saturating_sub(radius)]);
         }
     }
 }
-- 
2.43.0


From 276677dcedf496b0bba0265363fcddfe015fe772 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 125/180] fix: Gaussian blur used the widths of its boxes as
 their radii

---
 crates/zune-imageprocs/src/gaussian_blur.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/gaussian_blur.rs b/crates/zune-imageprocs/src/gaussian_blur.rs
index 5263807..80eaed6 100644
--- a/crates/zune-imageprocs/src/gaussian_blur.rs
+++ b/crates/zune-imageprocs/src/gaussian_blur.rs
@@ -173,7 +173,7 @@ fn create_box_gauss(sigma: f32) -> [usize; 3] {
 
         // Ideal averaging filter width
         let w_ideal = (12.0 * sigma * sigma / n_float).sqrt() + 1.0;
-        let mut wl: i32 = w_ideal.floor() as i32;
+        let mut wl: i32 = w_ideal.floor().min(65535.0) as i32;
 
         if wl % 2 == 0 {
             wl -= 1;
@@ -200,7 +200,8 @@ fn create_box_gauss(sigma: f32) -> [usize; 3] {
         }
     }
     // convert even to odd if there exists such values
-    return radii.map(|c| if (c % 2) == 0 { c + 1 } else { c });
+    // the box blur takes the radius of a box, not its width
+    return radii.map(|c| if (c % 2) == 0 { c + 1 } else { c } / 2);
 }
 
 /// Carry out a gaussian blur on bytes that represent a single image channel
-- 
2.43.0


From fc57a7bd879bd241f2263ab56a9e13983ef0ab64 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 126/180] fix: the bilateral filter weighted the wrong pixels,
 failed for a diameter of two and ignored d <= 0

---
 .../zune-imageprocs/src/bilateral_filter.rs   | 46 ++++++++-----------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/crates/zune-imageprocs/src/bilateral_filter.rs b/crates/zune-imageprocs/src/bilateral_filter.rs
index 6e7c209..7409a52 100644
--- a/crates/zune-imageprocs/src/bilateral_filter.rs
+++ b/crates/zune-imageprocs/src/bilateral_filter.rs
@@ -78,9 +78,6 @@ impl OperationsTrait for BilateralFilter {
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
         let depth = image.depth();
         let (w, h) = image.dimensions();
-        if self.d < 1 {
-            return Ok(());
-        }
 
         // initialize bilateral coefficients outside of the main loop
         let coeffs = init_bilateral(
@@ -128,52 +125,53 @@ impl OperationsTrait for BilateralFilter {
 struct BilateralCoeffs {
     color_weight: Vec<f64>,
     space_weight: Vec<f64>,
-    radius:       usize,
-    makx:         usize
+    radius:       usize
 }
 
 #[allow(clippy::cast_possible_truncation, clippy::cast_precision_loss)]
 fn init_bilateral(
-    d: i32, sigma_color: f32, mut sigma_space: f32, color_range: usize
+    d: i32, mut sigma_color: f32, mut sigma_space: f32, color_range: usize
 ) -> BilateralCoeffs {
-    let gauss_color_coeff = f64::from(-0.5 / (sigma_color * sigma_color));
-    let gauss_space_coeff = f64::from(-0.5 / (sigma_space * sigma_space));
     let cn = 1;
 
-    // if sigma_color <= 0.0 {
-    //     sigma_color = 1.0;
-    // }
+    if sigma_color <= 0.0 {
+        sigma_color = 1.0;
+    }
     if sigma_space <= 0.0 {
         sigma_space = 1.0;
     }
 
+    let gauss_color_coeff = f64::from(-0.5 / (sigma_color * sigma_color));
+    let gauss_space_coeff = f64::from(-0.5 / (sigma_space * sigma_space));
+
     let radius: i32 = if d <= 0 { (sigma_space * 1.5).round() as _ } else { d / 2 };
+    let radius = radius.max(1);
+    let diameter = (2 * radius) + 1;
 
     let mut color_weight = vec![0.0_f64; cn * color_range];
-    let mut space_weight = vec![0.0_f64; (d * d).unsigned_abs() as usize];
+    let mut space_weight = vec![0.0_f64; (diameter * diameter).unsigned_abs() as usize];
 
     // initialize color-related bilateral filter coeffs
     for (i, item) in color_weight.iter_mut().enumerate().take(color_range) {
         let c = i as f64;
         *item = (c * c * gauss_color_coeff).exp();
     }
-    let mut makx = 0;
-    // initialize space-related bilateral coeffs
+    // initialize space-related bilateral coeffs, in the order of the pixels of the window,
+    // those outside of the circle have no weight
+    let mut pos = 0;
     for i in -radius..=radius {
         for j in -radius..=radius {
             let r = f64::from((i * i) + (j * j)).sqrt();
-            if r > f64::from(radius) {
-                continue;
+            if r <= f64::from(radius) {
+                space_weight[pos] = (r * r * gauss_space_coeff).exp();
             }
-            space_weight[makx] = (r * r * gauss_space_coeff).exp();
-            makx += 1;
+            pos += 1;
         }
     }
     return BilateralCoeffs {
         color_weight,
         space_weight,
-        radius: usize::try_from(radius).unwrap_or_default(),
-        makx
+        radius: usize::try_from(radius).unwrap_or_default()
     };
 }
 
@@ -198,17 +196,13 @@ fn bilateral_filter_int<T>(
     // This impl matches opencv bilateral_filter's inner loop, with less pointer chasing as
     // the spatial function sends the right thing to us
     let bilateral_func = |area: &[T]| -> T {
-        let mid = (area.len() + 1) / 2;
+        let mid = area.len() / 2;
 
         let mut sum = 0.0;
         let mut wsum = 0.0;
         let val0 = i32::from(area[mid]);
 
-        for (val, space_w) in area
-            .iter()
-            .zip(coeffs.space_weight.iter())
-            .take(coeffs.makx)
-        {
+        for (val, space_w) in area.iter().zip(coeffs.space_weight.iter()) {
             let val = i32::from(*val);
             let abs_val = (val - val0).unsigned_abs() as usize;
 
-- 
2.43.0


From 174622ffb6005f3056598ecdfe8de50c159bc3d1 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 127/180] fix: compositing weighted the source's alpha by
 itself

---
 crates/zune-imageprocs/src/composite.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index e371d41..a63665a 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -319,9 +319,7 @@ fn composite_alpha_channel<T>(
                     let src_normalized = (f32::from(*src_p) * max_v).clamp(0.0, 1.0);
                     let dst_alpha = 1.0 - src_normalized;
 
-                    *dst = T::from_f32(
-                        (src_normalized * f32::from(*src_p)) + (dst_alpha * f32::from(*dst))
-                    );
+                    *dst = T::from_f32(f32::from(*src_p) + (dst_alpha * f32::from(*dst)));
                 }
             }
         }
-- 
2.43.0


From 585a78965b4563fb81af9d1f2013d7525f5d076b Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 128/180] fix: the to-zero threshold stored the threshold
 instead of the pixel

---
 crates/zune-imageprocs/src/threshold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/threshold.rs b/crates/zune-imageprocs/src/threshold.rs
index 5e7dd13..177abe1 100644
--- a/crates/zune-imageprocs/src/threshold.rs
+++ b/crates/zune-imageprocs/src/threshold.rs
@@ -146,7 +146,7 @@ pub fn threshold<T>(in_channel: &mut [T], threshold: T, method: ThresholdMethod)
             {
                 for x in in_channel.iter_mut()
                 {
-                    *x = if *x > threshold { threshold } else { T::min_val() }
+                    *x = if *x > threshold { *x } else { T::min_val() }
                 }
             }
     }
-- 
2.43.0


From af7a0c215e7941be8ad30ef3760fa820f5fdeb72 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 129/180] fix: premultiplying 8 and 16-bit images scaled every
 colour down to nothing

---
 crates/zune-imageprocs/src/premul_alpha.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zune-imageprocs/src/premul_alpha.rs b/crates/zune-imageprocs/src/premul_alpha.rs
index 4881b49..fdf0c64 100644
--- a/crates/zune-imageprocs/src/premul_alpha.rs
+++ b/crates/zune-imageprocs/src/premul_alpha.rs
@@ -238,12 +238,10 @@ pub fn create_unpremul_table_u16() -> Vec<u128> {
 /// Items in input are modified in place.
 #[allow(clippy::cast_possible_truncation)]
 pub fn premultiply_u8(input: &mut [u8], alpha: &[u8]) {
-    const MAX_VALUE: u16 = 255;
-
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u16::from(*al) * u16::from(*color)) + 0x80;
 
-        *color = ((temp + (temp >> 8)) / MAX_VALUE) as u8;
+        *color = ((temp + (temp >> 8)) >> 8) as u8;
     });
 }
 
@@ -261,7 +259,7 @@ pub fn premultiply_u16(input: &mut [u16], alpha: &[u16]) {
 
     input.iter_mut().zip(alpha).for_each(|(color, al)| {
         let temp = (u32::from(*al) * u32::from(*color)) + ((MAX_VALUE + 1) / 2);
-        *color = ((temp + (temp >> 16)) / MAX_VALUE) as u16;
+        *color = ((temp + (temp >> 16)) >> 16) as u16;
     });
 }
 
-- 
2.43.0


From 7fe92797e6668530421aa1ab12eae28c0c6fd46b Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 130/180] fix: composing images with alpha by Src or Dst
 panicked

---
 crates/zune-imageprocs/src/composite.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index a63665a..c75b09f 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -292,7 +292,7 @@ fn composite_alpha<T>(
             src, dest, src_alpha, start_x, start_y, width_src, width_dest
         );
     } else {
-        unreachable!()
+        composite(src, dest, start_x, start_y, width_src, width_dest, method);
     }
 }
 fn composite_alpha_channel<T>(
@@ -323,6 +323,8 @@ fn composite_alpha_channel<T>(
                 }
             }
         }
+    } else {
+        composite(alpha_src, dst_alpha, start_x, start_y, width_src, width_dest, method);
     }
 }
 fn composite<T: Copy + NumOps<T>>(
-- 
2.43.0


From 09be05f8b0858ab7f2eb071d7ddcf948313a9f4b Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 131/180] fix: composing by DstIn reported success without
 doing anything

---
 crates/zune-imageprocs/src/composite.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index c75b09f..d82d0e4 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -268,7 +268,9 @@ impl<'a> OperationsTrait for Composite<'a> {
                 }
             }
             CompositeMethodType::AlphaChannel => {
-                // we need
+                return Err(ImageErrors::GenericStr(
+                    "Composite method DstIn is not implemented"
+                ));
             }
         }
         Ok(())
-- 
2.43.0


From afc0d7148b98f999acca6149572441176f299639 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 132/180] fix: blending with an alpha above one went on after
 copying the source

---
 crates/zune-imageprocs/src/blend.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-imageprocs/src/blend.rs b/crates/zune-imageprocs/src/blend.rs
index d1c435a..00b08ca 100644
--- a/crates/zune-imageprocs/src/blend.rs
+++ b/crates/zune-imageprocs/src/blend.rs
@@ -146,6 +146,7 @@ where
     if src_alpha >= 1.0 {
         // copy source to destination
         dest.copy_from_slice(src);
+        return;
     }
 
     let dest_alpha = 1.0 - src_alpha;
-- 
2.43.0


From 9c8d0a73c7cb4e0ce32b053da034fb19972c64d9 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 133/180] fix: contrast stretching did not map the upper limit
 to the maximum

---
 crates/zune-imageprocs/src/stretch_contrast.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/stretch_contrast.rs b/crates/zune-imageprocs/src/stretch_contrast.rs
index 69fd8ce..1a62086 100644
--- a/crates/zune-imageprocs/src/stretch_contrast.rs
+++ b/crates/zune-imageprocs/src/stretch_contrast.rs
@@ -107,7 +107,8 @@ where
         return Err("upper must be strictly greater than lower");
     }
 
-    let len = u32::from(upper.saturating_sub(lower)).saturating_add(1);
+    // never zero, when upper equals lower no pixel lies between them
+    let len = u32::from(upper.saturating_sub(lower)).max(1);
 
     // using fast division is faster than the other one
     // (weirdly) vectorized one.
@@ -144,7 +145,7 @@ pub fn stretch_contrast_f32(image: &mut [f32], lower: f32, upper: f32) -> Result
         } else if *pixel <= lower {
             *pixel = f32::min_val();
         } else {
-            *pixel = (f32::max_val() - *pixel) * inv_range;
+            *pixel = (*pixel - lower) * inv_range;
         }
     }
 
-- 
2.43.0


From 9ac5ff83f970b738812b714f3b0590647068c3e6 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 134/180] fix: gamma correction truncated, so that even a gamma
 of one darkened pixels

---
 crates/zune-imageprocs/src/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/gamma.rs b/crates/zune-imageprocs/src/gamma.rs
index dc01909..5f9a1b1 100644
--- a/crates/zune-imageprocs/src/gamma.rs
+++ b/crates/zune-imageprocs/src/gamma.rs
@@ -51,7 +51,8 @@ fn build_gamma_lut<T: Default + NumOps<T> + Copy>(value: f32, max_value: u16) ->
             new_pix_val = max_value;
         }
 
-        lut[x & lut_mask] = T::from_f32(new_pix_val);
+        // round, to not darken each pixel by a level
+        lut[x & lut_mask] = T::from_f32((new_pix_val + 0.5).min(max_value));
     }
     return lut;
 }
-- 
2.43.0


From 18009e1ba1be32cd7b60c5943eaf8c08b2f58813 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:55 +0000
Subject: [PATCH 135/180] fix: HsvAdjust changed the image with parameters
 documented to have no effect

---
 crates/zune-imageprocs/src/hsv_adjust.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/zune-imageprocs/src/hsv_adjust.rs b/crates/zune-imageprocs/src/hsv_adjust.rs
index f89c5a1..c1c2b20 100644
--- a/crates/zune-imageprocs/src/hsv_adjust.rs
+++ b/crates/zune-imageprocs/src/hsv_adjust.rs
@@ -157,6 +157,8 @@ where
 
     let min = T::MIN_VAL.to_f32();
     let max = T::MAX_VAL.to_f32();
+    // integers round to the nearest level
+    let half = if max > 1.0 { 0.5 } else { 0.0 };
 
     for ((r_i, g_i), b_i) in r.iter_mut().zip(g.iter_mut()).zip(b.iter_mut()) {
         let in_r = f32::from(*r_i);
@@ -170,12 +172,12 @@ where
             + (0.587 * v + 0.413 * vsu + 0.035 * vsw) * in_g
             + (0.114 * v - 0.114 * vsu + 0.292 * vsw) * in_b;
 
-        let new_b = (0.299 * v - 0.300 * vsu + 1.25 * vsw) * in_r
-            + (0.587 * v - 0.588 * vsu - 1.05 * vsw) * in_g
+        let new_b = (0.299 * v - 0.299 * vsu + 1.25 * vsw) * in_r
+            + (0.587 * v - 0.587 * vsu - 1.05 * vsw) * in_g
             + (0.114 * v + 0.886 * vsu - 0.203 * vsw) * in_b;
 
-        *r_i = T::from_f32(new_r.clamp(min, max));
-        *g_i = T::from_f32(new_g.clamp(min, max));
-        *b_i = T::from_f32(new_b.clamp(min, max));
+        *r_i = T::from_f32(new_r.clamp(min, max) + half);
+        *g_i = T::from_f32(new_g.clamp(min, max) + half);
+        *b_i = T::from_f32(new_b.clamp(min, max) + half);
     }
 }
-- 
2.43.0


From 9fb169873a7a5b8578f4dd64b2a26881cf5ca1a4 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 136/180] fix: the linear transfer function turned every image
 black

---
 crates/zune-imageprocs/src/image_transfer/trc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/image_transfer/trc.rs b/crates/zune-imageprocs/src/image_transfer/trc.rs
index 504f50c..67b85c6 100644
--- a/crates/zune-imageprocs/src/image_transfer/trc.rs
+++ b/crates/zune-imageprocs/src/image_transfer/trc.rs
@@ -221,7 +221,7 @@ pub fn gamma2p8_to_linear(gamma: f32) -> f32 {
 #[inline]
 /// Gamma transfer function for HLG
 pub fn trc_linear(v: f32) -> f32 {
-    v.min(1.).min(0.)
+    v.min(1.).max(0.)
 }
 
 #[inline]
-- 
2.43.0


From 51f99397d86ee8711ebcc315a36bef5ffac51519 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 137/180] fix: cropping to nothing left an image of size zero
 and huge offsets overflowed

---
 crates/zune-imageprocs/src/crop.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/crop.rs b/crates/zune-imageprocs/src/crop.rs
index 5687c03..c0fcad0 100644
--- a/crates/zune-imageprocs/src/crop.rs
+++ b/crates/zune-imageprocs/src/crop.rs
@@ -125,7 +125,14 @@ impl OperationsTrait for Crop {
     }
 
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
-        let new_dims = self.width * self.height * image.depth().size_of();
+        if self.width == 0 || self.height == 0 {
+            return Err(ImageErrors::GenericStr("Cannot crop to a width or height of zero"));
+        }
+        let new_dims = self
+            .width
+            .checked_mul(self.height)
+            .and_then(|pixels| pixels.checked_mul(image.depth().size_of()))
+            .ok_or(ImageErrors::GenericStr("Crop dimensions are too large"))?;
         let (old_width, _) = image.dimensions();
         let depth = image.depth().bit_type();
 
@@ -225,7 +232,7 @@ pub fn crop<T: Copy>(
         .take(out_height)
         .zip(out_image.chunks_exact_mut(out_width))
     {
-        if let Some(v) = single_in_width.get(x..x + out_width) {
+        if let Some(v) = single_in_width.get(x..x.saturating_add(out_width)) {
             single_out_width.copy_from_slice(v);
         }
     }
-- 
2.43.0


From ef61053929de26ca6fb8e6376d2e736f7c4d20c0 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:36:19 +0000
Subject: [PATCH 138/180] fix: resizing to nothing left an image of size zero

---
 crates/zune-imageprocs/src/resize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index bd3c5c0..aed6406 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -88,6 +88,11 @@ impl OperationsTrait for Resize {
 
     #[allow(clippy::too_many_lines)]
     fn execute_impl(&self, image: &mut Image) -> Result<(), ImageErrors> {
+        if self.new_width == 0 || self.new_height == 0 {
+            return Err(ImageErrors::GenericStr(
+                "Cannot resize to a width or height of zero"
+            ));
+        }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
         let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
-- 
2.43.0


From e821165e487098b2a0d5ba3b9b0ab889853d93c2 Mon Sep 17 00:00:00 2001
From: z <z@z>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 139/180] fix: resizing rounded linear light to the image's
 depth, and changed linear images and images of the wanted size

---
 crates/zune-imageprocs/src/resize.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/zune-imageprocs/src/resize.rs b/crates/zune-imageprocs/src/resize.rs
index aed6406..d7d5a42 100644
--- a/crates/zune-imageprocs/src/resize.rs
+++ b/crates/zune-imageprocs/src/resize.rs
@@ -93,15 +93,24 @@ impl OperationsTrait for Resize {
                 "Cannot resize to a width or height of zero"
             ));
         }
+        if image.dimensions() == (self.new_width, self.new_height) {
+            return Ok(());
+        }
         // For any resize always convert gamma to linear.
         // But check if that is the current image format
-        let is_image_linear = image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
+        let is_image_linear = image.metadata().is_linear()
+            || image.metadata().color_trc() == Some(ColorCharacteristics::Linear);
 
         let transfer_function = image
             .metadata()
             .color_trc()
             .unwrap_or(ColorCharacteristics::sRGB);
 
+        let is_premultiplied = image.metadata().is_premultiplied_alpha();
+        let has_alpha = image.colorspace().has_alpha();
+        let original_depth = image.depth();
+        // linear light, pre multiplied colors and weighted sums do not fit into the integers
+        image.convert_depth(BitDepth::Float32)?;
         if !is_image_linear {
             let start = Instant::now();
             trace!("Converting image to linear along resize method");
@@ -117,12 +126,7 @@ impl OperationsTrait for Resize {
             );
         }
         // if alpha is present premultiply
-        let is_premultiplied = image.metadata().is_premultiplied_alpha();
-        let has_alpha = image.colorspace().has_alpha();
-        let original_depth = image.depth();
         if !is_premultiplied && has_alpha {
-            // pre multiply looses color if its in u8
-            image.convert_depth(BitDepth::Float32)?;
             trace!("Premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::PreMultiplied).execute_impl(image)?;
@@ -196,8 +200,6 @@ impl OperationsTrait for Resize {
             trace!("Un-premultiplying alpha along resize method");
             let start = Instant::now();
             PremultiplyAlpha::new(AlphaState::NonPreMultiplied).execute_impl(image)?;
-            // return the depth originally there
-            image.convert_depth(original_depth)?;
             let duration = start.elapsed();
             trace!("Un-premultiply successfully completed in {:.2?}", duration);
         }
@@ -216,6 +218,8 @@ impl OperationsTrait for Resize {
                 duration
             );
         }
+        // return the depth originally there
+        image.convert_depth(original_depth)?;
 
         Ok(())
     }
-- 
2.43.0


From 4a197b9841530d7dbdbbbe2b839c2de0101e919e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 140/180] fix: images narrower or lower than eight pixels were
 not transposed

---
 crates/zune-imageprocs/src/transpose/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/transpose/scalar.rs b/crates/zune-imageprocs/src/transpose/scalar.rs
index b219165..0e43f3d 100644
--- a/crates/zune-imageprocs/src/transpose/scalar.rs
+++ b/crates/zune-imageprocs/src/transpose/scalar.rs
@@ -63,8 +63,8 @@ pub fn transpose_scalar<T: Copy + Default>(
             }
         }
     }
-    let rem_w = width - (width & 7) - 1;
-    let rem_h = height - (height & 7) - 1;
+    let rem_w = width - (width & 7);
+    let rem_h = height - (height & 7);
 
     for i in rem_h..height {
         for j in 0..width {
-- 
2.43.0


From 0b9a6b128c87ca4ce572320eab1b2cb8103c1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 141/180] fix: Gaussian blur chose boxes too wide for its sigma

---
 crates/zune-imageprocs/src/gaussian_blur.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/gaussian_blur.rs b/crates/zune-imageprocs/src/gaussian_blur.rs
index 80eaed6..1f9aca4 100644
--- a/crates/zune-imageprocs/src/gaussian_blur.rs
+++ b/crates/zune-imageprocs/src/gaussian_blur.rs
@@ -172,7 +172,7 @@ fn create_box_gauss(sigma: f32) -> [usize; 3] {
         let n_float = 3.0;
 
         // Ideal averaging filter width
-        let w_ideal = (12.0 * sigma * sigma / n_float).sqrt() + 1.0;
+        let w_ideal = ((12.0 * sigma * sigma / n_float) + 1.0).sqrt();
         let mut wl: i32 = w_ideal.floor().min(65535.0) as i32;
 
         if wl % 2 == 0 {
-- 
2.43.0


From 608df469ba308355b9d788670de410a92dcc08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:00 +0000
Subject: [PATCH 142/180] fix: BT.1361 made light just below zero brighter than
 black

---
 crates/zune-imageprocs/src/image_transfer/trc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-imageprocs/src/image_transfer/trc.rs b/crates/zune-imageprocs/src/image_transfer/trc.rs
index 67b85c6..ced91d9 100644
--- a/crates/zune-imageprocs/src/image_transfer/trc.rs
+++ b/crates/zune-imageprocs/src/image_transfer/trc.rs
@@ -155,7 +155,7 @@ pub fn log100_sqrt10_from_linear(linear: f32) -> f32 {
 pub fn bt1361_from_linear(linear: f32) -> f32 {
     if linear < -0.25 {
         -0.25
-    } else if linear < 0.0 {
+    } else if linear < -0.018053968510807 / 4.0 {
         -0.27482420670236 * f32::powf(-4.0 * linear, 0.45) + 0.02482420670236
     } else if linear < 0.018053968510807 {
         linear * 4.5
@@ -171,7 +171,7 @@ pub fn bt1361_from_linear(linear: f32) -> f32 {
 pub fn bt1361_to_linear(gamma: f32) -> f32 {
     if gamma < -0.25 {
         -0.25
-    } else if gamma < 0.0 {
+    } else if gamma < -4.5 * 0.018053968510807 / 4.0 {
         f32::powf((gamma - 0.02482420670236) / -0.27482420670236, 1.0 / 0.45) / -4.0
     } else if gamma < 4.5 * 0.018053968510807 {
         gamma / 4.5
-- 
2.43.0


From 3d633296e60d65f64f71423df453d03adf955caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 143/180] fix: the gravity of a composite could not be named

---
 crates/zune-imageprocs/src/composite.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/composite.rs b/crates/zune-imageprocs/src/composite.rs
index d82d0e4..d74e28d 100644
--- a/crates/zune-imageprocs/src/composite.rs
+++ b/crates/zune-imageprocs/src/composite.rs
@@ -4,7 +4,8 @@ use zune_image::image::Image;
 use zune_image::traits::OperationsTrait;
 
 use crate::traits::NumOps;
-use crate::utils::{calculate_gravity, Gravity};
+use crate::utils::calculate_gravity;
+pub use crate::utils::Gravity;
 
 /// Composite method to use for composing
 ///
-- 
2.43.0


From c7be6da8e31d52033aae1a469186440cda0052e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 144/180] fix: deinterleaving used AVX2 and SSE4.1 code on
 processors without them

---
 crates/zune-image/src/deinterleave/deinterleave_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-image/src/deinterleave/deinterleave_impls.rs b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
index dffc2fe..cf00416 100644
--- a/crates/zune-image/src/deinterleave/deinterleave_impls.rs
+++ b/crates/zune-image/src/deinterleave/deinterleave_impls.rs
@@ -25,7 +25,7 @@ pub fn de_interleave_three_channels_u8(source: &[u8], c1: &mut [u8], c2: &mut [u
         {
             use crate::deinterleave::sse41::de_interleave_three_channels_sse3_u8;
 
-            if is_x86_feature_detected!("sse3") {
+            if is_x86_feature_detected!("sse4.1") {
                 unsafe {
                     return de_interleave_three_channels_sse3_u8(source, c1, c2, c3);
                 }
@@ -78,7 +78,7 @@ pub fn deinterleave_four_channels_u8(
         #[cfg(feature = "simd")]
         {
             use crate::deinterleave::avx2::de_interleave_four_channels_avx2;
-            if is_x86_feature_detected!("sse4.1") {
+            if is_x86_feature_detected!("avx2") {
                 unsafe {
                     return de_interleave_four_channels_avx2(source, c1, c2, c3, c4);
                 }
-- 
2.43.0


From cd527ad52041922e02cb5a9469cf307f5fa03f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 145/180] fix: the u16 to u8 view wrote through a shared
 pointer

---
 crates/zune-png/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-png/src/utils.rs b/crates/zune-png/src/utils.rs
index e844ddc..67b264a 100644
--- a/crates/zune-png/src/utils.rs
+++ b/crates/zune-png/src/utils.rs
@@ -356,7 +356,7 @@ pub fn convert_u16_to_u8_slice(slice: &mut [u16]) -> &mut [u8] {
     // the alignment of the target is smaller.
     unsafe {
         core::slice::from_raw_parts_mut(
-            slice.as_ptr() as *mut u8,
+            slice.as_mut_ptr().cast::<u8>(),
             slice.len().checked_mul(2).unwrap()
         )
     }
-- 
2.43.0


From 95f35bbc187ec935b8479e0cc5590f2d72cb436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 146/180] fix: unsharpen without threads wrapped its threshold
 at 256

---
 crates/zune-imageprocs/src/unsharpen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-imageprocs/src/unsharpen.rs b/crates/zune-imageprocs/src/unsharpen.rs
index 214597c..241a13c 100644
--- a/crates/zune-imageprocs/src/unsharpen.rs
+++ b/crates/zune-imageprocs/src/unsharpen.rs
@@ -89,7 +89,7 @@ impl OperationsTrait for Unsharpen {
                             &mut blur_buffer,
                             &mut blur_scratch,
                             self.sigma,
-                            self.threshold as u8,
+                            u8::try_from(self.threshold.clamp(0, 255)).unwrap_or(u8::MAX),
                             self.percentage,
                             width,
                             height
-- 
2.43.0


From dc0941bb050c8d58940f82aca4fdd7abc3db53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 147/180] fix: freeing a status freed its message twice

---
 crates/zune-capi/src/errno.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/errno.rs b/crates/zune-capi/src/errno.rs
index 274d251..c0cb5c7 100644
--- a/crates/zune-capi/src/errno.rs
+++ b/crates/zune-capi/src/errno.rs
@@ -160,8 +160,7 @@ pub extern "C" fn zil_status_message(status: *const ZStatus) -> *const c_char {
 #[no_mangle]
 pub extern "C" fn zil_status_free(status: *mut ZStatus) {
     if !status.is_null() {
-        unsafe { zil_free((*status).message.cast()) }
-        // free object
+        // free object, this frees the message too
         unsafe { status.drop_in_place() }
 
         // free memory holding it
-- 
2.43.0


From 38b363dd83ddfe48ef7cdcec7453c8ac7a3c0b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 148/180] fix: a new C image dropped whatever was in the memory
 it was given

---
 crates/zune-capi/src/image.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 1cd9d41..3b2e4ab 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -156,8 +156,12 @@ pub extern "C" fn zil_zimg_write_to_output(
 /// This is the preferred way to initialize this, not via memset or malloc+sizeof
 #[no_mangle]
 pub extern "C" fn zil_zimg_new() -> *mut ZImage {
-    let ptr = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
-    unsafe { *ptr = ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown) };
+    let ptr: *mut ZImage = unsafe { libc::malloc(std::mem::size_of::<ZImage>()) }.cast();
+    if ptr.is_null() {
+        return ptr::null_mut();
+    }
+    // the memory isn't an image yet, so nothing in it may be dropped
+    unsafe { ptr.write(ZImage::new(vec![], BitDepth::Unknown, 1, 1, ColorSpace::Unknown)) };
     ptr
 }
 /// Free an image
-- 
2.43.0


From 169f24e9c8278d7efb8ffbe8a60a6fab8b8c5188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 149/180] fix: C images of 16 bit and float samples counted
 their length in bytes

---
 crates/zune-capi/src/image.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 3b2e4ab..7767488 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -366,7 +366,6 @@ pub extern "C" fn zil_zimg_from_u8(
     if let Some(size) = checked_mul(
         width,
         height,
-        1,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -402,7 +401,6 @@ pub extern "C" fn zil_zimg_from_u16(
     if let Some(size) = checked_mul(
         width,
         height,
-        2,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -438,7 +436,6 @@ pub extern "C" fn zil_zimg_from_f32(
     if let Some(size) = checked_mul(
         width,
         height,
-        4,
         colorspace.to_colorspace().num_components()
     ) {
         if size <= length {
@@ -455,11 +452,8 @@ pub extern "C" fn zil_zimg_from_f32(
     }
     ptr::null_mut()
 }
-fn checked_mul(
-    width: usize, height: usize, depth: usize, colorspace_components: usize
-) -> Option<usize> {
+fn checked_mul(width: usize, height: usize, colorspace_components: usize) -> Option<usize> {
     width
         .checked_mul(height)?
-        .checked_mul(depth)?
         .checked_mul(colorspace_components)
 }
-- 
2.43.0


From 83412cadb94cbdd6ea962797a04efc2afd6307b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 150/180] fix: the C interface decoded QOI images as JPEG

---
 crates/zune-capi/src/imread.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index edd5217..1008542 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -11,6 +11,7 @@ use zune_image::codecs::jpeg::JpegDecoder;
 use zune_image::codecs::png::PngDecoder;
 use zune_image::codecs::ppm::PPMDecoder;
 use zune_image::codecs::psd::PSDDecoder;
+use zune_image::codecs::qoi::QoiDecoder;
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
 
@@ -492,7 +493,7 @@ where
             }
             ImageFormat::QOI => {
                 // just write into buffer
-                let mut decoder = JpegDecoder::new(data);
+                let mut decoder = QoiDecoder::new(data);
 
                 decoder.decode_into(output)?;
             }
-- 
2.43.0


From 5b7e0f95e4923a0ccd829ed138a1f8c9fa0ba563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 151/180] fix: the C interface asked for the depth of a PNG
 before reading it

---
 crates/zune-capi/src/imread.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 1008542..3540492 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -381,6 +381,7 @@ where
                 // we expect the caller to have appropriately taken care of allocating enough to hold 16 bit
                 //
                 let mut decoder = PngDecoder::new(data);
+                decoder.decode_headers()?;
 
                 match decoder.depth().unwrap() {
                     BitDepth::Eight => {
-- 
2.43.0


From 8edf5565c48c6c93b9c89672158113fc248a1ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 152/180] fix: the C interface ran operations on images they do
 not support

---
 crates/zune-capi/src/improc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index ad449b1..73b2ceb 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,7 +39,7 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute_impl(image) {
+    if let Err(err) = filter.execute(image) {
         unsafe {
             *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
         }
-- 
2.43.0


From 1e3725b3e52c263eeb999f315d4b73ade1269938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 153/180] fix: the C interface refused float and 16 bit images
 when the buffer had odd bytes to spare

---
 crates/zune-capi/src/imread.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 3540492..85b649c 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -335,7 +335,7 @@ pub extern "C" fn zil_imdecode_into(
                 return;
             }
 
-            if let Err(e) = imdecode_inner(ZCursor::new(contents), buf) {
+            if let Err(e) = imdecode_inner(ZCursor::new(contents), &mut buf[..size]) {
                 unsafe { *status = ZStatus::new(e.to_string(), ZStatusType::ZilDecodeErrors) };
                 return;
             }
-- 
2.43.0


From d4bcdb165f235e3b2c791cd16a75628e28602003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 154/180] fix: the C interface sized JPEG output by the
 colorspace of the file

---
 crates/zune-capi/src/imread.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 85b649c..0f1b51f 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -3,6 +3,7 @@ use std::ptr;
 
 use zune_core::bit_depth::{BitDepth, ByteEndian};
 use zune_core::bytestream::{ZByteReaderTrait, ZCursor, ZReader};
+use zune_core::colorspace::ColorSpace;
 use zune_core::result::DecodingResult;
 use zune_image::codecs::bmp::BmpDecoder;
 use zune_image::codecs::farbfeld::FarbFeldDecoder;
@@ -14,6 +15,7 @@ use zune_image::codecs::psd::PSDDecoder;
 use zune_image::codecs::qoi::QoiDecoder;
 use zune_image::codecs::ImageFormat;
 use zune_image::errors::ImageErrors;
+use zune_image::metadata::ImageMetadata;
 
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
@@ -56,10 +58,10 @@ pub extern "C" fn zil_imread(
 
     match std::fs::read(file_cstr) {
         Ok(data) => {
-            if let Some(im_metadata) = zune_image::utils::decode_info(ZCursor::new(&data)) {
+            if let Some((im_metadata, colorspace)) = output_info(&data) {
                 // allocate a space big enough
                 let (w, h) = im_metadata.dimensions();
-                let colorspace = im_metadata.colorspace().num_components();
+                let colorspace = colorspace.num_components();
                 let im_depth = im_metadata.depth().size_of();
 
                 let new_size = w * h * colorspace * im_depth;
@@ -245,17 +247,16 @@ pub extern "C" fn zil_imdecode(
     }
     let contents = unsafe { std::slice::from_raw_parts(input, input_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
+    match output_info(contents) {
         None => {
             let msg = "Could not decode headers".to_string();
             // safety: We checked above if status is null
             unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
             return ptr::null();
         }
-        Some(metadata) => {
+        Some((metadata, colorspace)) => {
             let (w, h) = metadata.dimensions();
             let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
             let size = w * h * im_depth.size_of() * colorspace.num_components();
 
             let output = unsafe { zil_malloc(size) };
@@ -315,16 +316,15 @@ pub extern "C" fn zil_imdecode_into(
     // Safety the caller is supposed to uphold this
     let buf = unsafe { std::slice::from_raw_parts_mut(output, output_size) };
 
-    match zune_image::utils::decode_info(ZCursor::new(contents)) {
+    match output_info(contents) {
         None => {
             let msg = "Could not decode headers".to_string();
             // safety: We checked above if status is null
             unsafe { *status = ZStatus::new(msg, ZStatusType::ZilDecodeErrors) };
         }
-        Some(metadata) => {
+        Some((metadata, colorspace)) => {
             let (w, h) = metadata.dimensions();
             let im_depth = metadata.depth();
-            let colorspace = metadata.colorspace();
             let size = w * h * im_depth.size_of() * colorspace.num_components();
 
             // the buffer has to be that big
@@ -359,6 +359,19 @@ pub extern "C" fn zil_imdecode_into(
     }
 }
 
+/// Read the headers of an image and tell what the decoder will output
+///
+/// The colorspace of the decoded pixels may differ from the one in the file, e.g. a
+/// grayscale or CMYK jpeg is decoded to RGB
+fn output_info(contents: &[u8]) -> Option<(ImageMetadata, ColorSpace)> {
+    let (format, data) = zune_image::codecs::guess_format(ZCursor::new(contents))?;
+    let mut decoder = format.decoder(data).ok()?;
+    let metadata = decoder.read_headers().ok()??;
+    let colorspace = decoder.out_colorspace();
+
+    Some((metadata, colorspace))
+}
+
 fn imdecode_inner<T>(data: T, output: &mut [u8]) -> Result<(), ImageErrors>
 where
     T: ZByteReaderTrait
-- 
2.43.0


From f1760e4ccccda4e16c2c4410c2577842626aa37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 155/180] fix: a C image without pixels or colorspace aborted
 the program

---
 crates/zune-capi/src/image.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index 7767488..b71bf84 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -456,4 +456,6 @@ fn checked_mul(width: usize, height: usize, colorspace_components: usize) -> Opt
     width
         .checked_mul(height)?
         .checked_mul(colorspace_components)
+        // images without pixels or channels can't be made
+        .filter(|size| *size != 0)
 }
-- 
2.43.0


From 4c4480858427910b31888605fee5190fd6844e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 156/180] fix: interleaving one channel, or more than four,
 needed an output of exactly their size

---
 crates/zune-image/src/utils.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/utils.rs b/crates/zune-image/src/utils.rs
index 47d003d..524fd2a 100644
--- a/crates/zune-image/src/utils.rs
+++ b/crates/zune-image/src/utils.rs
@@ -122,8 +122,10 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
         0 => Ok(0),
         // copy
         1 => {
-            output.copy_from_slice(channels[0].reinterpret_as()?);
-            Ok(output.len())
+            let channel = channels[0].reinterpret_as()?;
+            let size = min(channel.len(), output.len());
+            output[..size].copy_from_slice(&channel[..size]);
+            Ok(size)
         }
         2 => {
             for ((output, a), b) in output
@@ -176,8 +178,9 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
             for channel in channels {
                 channels_ref.push(channel.reinterpret_as::<T>()?);
             }
+            let pixels = channels_ref[0].len();
             let mut written_pixels = 0;
-            for (pos, pixel) in output.chunks_exact_mut(n).enumerate() {
+            for (pos, pixel) in output.chunks_exact_mut(n).take(pixels).enumerate() {
                 for (channel, out_p) in channels_ref.iter().zip(pixel) {
                     *out_p = channel[pos];
                     written_pixels += 1;
-- 
2.43.0


From 2d2be5a4462b008c11d53e56f9ea2a053453844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 157/180] fix: interleaving into a short output counted samples
 it did not write

---
 crates/zune-image/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/zune-image/src/utils.rs b/crates/zune-image/src/utils.rs
index 524fd2a..daecbcf 100644
--- a/crates/zune-image/src/utils.rs
+++ b/crates/zune-image/src/utils.rs
@@ -136,7 +136,7 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
                 output[0] = *a;
                 output[1] = *b;
             }
-            let size = min(channels[0].reinterpret_as::<T>()?.len() * 2, output.len());
+            let size = min(channels[0].reinterpret_as::<T>()?.len() * 2, output.len() / 2 * 2);
             Ok(size)
         }
         3 => {
@@ -155,7 +155,7 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
             }
             swizzle_three_channels(&r, output);
 
-            let size = min(channels[0].reinterpret_as::<T>()?.len() * 3, output.len());
+            let size = min(channels[0].reinterpret_as::<T>()?.len() * 3, output.len() / 3 * 3);
             Ok(size)
         }
         4 => {
@@ -170,7 +170,7 @@ pub fn swizzle_channels<T: Copy + Default + 'static>(
             }
             swizzle_four_channels(&r, output);
 
-            let size = min(channels[0].reinterpret_as::<T>()?.len() * 4, output.len());
+            let size = min(channels[0].reinterpret_as::<T>()?.len() * 4, output.len() / 4 * 4);
             Ok(size)
         }
         n => {
-- 
2.43.0


From f9fbc44e279ce30e64ed30760f25c3b8c0c589c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 158/180] fix: C image calls left the failure of an earlier
 call in the status

---
 crates/zune-capi/src/image.rs  | 28 +++++++++++++++++++++-------
 crates/zune-capi/src/improc.rs |  5 +++--
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/crates/zune-capi/src/image.rs b/crates/zune-capi/src/image.rs
index b71bf84..768d8b4 100644
--- a/crates/zune-capi/src/image.rs
+++ b/crates/zune-capi/src/image.rs
@@ -137,7 +137,10 @@ pub extern "C" fn zil_zimg_write_to_output(
         _ => Err(ImageErrors::GenericStr("Unknown depth"))
     };
     match result {
-        Ok(bytes) => bytes * image.depth().size_of(),
+        Ok(bytes) => {
+            set_okay(status);
+            bytes * image.depth().size_of()
+        }
         Err(err) => {
             if !status.is_null() {
                 unsafe {
@@ -199,6 +202,7 @@ pub extern "C" fn zil_zimg_open(file: *const c_char, image: *mut ZImage, status:
         Ok(bytes) => match ZImage::open(bytes) {
             Ok(im) => {
                 unsafe { *image = im };
+                set_okay(status);
             }
             Err(err) => {
                 if !status.is_null() {
@@ -237,6 +241,7 @@ pub extern "C" fn zil_zimg_read_from_memory(
     match ZImage::read(buffer, DecoderOptions::new_fast()) {
         Ok(im) => {
             unsafe { *image = im };
+            set_okay(status);
         }
         Err(err) => {
             if !status.is_null() {
@@ -270,13 +275,14 @@ pub extern "C" fn zil_zimg_write_to_disk(
 
     let image = unsafe { &*image };
     match std::str::from_utf8(c_str) {
-        Ok(bytes) => {
-            if let Err(e) = image.save(bytes) {
+        Ok(bytes) => match image.save(bytes) {
+            Ok(()) => set_okay(status),
+            Err(e) => {
                 if !status.is_null() {
                     unsafe { *status = ZStatus::new(e.to_string(), ZilDecodeErrors) };
                 }
             }
-        }
+        },
         Err(err) => {
             if !status.is_null() {
                 unsafe { *status = ZStatus::new(err.to_string(), ZilIoErrors) };
@@ -311,13 +317,14 @@ pub extern "C" fn zil_zimg_write_to_disk_with_format(
 
     let image = unsafe { &*image };
     match std::str::from_utf8(c_str) {
-        Ok(bytes) => {
-            if let Err(e) = image.save_to(bytes, format.to_format()) {
+        Ok(bytes) => match image.save_to(bytes, format.to_format()) {
+            Ok(()) => set_okay(status),
+            Err(e) => {
                 if !status.is_null() {
                     unsafe { *status = ZStatus::new(e.to_string(), ZilDecodeErrors) };
                 }
             }
-        }
+        },
         Err(err) => {
             if !status.is_null() {
                 unsafe { *status = ZStatus::new(err.to_string(), ZilIoErrors) };
@@ -452,6 +459,13 @@ pub extern "C" fn zil_zimg_from_f32(
     }
     ptr::null_mut()
 }
+/// Tell the caller that an operation succeeded, whatever the status said before
+fn set_okay(status: *mut ZStatus) {
+    if !status.is_null() {
+        unsafe { *status = ZStatus::okay() };
+    }
+}
+
 fn checked_mul(width: usize, height: usize, colorspace_components: usize) -> Option<usize> {
     width
         .checked_mul(height)?
diff --git a/crates/zune-capi/src/improc.rs b/crates/zune-capi/src/improc.rs
index 73b2ceb..a05ffe5 100644
--- a/crates/zune-capi/src/improc.rs
+++ b/crates/zune-capi/src/improc.rs
@@ -39,8 +39,9 @@ where
     }
     let image = unsafe { &mut *image };
 
-    if let Err(err) = filter.execute(image) {
-        unsafe {
+    match filter.execute(image) {
+        Ok(()) => unsafe { *status = ZStatus::okay() },
+        Err(err) => unsafe {
             *status = ZStatus::new(err.to_string(), ZStatusType::ZilImageOperationError);
         }
     }
-- 
2.43.0


From 4800791b41721ec5366fd63eb38c4d8e6fd64036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 159/180] fix: a JPEG XL file cut off before its first frame
 was read as an image without frames

---
 crates/zune-image/src/codecs/jpeg_xl.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-image/src/codecs/jpeg_xl.rs b/crates/zune-image/src/codecs/jpeg_xl.rs
index 45d98d9..f6ff76a 100644
--- a/crates/zune-image/src/codecs/jpeg_xl.rs
+++ b/crates/zune-image/src/codecs/jpeg_xl.rs
@@ -186,6 +186,12 @@ impl DecoderTrait for JxlDecoder {
             1
         };
 
+        if taken == 0 {
+            return Err(ImageErrors::ImageDecodeErrors(
+                "No complete frame found in image".to_string()
+            ));
+        }
+
         for frame in 0..taken {
             let render = self
                 .inner
-- 
2.43.0


From 7ba0fa23b9622cef7afb919d9a510bfdb8514d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 160/180] fix: C decoding calls leaked their output when
 decoding failed

---
 crates/zune-capi/src/imread.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 0f1b51f..1fa1881 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -20,7 +20,7 @@ use zune_image::metadata::ImageMetadata;
 use crate::enums::{ZImageColorspace, ZImageDepth, ZImageFormat};
 use crate::errno::{zil_status_ok, ZStatus, ZStatusType};
 use crate::structs::ZImageMetadata;
-use crate::utils::zil_malloc;
+use crate::utils::{zil_free, zil_malloc};
 
 /// Read image contents of a file and return a pointer to the decoded bytes
 ///
@@ -90,6 +90,8 @@ pub extern "C" fn zil_imread(
                 if zil_status_ok(status) {
                     return output.cast();
                 }
+                // nobody else knows about it
+                unsafe { zil_free(output) };
             } else {
                 unsafe {
                     *status = ZStatus::new("ZilUnknownDepth image format", ZStatusType::ZilGeneric)
@@ -284,6 +286,8 @@ pub extern "C" fn zil_imdecode(
             if zil_status_ok(status) {
                 return output.cast();
             }
+            // nobody else knows about it
+            unsafe { zil_free(output) };
         }
     }
     ptr::null()
-- 
2.43.0


From ffadcdbf29a63868ff246de397abe051ed8a53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 161/180] fix: the C header declared flip functions the library
 does not have

---
 crates/zune-capi/include/zil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-capi/include/zil.h b/crates/zune-capi/include/zil.h
index 0b860a1..35283f3 100644
--- a/crates/zune-capi/include/zil.h
+++ b/crates/zune-capi/include/zil.h
@@ -502,7 +502,7 @@ void zil_imgproc_exposure(ZImage *image, float exposure, float black_point, stru
  * \param image: Image to flip
  * \param status: Image execution reporter
  */
-void zil_imgproc_flip(ZImage *image, struct ZStatus *status);
+void zil_imgproc_flip_mirror_x_axis(ZImage *image, struct ZStatus *status);
 
 /**
  * Flop an image by reflecting pixels on its y-axis
@@ -519,7 +519,7 @@ void zil_imgproc_flip(ZImage *image, struct ZStatus *status);
  * \param image: Image to flop
  * \param status: Image execution reporter
  */
-void zil_imgproc_flop(ZImage *image, struct ZStatus *status);
+void zil_imgproc_flip_horizontal(ZImage *image, struct ZStatus *status);
 
 /**
  * Gamma adjust an image
-- 
2.43.0


From 099cdcd53c0f72a0f0bff350f6d1dc43ef2d28f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 162/180] fix: zune ignored every operation for an image read
 from standard input

---
 crates/zune-bin/src/workflow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index f7c1504..61430ee 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -59,6 +59,8 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
     for in_file in args.get_raw("in").unwrap() {
         let mut workflow: CmdPipeline = CmdPipeline::new();
 
+        add_operations(args, &mut workflow.inner)?;
+
         if in_file == "-" {
             // handle stdin
             let mut data = Vec::new();
@@ -77,8 +79,6 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
         } else {
             File::open(in_file)?.read(&mut buf)?;
 
-            add_operations(args, &mut workflow.inner)?;
-
             if let Some((format, _)) = ImageFormat::guess_format(std::io::Cursor::new(&buf)) {
                 if format.has_decoder() {
                     workflow.inner.chain_decoder(Box::new(ZuneFile::new(
-- 
2.43.0


From 996894af7ca59ddfb25a8643ed48c6a261440111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 163/180] fix: with several outputs zune wrote all of them in
 the format of the last one

---
 crates/zune-bin/src/workflow.rs | 63 +++++++++++++++------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 61430ee..3cd2eb7 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -27,14 +27,12 @@ use crate::probe_files::probe_input_files;
 use crate::show_gui::open_in_default_app;
 
 struct CmdPipeline {
-    inner:   Pipeline,
-    formats: Vec<ImageFormat>
+    inner: Pipeline
 }
 impl CmdPipeline {
     pub fn new() -> CmdPipeline {
         CmdPipeline {
-            inner:   Pipeline::new(),
-            formats: vec![]
+            inner: Pipeline::new()
         }
     }
 }
@@ -103,7 +101,6 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                             ImageFormat::encoder_for_extension(ext.to_str().unwrap())
                         {
                             debug!("Treating {:?} as a {:?} format", out_file, encode_type);
-                            workflow.formats.push(encode_type);
                         } else {
                             error!("Unknown or unsupported format {:?}", out_file)
                         }
@@ -139,36 +136,32 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                         }
                     } else {
                         //write to file
-                        if let Some(ext) = Path::new(out_file).extension() {
-                            for format in &workflow.formats {
-                                if format.has_encoder() {
-                                    for image in workflow.inner.images() {
-                                        let fd = OpenOptions::new()
-                                            .create(true)
-                                            .write(true)
-                                            .truncate(true)
-                                            .open(out_file);
-                                        match fd {
-                                            Ok(file) => {
-                                                let mut file_c = BufWriter::new(file);
-                                                let start = Instant::now();
-                                                let bytes =
-                                                    format.encode(image, options, &mut file_c)?;
-                                                let end = Instant::now();
-                                                trace!(
-                                                    "Took {:?} to encode {} bytes to {:?}",
-                                                    end - start,
-                                                    bytes,
-                                                    out_file
-                                                );
-                                            }
-                                            Err(e) => {
-                                                error!(
-                                                    "Cannot encode to file, error opening {:?}",
-                                                    e
-                                                );
-                                            }
-                                        }
+                        // every file is written in its own format
+                        if let Some(format) = Path::new(out_file)
+                            .extension()
+                            .and_then(|ext| ImageFormat::encoder_for_extension(ext.to_string_lossy()))
+                        {
+                            for image in workflow.inner.images() {
+                                let fd = OpenOptions::new()
+                                    .create(true)
+                                    .write(true)
+                                    .truncate(true)
+                                    .open(out_file);
+                                match fd {
+                                    Ok(file) => {
+                                        let mut file_c = BufWriter::new(file);
+                                        let start = Instant::now();
+                                        let bytes = format.encode(image, options, &mut file_c)?;
+                                        let end = Instant::now();
+                                        trace!(
+                                            "Took {:?} to encode {} bytes to {:?}",
+                                            end - start,
+                                            bytes,
+                                            out_file
+                                        );
+                                    }
+                                    Err(e) => {
+                                        error!("Cannot encode to file, error opening {:?}", e);
                                     }
                                 }
                             }
-- 
2.43.0


From c8eb3a781d835df3f651b8cd6378bf40414039db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 164/180] fix: zune succeeded without writing an output whose
 format it does not know

---
 crates/zune-bin/src/workflow.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 3cd2eb7..d645273 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -98,15 +98,19 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                 for out_file in args.get_raw("out").unwrap() {
                     if let Some(ext) = Path::new(out_file).extension() {
                         if let Some(encode_type) =
-                            ImageFormat::encoder_for_extension(ext.to_str().unwrap())
+                            ImageFormat::encoder_for_extension(ext.to_string_lossy())
                         {
                             debug!("Treating {:?} as a {:?} format", out_file, encode_type);
                         } else {
-                            error!("Unknown or unsupported format {:?}", out_file)
+                            return Err(ImageErrors::GenericString(format!(
+                                "Unknown or unsupported format {out_file:?}"
+                            )));
                         }
                     } else {
                         if out_file != "-" {
-                            error!("Could not determine extension from {:?}", out_file);
+                            return Err(ImageErrors::GenericString(format!(
+                                "Could not determine extension from {out_file:?}"
+                            )));
                         }
                     }
                 }
-- 
2.43.0


From 949772ddd8ef8afea0e3cf3e3fbe067650139407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 165/180] fix: zune -o - without --output-format wrote nothing
 and succeeded

---
 crates/zune-bin/src/workflow.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index d645273..b880d42 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -107,7 +107,11 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                             )));
                         }
                     } else {
-                        if out_file != "-" {
+                        if out_file == "-" {
+                            if args.get_one::<CmdImageFormats>("output-format").is_none() {
+                                return Err(ImageErrors::GenericStr("You must specify the image format to be used while using output as '-` via the --output-format flag"));
+                            }
+                        } else {
                             return Err(ImageErrors::GenericString(format!(
                                 "Could not determine extension from {out_file:?}"
                             )));
@@ -135,8 +139,6 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                             for image in workflow.inner.images() {
                                 format.encode(image, options, &mut out_file)?;
                             }
-                        } else {
-                            error!("You must specify the image format to be used while using output as '-` via the --output-format flag ");
                         }
                     } else {
                         //write to file
-- 
2.43.0


From b7839c66cb0d6c7aa4b6b8e7b64f8364d6556723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 166/180] fix: zune succeeded although it could not open an
 output

---
 crates/zune-bin/src/workflow.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index b880d42..91a70b9 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -153,23 +153,23 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                                     .write(true)
                                     .truncate(true)
                                     .open(out_file);
-                                match fd {
-                                    Ok(file) => {
-                                        let mut file_c = BufWriter::new(file);
-                                        let start = Instant::now();
-                                        let bytes = format.encode(image, options, &mut file_c)?;
-                                        let end = Instant::now();
-                                        trace!(
-                                            "Took {:?} to encode {} bytes to {:?}",
-                                            end - start,
-                                            bytes,
-                                            out_file
-                                        );
-                                    }
+                                let file = match fd {
+                                    Ok(file) => file,
                                     Err(e) => {
                                         error!("Cannot encode to file, error opening {:?}", e);
+                                        return Err(e.into());
                                     }
-                                }
+                                };
+                                let mut file_c = BufWriter::new(file);
+                                let start = Instant::now();
+                                let bytes = format.encode(image, options, &mut file_c)?;
+                                let end = Instant::now();
+                                trace!(
+                                    "Took {:?} to encode {} bytes to {:?}",
+                                    end - start,
+                                    bytes,
+                                    out_file
+                                );
                             }
                         }
                     }
-- 
2.43.0


From 0781ec0a002f69384ff2b32456f747c1aded9cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 167/180] fix: zune ignored a failed write of the last buffered
 bytes of an output

---
 crates/zune-bin/src/workflow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 91a70b9..25e815d 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -7,7 +7,7 @@
  */
 
 use std::fs::{File, OpenOptions};
-use std::io::{BufWriter, Read};
+use std::io::{BufWriter, Read, Write};
 use std::path::Path;
 use std::string::String;
 use std::time::Instant;
@@ -138,6 +138,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                             let CmdImageFormats::Format(format) = cmd_format;
                             for image in workflow.inner.images() {
                                 format.encode(image, options, &mut out_file)?;
+                                out_file.flush()?;
                             }
                         }
                     } else {
@@ -163,6 +164,8 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
                                 let mut file_c = BufWriter::new(file);
                                 let start = Instant::now();
                                 let bytes = format.encode(image, options, &mut file_c)?;
+                                // dropping the writer would hide a failed write
+                                file_c.flush()?;
                                 let end = Instant::now();
                                 trace!(
                                     "Took {:?} to encode {} bytes to {:?}",
-- 
2.43.0


From bb3568a1f8a720a70f337f0f74bb727f445bc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 168/180] fix: every use of zune --crop panicked

---
 crates/zune-bin/src/cmd_args.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 4e61f42..e43ec6b 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -278,6 +278,7 @@ fn add_operations() -> (Vec<Arg>, ArgGroup) {
             .long("crop")
             .help_heading(HELP_HEADING)
             .value_names(["width", "height", "x", "y"])
+            .value_parser(value_parser!(usize))
             .help("Crop an image ")
             .long_help(CROP_HELP)
             .group(GROUP),
-- 
2.43.0


From cef3451f2271ef450a479c662d50913a21ee9102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 169/180] fix: zune ignored --stretch-contrast

---
 crates/zune-bin/src/cmd_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index e43ec6b..96de835 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -295,7 +295,7 @@ fn add_operations() -> (Vec<Arg>, ArgGroup) {
             .help_heading(HELP_HEADING)
             .value_parser(value_parser!(f32))
             .group(GROUP),
-        Arg::new("stretch_contrast")
+        Arg::new("stretch-contrast")
             .long("stretch-contrast")
             .value_parser(value_parser!(f32))
             .value_names(["lower", "upper"])
-- 
2.43.0


From 4571fd2875633f4bb0a7f0bcb95a95758804b702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 170/180] fix: zune --convolve took the options after it for
 weights

---
 crates/zune-bin/src/cmd_args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_args.rs b/crates/zune-bin/src/cmd_args.rs
index 96de835..d46e761 100644
--- a/crates/zune-bin/src/cmd_args.rs
+++ b/crates/zune-bin/src/cmd_args.rs
@@ -473,7 +473,7 @@ fn add_filters() -> (Vec<Arg>, ArgGroup) {
             .group(GROUP),
         Arg::new("convolve")
             .long("convolve")
-            .allow_hyphen_values(true)
+            .allow_negative_numbers(true)
             .help("Perform a 2D NxN convolution. N can be either of 3,5 or 7")
             .group(GROUP)
             .help_heading(GROUP)
-- 
2.43.0


From 682f6d72455adb41285589dab181f9f08b65f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 171/180] fix: zune --color-transform bt-2020 converted to
 Display P3

---
 crates/zune-bin/src/cmd_parsers/filters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zune-bin/src/cmd_parsers/filters.rs b/crates/zune-bin/src/cmd_parsers/filters.rs
index 610ff77..62b4f4c 100644
--- a/crates/zune-bin/src/cmd_parsers/filters.rs
+++ b/crates/zune-bin/src/cmd_parsers/filters.rs
@@ -87,7 +87,7 @@ pub fn parse_options(
             "rgb" => ColorProfiles::sRGB,
             "adobe-rgb" => ColorProfiles::AdobeRgb,
             "display-p3" => ColorProfiles::DisplayP3,
-            "bt-2020" => ColorProfiles::DisplayP3,
+            "bt-2020" => ColorProfiles::Bt2020,
             _ => Err(format!("Unknown color profile: {}", value))?
         };
         trace!("Added color transform operation");
-- 
2.43.0


From f3ae487a7d9766b2751294b32d9bdd0e25488791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 172/180] fix: zune ignored a --resize it could not read

---
 crates/zune-bin/src/cmd_parsers/operations.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/operations.rs b/crates/zune-bin/src/cmd_parsers/operations.rs
index 893bf1a..9328b44 100644
--- a/crates/zune-bin/src/cmd_parsers/operations.rs
+++ b/crates/zune-bin/src/cmd_parsers/operations.rs
@@ -146,11 +146,9 @@ pub fn parse_options(
             .unwrap_or(ResizeMethod::Bicubic);
 
         // split on width x height
-        if values.contains("x") {
-            let split: Vec<&str> = values.split('x').collect();
-
-            let width = str::parse::<usize>(split[0]).map_err(|x| x.to_string())?;
-            let height = str::parse::<usize>(split[1]).map_err(|x| x.to_string())?;
+        if let Some((width, height)) = values.split_once('x') {
+            let width = str::parse::<usize>(width).map_err(|x| x.to_string())?;
+            let height = str::parse::<usize>(height).map_err(|x| x.to_string())?;
 
             let func = Resize::new(width, height, resizing_method);
             debug!(
@@ -158,6 +156,8 @@ pub fn parse_options(
                 width, height, resizing_method,
             );
             workflow.chain_operations(Box::new(func));
+        } else {
+            return Err(format!("Invalid resize {values:?}, expected [width]x[height]"));
         }
     } else if argument == "depth" {
         let value = *args.get_one::<u8>(argument).unwrap();
-- 
2.43.0


From f7b7e37a7423cad3b3578838c73c70534d305b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 173/180] fix: zune --probe succeeded without a word on a file
 it could not read

---
 crates/zune-bin/src/probe_files.rs | 51 +++++++++++++++---------------
 crates/zune-bin/src/workflow.rs    |  3 +-
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/crates/zune-bin/src/probe_files.rs b/crates/zune-bin/src/probe_files.rs
index 5f3f6a9..c74d13e 100644
--- a/crates/zune-bin/src/probe_files.rs
+++ b/crates/zune-bin/src/probe_files.rs
@@ -8,43 +8,44 @@
 
 use std::fs::File;
 use std::io::BufReader;
-use std::path::PathBuf;
 
 use clap::parser::ValueSource::CommandLine;
 use clap::ArgMatches;
 use zune_core::options::DecoderOptions;
+use zune_image::codecs::ImageFormat;
+use zune_image::errors::ImageErrors;
 
 use crate::serde::Metadata;
 
 /// Probe input files, extract metadata, and print to standard output.
-pub fn probe_input_files(args: &ArgMatches) {
+pub fn probe_input_files(args: &ArgMatches) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
             for in_file in args.get_raw("in").unwrap() {
-                if PathBuf::from(in_file).exists() {
-                    let file = BufReader::new(File::open(in_file).unwrap());
-
-                    if let Some((format, contents)) =
-                        zune_image::codecs::ImageFormat::guess_format(file)
-                    {
-                        let size = contents.get_ref().metadata().unwrap().len();
-                        // set to high to remove restrictions.
-                        // We'll just be reading headers so it doesn't matter
-                        let options = DecoderOptions::new_cmd()
-                            .set_max_height(usize::MAX)
-                            .set_max_width(usize::MAX);
-
-                        let mut decoder = format.decoder_with_options(contents, options).unwrap();
-
-                        if let Ok(Some(metadata)) = decoder.read_headers() {
-                            let real_metadata =
-                                Metadata::new(in_file.to_os_string(), size, &metadata);
-
-                            println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
-                        }
-                    }
-                }
+                let file = BufReader::new(File::open(in_file)?);
+
+                let Some((format, contents)) = ImageFormat::guess_format(file) else {
+                    return Err(ImageErrors::ImageDecoderNotIncluded(ImageFormat::Unknown));
+                };
+                let size = contents.get_ref().metadata()?.len();
+                // set to high to remove restrictions.
+                // We'll just be reading headers so it doesn't matter
+                let options = DecoderOptions::new_cmd()
+                    .set_max_height(usize::MAX)
+                    .set_max_width(usize::MAX);
+
+                let mut decoder = format.decoder_with_options(contents, options)?;
+
+                let Some(metadata) = decoder.read_headers()? else {
+                    return Err(ImageErrors::GenericString(format!(
+                        "No information on {in_file:?}"
+                    )));
+                };
+                let real_metadata = Metadata::new(in_file.to_os_string(), size, &metadata);
+
+                println!("{}", serde_json::to_string_pretty(&real_metadata).unwrap());
             }
         }
     }
+    Ok(())
 }
diff --git a/crates/zune-bin/src/workflow.rs b/crates/zune-bin/src/workflow.rs
index 25e815d..6ba4ee3 100644
--- a/crates/zune-bin/src/workflow.rs
+++ b/crates/zune-bin/src/workflow.rs
@@ -44,8 +44,7 @@ pub(crate) fn create_and_exec_workflow_from_cmd(
 ) -> Result<(), ImageErrors> {
     if let Some(view) = args.value_source("probe") {
         if view == CommandLine {
-            probe_input_files(args);
-            return Ok(());
+            return probe_input_files(args);
         }
     }
 
-- 
2.43.0


From 64ac03705b9d61c129bd7b8d07e141b0c3b0b6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 174/180] fix: zune mixed log lines into an image written to
 standard output

---
 .../zune-bin/src/cmd_parsers/global_options.rs  |  7 ++++++-
 crates/zune-bin/src/lib.rs                      | 17 +++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/crates/zune-bin/src/cmd_parsers/global_options.rs b/crates/zune-bin/src/cmd_parsers/global_options.rs
index 8992e45..bc11a3a 100644
--- a/crates/zune-bin/src/cmd_parsers/global_options.rs
+++ b/crates/zune-bin/src/cmd_parsers/global_options.rs
@@ -65,7 +65,12 @@ pub fn parse_options(options: &ArgMatches) -> CmdOptions {
 
 /// Set up logging options
 pub fn setup_logger(options: &ArgMatches) {
-    if !options.get_one::<bool>("no-log").unwrap() {
+    // the logger prints to standard output, which may be where the image goes
+    let image_to_stdout = options
+        .get_raw("out")
+        .is_some_and(|mut x| x.any(|out| out == "-"));
+
+    if !options.get_one::<bool>("no-log").unwrap() && !image_to_stdout {
         let log_level;
 
         if *options.get_one::<bool>("debug").unwrap() {
diff --git a/crates/zune-bin/src/lib.rs b/crates/zune-bin/src/lib.rs
index a970243..fbafdad 100644
--- a/crates/zune-bin/src/lib.rs
+++ b/crates/zune-bin/src/lib.rs
@@ -31,14 +31,15 @@ pub fn main() {
 
     let result = create_and_exec_workflow_from_cmd(&options, &parsed_opts);
 
-    if result.is_err() {
-        println!();
-        error!(
-            " Could not complete workflow, reason {:?}",
-            result.err().unwrap()
-        );
-
-        println!();
+    if let Err(e) = result {
+        if log::log_enabled!(log::Level::Error) {
+            println!();
+            error!(" Could not complete workflow, reason {:?}", e);
+
+            println!();
+        } else {
+            eprintln!("Could not complete workflow, reason {e:?}");
+        }
         exit(-1);
     }
 }
-- 
2.43.0


From f96af1f03b0a5343a8c5fa3799e4b218366ab543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 175/180] fix: opening a farbfeld file of no width or height as
 an image panicked

---
 crates/zune-farbfeld/src/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zune-farbfeld/src/decoder.rs b/crates/zune-farbfeld/src/decoder.rs
index 72a55ea..caa75ba 100644
--- a/crates/zune-farbfeld/src/decoder.rs
+++ b/crates/zune-farbfeld/src/decoder.rs
@@ -74,6 +74,9 @@ where
         trace!("Image width: {}", self.width);
         trace!("Image height: {}", self.height);
 
+        if self.width == 0 || self.height == 0 {
+            return Err(FarbFeldErrors::Generic("Width or height cannot be zero"));
+        }
         if self.height > self.options.max_height() {
             return Err(FarbFeldErrors::Generic("Image Height is greater than max height. Bump up max_height to support such images"));
         }
-- 
2.43.0


From a13e750a8edd108bf595d64f49685d107880ca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:13 +0000
Subject: [PATCH 176/180] fix: an APNG whose first frame is smaller than its
 default image panicked when opened without animation

---
 crates/zune-png/src/headers/readers.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zune-png/src/headers/readers.rs b/crates/zune-png/src/headers/readers.rs
index cc3c1fa..456253e 100644
--- a/crates/zune-png/src/headers/readers.rs
+++ b/crates/zune-png/src/headers/readers.rs
@@ -491,6 +491,14 @@ impl<T: ZByteReaderTrait> PngDecoder<T> {
             }
             // we have a chunk, this chunk if idat is associated with the first frame
             else if next_header.chunk_type == PngChunkType::IDAT {
+                // the default image always covers the whole canvas
+                if fctl_info.width != self.png_info.width
+                    || fctl_info.height != self.png_info.height
+                {
+                    return Err(PngDecodeErrors::GenericStatic(
+                        "fcTL of the default image does not cover the image"
+                    ));
+                }
                 self.parse_idat(next_header)?;
                 // set fctl information
                 self.frames[0].set_fctl(fctl_info);
-- 
2.43.0


From fcbf78df6c78d7a2b46cf05a627a1046b6c389fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 177/180] fix: the JPEG XL encoder lost bits of long runs whose
 codes exceed 32 bits

---
 crates/zune-jpegxl/src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpegxl/src/encoder.rs b/crates/zune-jpegxl/src/encoder.rs
index 96fc2a1..b649b65 100644
--- a/crates/zune-jpegxl/src/encoder.rs
+++ b/crates/zune-jpegxl/src/encoder.rs
@@ -569,15 +569,16 @@ where
                 .put_bits(code.lz77_cache_nbits[count], code.lz77_cache_bits[count]);
         } else {
             encode_hybrid_uint_lz77(count as u32, &mut token, &mut nbits, &mut bits);
-            let mut wbits = bits;
+            // run bits, lz77 code and raw code together may exceed 32 bits
+            let mut wbits = u64::from(bits);
             let token_s = token as usize;
 
-            wbits = (wbits << code.lz77_nbits[token_s]) | u32::from(code.lz77_bits[token_s]);
-            wbits = (wbits << code.raw_nbits[0]) | u32::from(code.raw_bits[0]);
+            wbits = (wbits << code.lz77_nbits[token_s]) | u64::from(code.lz77_bits[token_s]);
+            wbits = (wbits << code.raw_nbits[0]) | u64::from(code.raw_bits[0]);
 
             let nbit_w = code.lz77_nbits[token_s] + (nbits & 0xFF) as u8 + code.raw_nbits[0];
 
-            self.output.put_bits(nbit_w, u64::from(wbits))
+            self.output.put_bits(nbit_w, wbits)
         }
     }
     fn chunk(&mut self, run: usize, residuals: &[T::Upixel], skip: usize, n: usize) {
-- 
2.43.0


From c0687859defea1d58a5b48d4b25f6030e7adcc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:16 +0000
Subject: [PATCH 178/180] fix: reading with a ZCursor positioned next to the
 largest position panicked

---
 crates/zune-core/src/bytestream/reader/no_std_readers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/zune-core/src/bytestream/reader/no_std_readers.rs b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
index dd1c2b9..c1dcba4 100644
--- a/crates/zune-core/src/bytestream/reader/no_std_readers.rs
+++ b/crates/zune-core/src/bytestream/reader/no_std_readers.rs
@@ -53,7 +53,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     #[inline(always)]
     pub (crate) fn read_byte_no_error_impl(&mut self) -> u8 {
         let byte = self.stream.as_ref().get(self.position).unwrap_or(&0);
-        self.position += 1;
+        self.position = self.position.saturating_add(1);
         *byte
     }
     #[inline(always)]
@@ -69,7 +69,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_impl<const N: usize>(&mut self, buf: &mut [u8; N]) -> Result<(), ZByteIoError> {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -83,7 +83,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
     }
 
     pub (crate) fn read_const_bytes_no_error_impl<const N: usize>(&mut self, buf: &mut [u8; N]) {
-        if self.position + N <= self.stream.as_ref().len() {
+        if self.position.saturating_add(N) <= self.stream.as_ref().len() {
             // we are in bounds
             let reference = self.stream.as_ref();
             let position = self.position;
@@ -106,7 +106,7 @@ impl<T: AsRef<[u8]>>  ZCursor<T> {
         let stream_end = self.stream.as_ref().len();
 
         let start = core::cmp::min(self.position, stream_end);
-        let end = core::cmp::min(self.position + buf.len(), stream_end);
+        let end = core::cmp::min(self.position.saturating_add(buf.len()), stream_end);
 
         let slice = self.stream.as_ref().get(start..end).unwrap();
         buf[..slice.len()].copy_from_slice(slice);
-- 
2.43.0


From 2049790c8265b48634b8b6911b08dbfb072aeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 179/180] fix: pixels a damaged file leaves out were
 uninitialised memory in zil_imread and zil_imdecode

---
 crates/zune-capi/src/imread.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zune-capi/src/imread.rs b/crates/zune-capi/src/imread.rs
index 1fa1881..626c6da 100644
--- a/crates/zune-capi/src/imread.rs
+++ b/crates/zune-capi/src/imread.rs
@@ -76,6 +76,9 @@ pub extern "C" fn zil_imread(
                     };
                     return ptr::null();
                 }
+                // what a damaged file leaves out is zero, as it is in an image read by the library,
+                // and never what the memory held before
+                unsafe { ptr::write_bytes(output.cast::<u8>(), 0, new_size) };
                 zil_imdecode_into(
                     data.as_ptr(),
                     data.len(),
@@ -271,6 +274,9 @@ pub extern "C" fn zil_imdecode(
                 };
                 return ptr::null();
             }
+            // what a damaged file leaves out is zero, as it is in an image read by the library,
+            // and never what the memory held before
+            unsafe { ptr::write_bytes(output.cast::<u8>(), 0, size) };
             zil_imdecode_into(
                 input,
                 input_size,
-- 
2.43.0


From 1f3e07cc2470a489bb82a092f5c3b3c0c6dd5f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:21 +0000
Subject: [PATCH 180/180] fix: an Adobe marker between the scans of a JPEG
 changed the colorspace after it was set up, and no pixels were written

---
 crates/zune-jpeg/src/headers.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/zune-jpeg/src/headers.rs b/crates/zune-jpeg/src/headers.rs
index a87d056..2af8221 100644
--- a/crates/zune-jpeg/src/headers.rs
+++ b/crates/zune-jpeg/src/headers.rs
@@ -479,15 +479,19 @@ pub(crate) fn parse_app14<T: ZByteReaderTrait>(
         // get color transform
         let transform = decoder.stream.read_u8();
         // https://exiftool.org/TagNames/JPEG.html#Adobe
-        match transform {
-            0 => decoder.input_colorspace = ColorSpace::CMYK,
-            1 => decoder.input_colorspace = ColorSpace::YCbCr,
-            2 => decoder.input_colorspace = ColorSpace::YCCK,
+        let colorspace = match transform {
+            0 => ColorSpace::CMYK,
+            1 => ColorSpace::YCbCr,
+            2 => ColorSpace::YCCK,
             _ => {
                 return Err(DecodeErrors::Format(format!(
                     "Unknown Adobe colorspace {transform}"
                 )))
             }
+        };
+        // the first scan settled the colorspace, a marker between scans comes too late to change it
+        if !decoder.headers_decoded {
+            decoder.input_colorspace = colorspace;
         }
         // adobe id = 6
         // version =  5
-- 
2.43.0

