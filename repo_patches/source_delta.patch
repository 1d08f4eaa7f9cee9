From 8a7491bb5860a82e285da13328152d0144b45a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 01/30] verif hook: re-export private modules under
 cfg(divans_verif)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 54137db..b2d5e23 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,3 +121,12 @@ pub use divans_decompressor::{DivansDecompressor,
                               DivansDecompressorFactory,
                               DivansDecompressorFactoryStruct,
                               StaticCommand};
+
+/// Re-exports of private building blocks for the external verification harness.
+/// Compiled only with RUSTFLAGS="--cfg divans_verif".
+#[cfg(divans_verif)]
+pub mod verif {
+    pub mod ans { pub use ans::*; }
+    pub mod probability { pub use probability::*; pub use probability::numeric; }
+    pub mod crc32 { pub use codec::crc32::*; }
+}
-- 
2.43.0


From 4de0b6450278fcd49c094ca81e1c138aea89b35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 02/30] fix: hybrid compressor at quality 0 or 1 produced a
 stream without the data

Brotli's fast one- and two-pass modes do not call the metablock callback that
receives the commands, so the resulting stream decoded to nothing.
---
 src/brotli_ir_gen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..6f92d30 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -391,7 +391,8 @@ impl<AllocU8:Allocator<u8>,
                                                        opt.lgblock.unwrap_or(18));
         brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_QUALITY,
-                                                       u32::from(opt.quality.unwrap_or(10)));
+                                                       // qualities 0 and 1 never invoke the metablock callback, so no commands would be encoded
+                                                       u32::from(max(2, opt.quality.unwrap_or(10))));
         if opt.q9_5 {
             brotli::enc::encode::BrotliEncoderSetParameter(&mut ret.brotli_encoder,
                                                        brotli::enc::encode::BrotliEncoderParameter::BROTLI_PARAM_Q9_5,
-- 
2.43.0


From beb4178b19c79b45e425efb3d29d99c5ff5f04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 03/30] fix: prior depth above 15 produced an undecodable
 stream

The prior depth is coded as one nibble; larger values desynchronised the coder.
---
 src/codec/interface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/interface.rs b/src/codec/interface.rs
index 79fd45c..0b81501 100644
--- a/src/codec/interface.rs
+++ b/src/codec/interface.rs
@@ -365,7 +365,7 @@ impl<
             },
         }
         CrossCommandBookKeeping{
-            desired_prior_depth:prior_depth,
+            desired_prior_depth:core::cmp::min(prior_depth, 15), // coded as a single nibble
             desired_literal_adaptation: literal_adaptation_speed,
             desired_context_mixing:dynamic_context_mixing,
             last_dlen: 1,
-- 
2.43.0


From 904067dc188d06534dd47ef9fd923c340ab66c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 04/30] fix: internal compressor repeated stale bytes after its
 input ring filled

The write index was reset to zero whenever the output index was nonzero,
even though the end of the ring had not been reached.
---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..d465fab 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() && self.ring_buffer_output_index != 0 {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From 94848685f21ff6ee9b1caff0f12dd43105482d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:15 +0000
Subject: [PATCH 05/30] fix: out-of-range dictionary word in a stream panicked
 the decoder

The word index is 12 bits wide on the wire; an index beyond the static
dictionary is now reported as a failure.
---
 src/cmd_to_raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..7107681 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -287,6 +287,9 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
         let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
         let dict = &kBrotliDictionary;
+        if word_index as usize + copy_len as usize > dict.len() {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
         let word = &dict[(word_index as usize)..(word_index as usize + copy_len as usize)];
         let mut transformed_word = [0u8;kBrotliMaxDictionaryWordLength as usize + 13];
         let final_len = TransformDictionaryWord(&mut transformed_word[..],
-- 
2.43.0


From 2048b3da4de9058c5b4fdcf949f3a488ba9336b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 06/30] fix: hybrid compressor left part of a large write
 unread

encode() returned NeedsMoreInput with input left over once the brotli side
buffer filled, which the writer adaptor reports as UnexpectedEof.
---
 src/brotli_ir_gen.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 6f92d30..327cb1c 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -251,13 +251,19 @@ impl<SelectedCDF:CDF16,
               input_offset: &mut usize,
               _output: &mut [u8],
               _output_offset: &mut usize) -> DivansResult {
-        match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
-                                          input,
-                                          input_offset,
-                                          false) {
-            DivansResult::NeedsMoreOutput => DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
-            DivansResult::Failure(m) => DivansResult::Failure(m),
-            DivansResult::Success | DivansResult::NeedsMoreInput => DivansResult::NeedsMoreInput,
+        loop { // brotli stops reading when the room made for its own output is used up: make more and continue
+            match self.internal_encode_stream(BrotliEncoderOperation::BROTLI_OPERATION_PROCESS,
+                                              input,
+                                              input_offset,
+                                              false) {
+                DivansResult::NeedsMoreOutput => return DivansResult::Failure(ErrMsg::BrotliInternalEncodeStreamNeedsOutputWithoutFlush),
+                DivansResult::Failure(m) => return DivansResult::Failure(m),
+                DivansResult::Success | DivansResult::NeedsMoreInput => {
+                    if *input_offset == input.len() {
+                        return DivansResult::NeedsMoreInput;
+                    }
+                },
+            }
         }
     }
     fn flush(&mut self,
-- 
2.43.0


From c373547fca58b722f70363b327dfaefebf9b9e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 07/30] fix: reader adaptor spun on trailing bytes and lost its
 place on a read error

---
 src/reader.rs | 56 +++++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..a777adc 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -45,63 +45,63 @@ struct GenReader<R: Read,
 impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P,BufferType> {
 	fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
         let mut output_offset : usize = 0;
-        let mut avail_out = buf.len() - output_offset;
-        let mut avail_in = self.input_len - self.input_offset;
-        let mut needs_input = false;
-        while avail_out == buf.len() && (!needs_input || !self.input_eof) {
-           if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof {
+        if buf.len() == 0 {
+            return Ok(0);
+        }
+        while output_offset == 0 {
+           if self.input_len < self.input_buffer.slice_mut().len() && !self.input_eof && self.read_error.is_none() {
                match self.input.read(&mut self.input_buffer.slice_mut()[self.input_len..]) {
                    Err(e) => {
                        if let io::ErrorKind::Interrupted = e.kind() {
                           continue;
                        }
-                       self.read_error = Some(e);
-                       self.input_eof = true;
+                       self.read_error = Some(e); // reported once the input read before it is used up
                    },
                    Ok(size) => if size == 0 {
                        self.input_eof = true;
                    } else {
-                       needs_input = false;
                        self.input_len += size;
-                       avail_in = self.input_len - self.input_offset;
                    },
                }
            }
-           let old_output_offset = output_offset;
            let old_input_offset = self.input_offset;
-           let ret = if avail_in == 0 {
+           let ret = if self.input_offset == self.input_len {
+               if let Some(err) = self.read_error.take() {
+                   return Err(err);
+               }
                self.has_flushed = true;
                DivansResult::from(self.compressor.close(
-                   buf.split_at_mut(output_offset + avail_out).0,
+                   buf,
                    &mut output_offset))
            } else {
                self.compressor.process(
-                   self.input_buffer.slice_mut().split_at_mut(self.input_offset + avail_in).0,
+                   self.input_buffer.slice_mut().split_at_mut(self.input_len).0,
                    &mut self.input_offset,
-                   buf.split_at_mut(output_offset + avail_out).0,
+                   buf,
                    &mut output_offset)
            };
-           avail_in -= self.input_offset - old_input_offset;
-           avail_out -= output_offset - old_output_offset;
-           if avail_in == 0 {
-             match self.read_error.take() {
-               Some(err) => return Err(err),
-               None => {
-                 needs_input = true;
-                 self.copy_to_front();
-               },
-             }
-           }
+           let made_progress = self.input_offset != old_input_offset || output_offset != 0;
+           self.copy_to_front();
            match ret {
                DivansResult::Failure(m) => {
                    return Err(io::Error::new(io::ErrorKind::InvalidData, m));
                },
              DivansResult::Success => {
-               if self.input_eof && avail_in == 0 && self.has_flushed {
-                 break;
+               if self.has_flushed {
+                 break; // the stream is complete, whatever follows it in the input
+               }
+             },
+             DivansResult::NeedsMoreInput => {
+               if !made_progress {
+                   if let Some(err) = self.read_error.take() {
+                       return Err(err);
+                   }
+                   if self.input_eof || self.input_len == self.input_buffer.slice_mut().len() {
+                       return Err(io::Error::new(io::ErrorKind::InvalidData, ErrMsg::UnexpectedEof));
+                   }
                }
              },
-             DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
+             DivansResult::NeedsMoreOutput => {},
            }
         }
         Ok(output_offset)
-- 
2.43.0


From b28c4847a755304e62d8de6be90a8821183a7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 08/30] fix: decoder stalled forever on a malformed end of
 stream marker

---
 src/codec/decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6bd30dd..6e1543c 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -131,6 +131,9 @@ impl<Cdf16:CDF16,
                 self.crc.write(adjusted_input_bytes.split_at(adjusted_input_bytes_offset).0);
             }
             *input_offset += adjusted_input_bytes_offset;
+            if adjusted_input_bytes_offset == 0 && adjusted_input_bytes.len() != 0 && !self.demuxer.encountered_eof() {
+                return DivansInputResult::Failure(ErrMsg::UnexpectedEof); // malformed end of stream marker
+            }
         }
         if self.demuxer.encountered_eof() && usize::from(self.deserialized_crc_count) != self.deserialized_crc.len() {
             let crc_bytes_remaining = self.deserialized_crc.len() - usize::from(self.deserialized_crc_count);
-- 
2.43.0


From c2bb51fd765c89247d8109178848f23ed3bd32cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 09/30] fix: writer adaptor dropped compressed bytes when the
 underlying write failed

---
 src/writer.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 7806913..8cacc85 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -22,6 +22,8 @@ struct GenWriter<W: Write,
                  BufferType:SliceWrapperMut<u8>> {
   compressor: P,
   output_buffer: BufferType,
+  output_start: usize, // the range of output_buffer that output has not accepted yet
+  output_end: usize,
   has_flushed: bool,
   output: W,
 }
@@ -31,6 +33,7 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
     fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
         let mut avail_in = buf.len();
         let mut input_offset : usize = 0;
+        self.write_output()?;
         loop {
             let mut output_offset = 0;
             let old_input_offset = input_offset;
@@ -40,9 +43,11 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
                 self.output_buffer.slice_mut(),
                 &mut output_offset);
             avail_in -= input_offset - old_input_offset;
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
+            self.output_end = output_offset;
+            match self.write_output() {
                 Ok(_) => {},
-                Err(e) => return Err(e),
+                // an error means no input was taken: report what was, the next call meets the error again
+                Err(e) => return if input_offset != 0 {Ok(input_offset)} else {Err(e)},
             }
             match op_result {
                 DivansResult::NeedsMoreInput => if avail_in != 0 {
@@ -61,23 +66,22 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
         Ok(buf.len())
     }
     fn flush(&mut self) -> Result<(), io::Error> {
+        self.write_output()?;
         while !self.has_flushed {
             let mut output_offset = 0;
             let ret = self.compressor.close(
                 self.output_buffer.slice_mut(),
                 &mut output_offset);
-            match self.output.write_all(&self.output_buffer.slice_mut()[..output_offset]) {
+            self.output_end = output_offset;
+            if let DivansOutputResult::Success = ret {
+                self.has_flushed = true;
+            }
+            match self.write_output() {
                 Ok(_) => {},
                 Err(e) => return Err(e),
             }
-            match ret {
-                DivansOutputResult::Failure(m) => {
-                    return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
-                }
-                DivansOutputResult::NeedsMoreOutput => {},
-                DivansOutputResult::Success => {
-                    self.has_flushed = true;
-                }
+            if let DivansOutputResult::Failure(m) = ret {
+                return Err(io::Error::new(io::ErrorKind::InvalidInput, m))
             }
         }
         self.output.flush()
@@ -89,9 +93,25 @@ impl<W:Write, C:Processor, BufferType:SliceWrapperMut<u8>> GenWriter<W,C,BufferT
             output:writer,
             compressor:compressor,
             output_buffer: buffer,
+            output_start: 0,
+            output_end: 0,
             has_flushed: !needs_flush,
         }
     }
+    // hands over the pending output, keeping what is not accepted for the next call
+    fn write_output(&mut self) -> Result<(), io::Error> {
+        while self.output_start != self.output_end {
+            match self.output.write(&self.output_buffer.slice_mut()[self.output_start..self.output_end]) {
+                Ok(0) => return Err(io::Error::from(io::ErrorKind::WriteZero)),
+                Ok(size) => self.output_start += size,
+                Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {},
+                Err(e) => return Err(e),
+            }
+        }
+        self.output_start = 0;
+        self.output_end = 0;
+        Ok(())
+    }
 }
 type DivansBrotliFactory = ::BrotliDivansHybridCompressorFactory<HeapAlloc<u8>,
 //                                                         HeapAlloc<u32>,
-- 
2.43.0


From 3d5c5c8b97316917943f33a5a34e2cb14eabcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 10/30] fix: decoder resumed after a failure and could then
 report success or spin

---
 src/divans_decompressor.rs   | 17 +++++++++++++++++
 src/parallel_decompressor.rs | 16 ++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 2e7febd..79f59a2 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -62,6 +62,7 @@ impl<AllocU8:Allocator<u8>,
             header_parser.header[header_parser.read_offset..].clone_from_slice(
                 input.split_at(*input_offset).1.split_at(header_left).0);
             *input_offset += header_left;
+            header_parser.read_offset += header_left; // a bad header stays bad
             match header_parser.parse_header() {
                 Ok(wsize) => {
                     window_size = wsize;
@@ -100,6 +101,7 @@ pub struct DivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAll
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    err: Option<ErrMsg>, // a failed decode cannot be resumed
 }
 
 
@@ -113,6 +115,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(err) = self.err {
+            return DivansResult::Failure(err);
+        }
+        let ret = self.decode_inner(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(err) = ret {
+            self.err = Some(err);
+        }
+        ret
+    }
+    fn decode_inner(&mut self,
+                    input:&[u8],
+                    input_offset:&mut usize,
+                    output:&mut [u8],
+                    output_offset: &mut usize) -> DivansResult {
         let process = self;
         let mut unused:usize = 0;
         let old_output_offset = *output_offset;
@@ -286,6 +302,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                    literal_decoder:Some(main_thread_codec),
                                    bytes_encoded:0,
                                    mcommand:mcommand,
+                                   err:None,
                                }));
         DivansResult::Success
     }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cc89219..95fb917 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -39,6 +39,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                                Mux<AllocU8>>>,
     bytes_encoded: usize,
     mcommand: AllocCommand,
+    err: Option<ErrMsg>, // a failed decode cannot be resumed
 }
 
 
@@ -137,6 +138,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
             worker: multi_worker,
+            err: None,
         }
     }
     pub fn free_ref(&mut self) {
@@ -174,6 +176,20 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
               input_offset:&mut usize,
               output:&mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if let Some(err) = self.err {
+            return DivansResult::Failure(err);
+        }
+        let ret = self.decode_inner(input, input_offset, output, output_offset);
+        if let DivansResult::Failure(err) = ret {
+            self.err = Some(err);
+        }
+        ret
+    }
+    fn decode_inner(&mut self,
+                    input:&[u8],
+                    input_offset:&mut usize,
+                    output:&mut [u8],
+                    output_offset: &mut usize) -> DivansResult {
         let old_output_offset = *output_offset;
         if let Some(literal_decoder) =  self.literal_decoder.as_mut() {
             loop {
-- 
2.43.0


From 68727c1205903fdb4f69bba5ebd8777f52ec5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:14 +0000
Subject: [PATCH 11/30] fix: a copy with an impossible distance stalled the
 decoder forever

---
 src/cmd_to_raw/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 7107681..2d5d6ea 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -244,6 +244,10 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     #[inline(always)]
     fn parse_copy(&mut self, copy:&CopyCommand) -> DivansOutputResult {
         let num_bytes_left_in_cmd = copy.num_bytes - self.state.input_sub_offset as u32;
+        if num_bytes_left_in_cmd != 0 && (copy.distance == 0 || copy.distance as usize >= self.ring_buffer.slice().len()) {
+            // nothing in the ring buffer is that far back: such a copy could never make progress
+            return DivansOutputResult::Failure(ErrMsg::DistanceGreaterRingBuffer);
+        }
         if copy.distance <= REPEAT_BUFFER_MAX_SIZE && num_bytes_left_in_cmd > copy.distance {
             let num_bytes_to_copy = core::cmp::min(num_bytes_left_in_cmd,
                                                    self.decode_space_left_in_ring_buffer());
-- 
2.43.0


From 670d78d1ebbc8d94c935fab62b7d940b482e76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 12/30] fix: freeing or dropping a multithreaded decoder
 mid-stream hung or leaked its worker

---
 src/multithreading.rs        | 13 ++++++++-----
 src/parallel_decompressor.rs | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index 85a9b62..f4b64fb 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -122,6 +122,9 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
             queue: Arc::new((Mutex::new(SerialWorker::<AllocU8, AllocCommand>::new(mcommand)), Condvar::new())),
         }
     }
+    pub fn has_err(&self) -> bool {
+        self.queue.0.lock().unwrap().err.is_some()
+    }
     fn broadcast_err_internal(&mut self, err: ErrMsg, _thread_event_type: ThreadEventType) {
         let _elapsed = unguarded_debug_time!(self);
         let &(ref lock, ref cvar) = &*self.queue;
@@ -243,7 +246,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.data_ready() {
+            if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
@@ -262,7 +265,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_ready() {
+            if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -290,7 +293,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -314,7 +317,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -335,7 +338,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index 95fb917..a07ffdd 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -18,6 +18,15 @@ use ::alloc::{Allocator};
 use std::thread;
 use super::divans_decompressor::StaticCommand;
 
+// wakes the worker thread up and lets it exit if the decoder goes away before the stream is done
+struct StopWorkerOnDrop<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>>(MultiWorker<AllocU8, AllocCommand>);
+
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for StopWorkerOnDrop<AllocU8, AllocCommand> {
+    fn drop(&mut self) {
+        self.0.broadcast_err(ErrMsg::UnexpectedEof);
+    }
+}
+
 pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                  AllocU8:Allocator<u8>,
                                  AllocCDF16:Allocator<interface::DefaultCDF16>,
@@ -31,6 +40,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                          AllocCDF16>>>,
                >,
     worker: MultiWorker<AllocU8, AllocCommand>,
+    _stop_on_drop: StopWorkerOnDrop<AllocU8, AllocCommand>,
     literal_decoder: Option<DivansDecoderCodec<interface::DefaultCDF16,
                                                AllocU8,
                                                AllocCDF16,
@@ -127,6 +137,9 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         },
                         DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
+                    if process_codec.demuxer().worker.worker.has_err() {
+                        return; // main thread has given up on this stream
+                    }
                 }
             } else {
                 panic!("Thread started with None-process_codec")
@@ -137,6 +150,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
             codec:worker_codec,
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
+            _stop_on_drop: StopWorkerOnDrop(multi_worker.clone()),
             worker: multi_worker,
             err: None,
         }
-- 
2.43.0


From 3e94aca148f9301f17655c7c8a6116cf8f955365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 13/30] fix: decoder waited for input forever after a premature
 end of stream marker

---
 src/codec/decoder.rs         | 16 ++++++++++++++--
 src/divans_decompressor.rs   |  6 +++++-
 src/multithreading.rs        | 12 ++++++++++++
 src/parallel_decompressor.rs |  7 +++++--
 src/threading.rs             | 12 ++++++++++++
 5 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index 6e1543c..ac847e3 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -113,9 +113,12 @@ impl<Cdf16:CDF16,
         }
         self.ctx.m8.free_ref();
     }
+    pub fn delivered_all_data(&self) -> bool {
+        self.demuxer.encountered_eof() && self.demuxer.data_ready(CMD_CODER as StreamID) == 0
+    }
     pub fn commands_or_data_to_receive(&self) -> bool {
-        self.outstanding_buffer_count > 0 || ( // if we have outstanding buffer
-            self.demuxer.encountered_eof() && self.demuxer.data_ready(CMD_CODER as StreamID) == 0) // or we have flushed everything we will have
+        self.outstanding_buffer_count > 0 || // if we have outstanding buffer
+            self.delivered_all_data() // or we have flushed everything we will have
     }
     #[cfg_attr(not(feature="no-inline"), inline(always))]
     pub fn decode_process_input<Worker: MainToThread<AllocU8>>(&mut self,
@@ -277,6 +280,12 @@ impl<Cdf16:CDF16,
                                         core::mem::replace(&mut self.state_lit.lc,
                                                            LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()));
                                 },
+                                DivansResult::NeedsMoreInput => {
+                                    if self.demuxer.encountered_eof() { // the literals stop short of their end
+                                        return DecoderResult::Processed(DivansResult::Failure(ErrMsg::UnexpectedEof));
+                                    }
+                                    return DecoderResult::Processed(DivansResult::NeedsMoreInput);
+                                },
                                 retval => {
                                     return DecoderResult::Processed(retval);
                                 }
@@ -297,6 +306,9 @@ impl<Cdf16:CDF16,
                                          AllocatedMemoryRange::<u8, AllocU8>::default()];
                 let status;
                 {
+                    if self.delivered_all_data() {
+                        worker.close_data();
+                    }
                     assert_eq!(self.pred_buffer[0].has_context_speeds(), false);
                     assert_eq!(self.pred_buffer[1].has_context_speeds(), false);
                     status = worker.pull_command_buf(&mut self.cmd_buffer, &mut consumed_data, &mut self.pred_buffer);
diff --git a/src/divans_decompressor.rs b/src/divans_decompressor.rs
index 79f59a2..cae9f49 100644
--- a/src/divans_decompressor.rs
+++ b/src/divans_decompressor.rs
@@ -151,7 +151,11 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 DivansResult::Success => {},
                 DivansResult::Failure(e) => return DivansResult::Failure(e),
                 DivansResult::NeedsMoreInput => {
-                    if process.literal_decoder.as_mut().unwrap().outstanding_buffer_count == 0 {
+                    let main_thread = process.literal_decoder.as_mut().unwrap();
+                    if main_thread.outstanding_buffer_count == 0 {
+                        if main_thread.delivered_all_data() {
+                            return DivansResult::Failure(ErrMsg::UnexpectedEof); // the commands stop short of their end
+                        }
                         return DivansResult::NeedsMoreInput;
                     } else {
                         // we can fall through here because if outstanding_buffer_count != 0 then
diff --git a/src/multithreading.rs b/src/multithreading.rs
index f4b64fb..4deed67 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -231,6 +231,16 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
             }
         }
     }
+    fn close_data(&mut self) {
+        let &(ref lock, ref cvar) = &*self.queue;
+        let mut worker = lock.lock().unwrap();
+        if !worker.data_closed() {
+            worker.close_data();
+            if worker.waiters != 0 {
+                cvar.notify_one();
+            }
+        }
+    }
     fn broadcast_err(&mut self,
                      err:ErrMsg) {
         self.broadcast_err_internal(err, ThreadEventType::M_BROADCAST_ERR);
@@ -250,6 +260,8 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
+            } else if worker.data_closed() {
+                return ThreadData::Eof;
             } else {
                 thread_debug!(ThreadEventType::W_WAIT_PULL_DATA, 0, self, _elapsed);
                 worker.waiters += 1;
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index a07ffdd..8574218 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -2,7 +2,7 @@
 use core;
 use core::hash::Hasher;
 use ::interface;
-use ::interface::{NewWithAllocator};
+use ::interface::{NewWithAllocator, StreamDemuxer};
 use ::DecoderSpecialization;
 use ::codec;
 use std::sync::{Arc, Mutex};
@@ -133,7 +133,10 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                             return;
                         },
                         DivansResult::NeedsMoreInput => {
-                            //eprintln!("W_RETRY_PULL");//unimplemented!(); // we should block here--- maybe this is an error
+                            if process_codec.demuxer().encountered_eof() { // the commands stop short of their end
+                                process_codec.demuxer().broadcast_err(ErrMsg::UnexpectedEof);
+                                return;
+                            }
                         },
                         DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
diff --git a/src/threading.rs b/src/threading.rs
index 4470663..cddb2d1 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -52,6 +52,7 @@ pub trait MainToThread<AllocU8:Allocator<u8>> {
             output:&mut Self::CommandOutputType,
             consumed_data:&mut [AllocatedMemoryRange<u8, AllocU8>;NUM_DATA_BUFFERED],
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult;
+    fn close_data(&mut self); // there will be no further push
     fn broadcast_err(&mut self, err:ErrMsg);
 }
 
@@ -88,6 +89,7 @@ pub trait ThreadToMain<AllocU8:Allocator<u8>> {
 pub const NUM_SERIAL_COMMANDS_BUFFERED: usize = 256;
 pub struct SerialWorker<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> {
     data_len: usize,
+    data_closed: bool,
     data: [ThreadData<AllocU8>;NUM_DATA_BUFFERED],
     cm_len: usize,
     cm: [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2],
@@ -127,6 +129,9 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
     pub fn data_ready(&self) -> bool {
         self.data_len != 0
     }
+    pub fn data_closed(&self) -> bool {
+        self.data_closed
+    }
     pub fn returned_data_space_ready(&self) -> bool {
         self.result_data[NUM_DATA_BUFFERED -1].0.len() == 0
     }
@@ -173,6 +178,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> SerialWorker<
             waiters: 0,
             eof_present_in_result: CommandResult::Ok,
             data_len: 0,
+            data_closed: false,
             data:[ThreadData::<AllocU8>::default(),
                   ThreadData::<AllocU8>::default()],
             cm_len: 0,
@@ -255,6 +261,9 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
         core::mem::swap(pm, &mut self.result_cm);
         self.eof_present_in_result
     }
+    fn close_data(&mut self) {
+        self.data_closed = true;
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         self.err = Some(err);
     }
@@ -431,6 +440,9 @@ impl <AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>+MainToThread<
             pm:&mut [PredictionModeContextMap<AllocatedMemoryPrefix<u8, AllocU8>>; 2]) -> CommandResult {    
         self.worker.pull(output, consumed_data, pm)
     }
+    fn close_data(&mut self) {
+        self.worker.close_data()
+    }
     fn broadcast_err(&mut self, err:ErrMsg) {
         <WorkerInterface as ThreadToMain<AllocU8>>::broadcast_err(&mut self.worker, err);
     }
-- 
2.43.0


From d18292db9c2daec2b26d0c062285de16c1857771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 14/30] fix: worker thread panicked when the multithreaded
 decoder was freed before it ran

---
 src/parallel_decompressor.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index 8574218..e7927cd 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -144,9 +144,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                         return; // main thread has given up on this stream
                     }
                 }
-            } else {
-                panic!("Thread started with None-process_codec")
-            }
+            } // else the decoder was freed before this thread got to run
         });
         ParallelDivansProcess::<DefaultDecoder, AllocU8, AllocCDF16, AllocCommand> {
             mcommand:mc,
-- 
2.43.0


From 33ef730f66fe15df374903089a2e778434babe21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 15/30] fix: writers lost errors of the underlying writer and a
 decompressing writer's remaining output

---
 src/writer.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/writer.rs b/src/writer.rs
index 8cacc85..999b13a 100755
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -25,7 +25,9 @@ struct GenWriter<W: Write,
   output_start: usize, // the range of output_buffer that output has not accepted yet
   output_end: usize,
   has_flushed: bool,
+  more_output: bool, // the last call to process left output behind
   output: W,
+  write_error: Option<io::Error>,
 }
 
 
@@ -33,7 +35,7 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
     fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
         let mut avail_in = buf.len();
         let mut input_offset : usize = 0;
-        self.write_output()?;
+        self.resume()?;
         loop {
             let mut output_offset = 0;
             let old_input_offset = input_offset;
@@ -44,10 +46,17 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
                 &mut output_offset);
             avail_in -= input_offset - old_input_offset;
             self.output_end = output_offset;
-            match self.write_output() {
-                Ok(_) => {},
-                // an error means no input was taken: report what was, the next call meets the error again
-                Err(e) => return if input_offset != 0 {Ok(input_offset)} else {Err(e)},
+            self.more_output = match op_result {
+                DivansResult::NeedsMoreOutput => true,
+                _ => false,
+            };
+            if let Err(e) = self.write_output() {
+                if input_offset == 0 {
+                    return Err(e);
+                }
+                // an error means no input was taken: report what was and keep the error for the next call
+                self.write_error = Some(e);
+                return Ok(input_offset);
             }
             match op_result {
                 DivansResult::NeedsMoreInput => if avail_in != 0 {
@@ -66,7 +75,12 @@ impl<W:Write, P:Processor, BufferType:SliceWrapperMut<u8>> Write for GenWriter<W
         Ok(buf.len())
     }
     fn flush(&mut self) -> Result<(), io::Error> {
-        self.write_output()?;
+        self.resume()?;
+        while self.more_output {
+            if let Err(e) = self.write(&[]) {
+                return Err(e);
+            }
+        }
         while !self.has_flushed {
             let mut output_offset = 0;
             let ret = self.compressor.close(
@@ -96,7 +110,16 @@ impl<W:Write, C:Processor, BufferType:SliceWrapperMut<u8>> GenWriter<W,C,BufferT
             output_start: 0,
             output_end: 0,
             has_flushed: !needs_flush,
+            more_output: false,
+            write_error: None,
+        }
+    }
+    // reports a kept error, then hands over what is pending
+    fn resume(&mut self) -> Result<(), io::Error> {
+        if let Some(e) = self.write_error.take() {
+            return Err(e);
         }
+        self.write_output()
     }
     // hands over the pending output, keeping what is not accepted for the next call
     fn write_output(&mut self) -> Result<(), io::Error> {
-- 
2.43.0


From dcbf7f16c366615d920d94d3f1206f11760d6ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 16/30] fix: C header declared
 divans_new_decompressor_with_custom_alloc without its multithread argument

---
 README.md      | 2 +-
 c/divans/ffi.h | 4 +++-
 c/example.c    | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index ae98ffd..8a1717a 100644
--- a/README.md
+++ b/README.md
@@ -118,7 +118,7 @@ DivansResult compress(const unsigned char *data, size_t len) {
 DivansResult decompress(const unsigned char *data, size_t len) {
     unsigned char buf[4096];
     struct CAllocator alloc = {custom_malloc, custom_free, custom_alloc_opaque}; // set all 3 to NULL for using rust allocators
-    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc);
+    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0, 1);
     DivansResult res;
     do {
         size_t read_offset = 0;
diff --git a/c/divans/ffi.h b/c/divans/ffi.h
index 8e603b1..bfbf2bd 100644
--- a/c/divans/ffi.h
+++ b/c/divans/ffi.h
@@ -31,6 +31,7 @@ typedef uint8_t DivansOptionSelect;
 #define DIVANS_OPTION_PRIOR_BITMASK_DETECTION 17
 #define DIVANS_OPTION_Q9_5 18
 #define DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE 19
+#define DIVANS_OPTION_IR_OPTIMIZER 20
 
 
 /// a struct specifying custom allocators for divans to use instead of the builtin rust allocators.
@@ -58,7 +59,8 @@ void divans_free_compressor(struct DivansCompressorState* mfd);
 
 
 struct DivansDecompressorState* divans_new_decompressor();
-struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc);
+struct DivansDecompressorState* divans_new_serial_decompressor();
+struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc, uint8_t multithread);
 DivansResult divans_decode(struct DivansDecompressorState* state,
                            const uint8_t *input_buf_ptr, size_t input_size, size_t*input_offset,
                            uint8_t *output_buf_ptr, size_t output_size, size_t *output_offset);
diff --git a/c/example.c b/c/example.c
index 4c223e7..a559786 100644
--- a/c/example.c
+++ b/c/example.c
@@ -59,7 +59,7 @@ DivansResult compress(const unsigned char *data, size_t len, struct VecU8 *ret_b
 DivansResult decompress(const unsigned char *data, size_t len, struct VecU8 *ret_buffer) {
     unsigned char buf[BUF_SIZE];
     struct CAllocator alloc = {custom_malloc, custom_free, custom_alloc_opaque};
-    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0);
+    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0, 1);
     DivansResult res;
     do {
         size_t read_offset = 0;
-- 
2.43.0


From 594042fd308c2404078575f116669186c93c02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 17/30] fix: decoder leaked its last input buffer when it was
 freed

---
 src/threading.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/threading.rs b/src/threading.rs
index cddb2d1..02d1d37 100755
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -374,10 +374,8 @@ impl<AllocU8:Allocator<u8>, WorkerInterface:ThreadToMain<AllocU8>> StreamDemuxer
     }
     #[inline(always)]
     fn free_demux(&mut self, m8: &mut AllocU8){
-        if self.slice.0.slice().len() != 0 {
-            self.worker.push_consumed_data(&mut self.slice, None);
-            m8.free_cell(core::mem::replace(&mut self.slice.0, AllocU8::AllocatedMemory::default()));
-        }
+        // the worker that would hand the buffer back to the main thread has already been freed
+        m8.free_cell(core::mem::replace(&mut self.slice, AllocatedMemoryRange::<u8, AllocU8>::default()).0);
     }
 }
 
-- 
2.43.0


From e874aa2239bd614ef13b1e8b120bbddc76cdb2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 18/30] fix: C interface dereferenced null state and buffer
 pointers

---
 src/ffi/mod.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index af84f97..0bab06c 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -14,6 +14,27 @@ mod decompressor;
 use self::compressor::DivansCompressorState;
 use self::decompressor::DivansDecompressorState;
 use self::interface::{CAllocator, c_void, DivansOptionSelect, DivansReturnCode, DIVANS_FAILURE, DIVANS_SUCCESS, DIVANS_NEEDS_MORE_INPUT, DIVANS_NEEDS_MORE_OUTPUT};
+// C callers may describe an empty buffer with a null pointer, which no slice may have
+unsafe fn input_from_raw<'a>(ptr: *const u8, size: usize) -> Option<&'a [u8]> {
+    if !ptr.is_null() {
+        Some(slice::from_raw_parts(ptr, size))
+    } else if size == 0 {
+        Some(&[])
+    } else {
+        None
+    }
+}
+
+unsafe fn output_from_raw<'a>(ptr: *mut u8, size: usize) -> Option<&'a mut [u8]> {
+    if !ptr.is_null() {
+        Some(slice::from_raw_parts_mut(ptr, size))
+    } else if size == 0 {
+        Some(&mut [])
+    } else {
+        None
+    }
+}
+
 #[no_mangle]
 pub extern fn divans_new_compressor() -> *mut compressor::DivansCompressorState{
     unsafe {
@@ -70,8 +91,14 @@ pub unsafe extern fn divans_set_option(state_ptr: *mut DivansCompressorState,
 pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = match input_from_raw(input_buf_ptr, input_size) {
+        Some(buf) => buf,
+        None => return DIVANS_FAILURE,
+    };
+    let output_buf = match output_from_raw(output_buf_ptr, output_size) {
+        Some(buf) => buf,
+        None => return DIVANS_FAILURE,
+    };
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
@@ -93,7 +120,10 @@ pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
 #[no_mangle]
 pub unsafe extern fn divans_encode_flush(state_ptr: *mut DivansCompressorState,
                                          output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let output_buf = match output_from_raw(output_buf_ptr, output_size) {
+        Some(buf) => buf,
+        None => return DIVANS_FAILURE,
+    };
     match output_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(output_offset) => {
@@ -157,6 +187,9 @@ unsafe fn free_compressor_no_custom_alloc(_state_ptr: *mut DivansCompressorState
 
 #[no_mangle]
 pub unsafe extern fn divans_free_compressor(state_ptr: *mut DivansCompressorState) {
+    if state_ptr.is_null() {
+        return;
+    }
     if let Some(_) = (*state_ptr).custom_allocator.alloc_func {
         if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
             let _to_free = core::ptr::read(state_ptr);
@@ -236,8 +269,14 @@ pub unsafe extern fn divans_new_decompressor_with_custom_alloc(allocators:CAlloc
 pub unsafe extern fn divans_decode(state_ptr: *mut DivansDecompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = match input_from_raw(input_buf_ptr, input_size) {
+        Some(buf) => buf,
+        None => return DIVANS_FAILURE,
+    };
+    let output_buf = match output_from_raw(output_buf_ptr, output_size) {
+        Some(buf) => buf,
+        None => return DIVANS_FAILURE,
+    };
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
@@ -310,6 +349,9 @@ pub unsafe extern fn divans_decompressor_free_usize(state_ptr: *mut DivansDecomp
 
 #[no_mangle]
 pub unsafe extern fn divans_free_decompressor(state_ptr: *mut DivansDecompressorState) {
+    if state_ptr.is_null() {
+        return;
+    }
     if let Some(_) = (*state_ptr).custom_allocator.alloc_func {
         if let Some(free_fn) = (*state_ptr).custom_allocator.free_func {
             //(*state_ptr).drop();
-- 
2.43.0


From 13f3793bff537c2b942f3952d4408b9cec168827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 19/30] fix: empty cells taken from a custom allocator were
 never freed

---
 src/ffi/alloc_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffi/alloc_util.rs b/src/ffi/alloc_util.rs
index 87d02f2..2fcf4e6 100644
--- a/src/ffi/alloc_util.rs
+++ b/src/ffi/alloc_util.rs
@@ -70,6 +70,9 @@ impl<Ty:Sized+Default+Clone> SubclassableAllocator<Ty> {
 impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty> {
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
+        if size == 0 { // free_cell gives nothing back for an empty cell
+            return MemoryBlock::<Ty>::default();
+        }
         if let Some(alloc_fn) = self.alloc.alloc_func {
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
@@ -169,6 +172,9 @@ impl<Ty:Sized+Default> core::ops::IndexMut<usize> for MemoryBlock<Ty> {
 impl<Ty:Sized+Default+Clone> alloc::Allocator<Ty> for SubclassableAllocator<Ty> {
     type AllocatedMemory = MemoryBlock<Ty>;
     fn alloc_cell(&mut self, size:usize) ->MemoryBlock<Ty>{
+        if size == 0 { // free_cell gives nothing back for an empty cell
+            return MemoryBlock::<Ty>::default();
+        }
         if let Some(alloc_fn) = self.alloc.alloc_func {
             let ptr = alloc_fn(self.alloc.opaque, size * core::mem::size_of::<Ty>());
             let typed_ptr = unsafe {core::mem::transmute::<*mut c_void, *mut Ty>(ptr)};
-- 
2.43.0


From b6bc9024fbc1a92376d53e91a40fd3f002bd06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 20/30] fix: C interface accepted dynamic context mixing values
 that abort the compressor

---
 src/ffi/compressor.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ffi/compressor.rs b/src/ffi/compressor.rs
index 7c4b7dd..92a576e 100644
--- a/src/ffi/compressor.rs
+++ b/src/ffi/compressor.rs
@@ -69,7 +69,12 @@ impl CompressorState {
                 DIVANS_OPTION_STRIDE_DETECTION_QUALITY => {opts.stride_detection_quality = Some(value as u8);},
                 DIVANS_OPTION_PRIOR_BITMASK_DETECTION => {opts.prior_bitmask_detection = value as u8},
                 DIVANS_OPTION_SPEED_DETECTION_QUALITY => {opts.speed_detection_quality = Some(value as u8);},
-                DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING => {opts.dynamic_context_mixing = Some(value as u8);},
+                DIVANS_OPTION_DYNAMIC_CONTEXT_MIXING => {
+                    if value >= 8 { // the stream has three bits for it
+                        return DIVANS_FAILURE;
+                    }
+                    opts.dynamic_context_mixing = Some(value as u8);
+                },
                 DIVANS_OPTION_USE_BROTLI_COMMAND_SELECTION => {opts.use_brotli = match value {
                     0 => BrotliCompressionSetting::UseInternalCommandSelection,
                     1 => BrotliCompressionSetting::UseBrotliCommandSelection,
-- 
2.43.0


From 81de1ed65c1eb56789d36690841853792ca1d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 21/30] verif hook: re-export the coder traits under
 cfg(divans_verif)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b2d5e23..1e0be64 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -129,4 +129,6 @@ pub mod verif {
     pub mod ans { pub use ans::*; }
     pub mod probability { pub use probability::*; pub use probability::numeric; }
     pub mod crc32 { pub use codec::crc32::*; }
+    pub mod arithmetic_coder { pub use arithmetic_coder::*; }
+    pub mod interface { pub use interface::*; }
 }
-- 
2.43.0


From 59ad21a3c3b88aabb89b8370009a1d165bae4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 22/30] fix: 'ltype N' without a stride panicked in the IR
 parser

---
 src/bin/divans.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index cf2f306..a7261b2 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -333,7 +333,7 @@ fn command_parse(s : &str) -> Result<Option<Command<ItemVec<u8>>>, io::Error> {
             'c' => Command::BlockSwitchCommand(BlockSwitch::new(block_type)),
             'd' => Command::BlockSwitchDistance(BlockSwitch::new(block_type)),
             'l' => Command::BlockSwitchLiteral(LiteralBlockSwitch::new(block_type,
-                  if command_vec.len() < 2 {
+                  if command_vec.len() < 3 {
                      0
                   } else {
                      match command_vec[2].parse::<u32>() {
-- 
2.43.0


From 79ebd3af7be37601ae2ba5d2fce73c62d1202c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 23/30] fix: the tool exited 0 when its last output could not
 be written to standard output

---
 src/bin/divans.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index a7261b2..c637636 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -604,7 +604,7 @@ fn recode_inner<Reader:std::io::BufRead,
         }
     }
 
-    Ok(())
+    w.flush()
 }
 
 fn allowed_command(_cmd: &Command<ItemVec<u8>>, _last_literal_switch: &mut divans::LiteralBlockSwitch) -> bool {
@@ -705,7 +705,7 @@ fn compress_inner<Reader:std::io::BufRead,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 fn compress_raw_inner<Compressor: divans::interface::Compressor,
                       Reader:std::io::Read,
@@ -823,7 +823,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
     let mut m8 = free_state(compress_state);
     m8.free_cell(ibuffer);
     m8.free_cell(obuffer);
-    Ok(())
+    w.flush()
 }
 
 
@@ -1102,7 +1102,7 @@ fn decompress_generic<Reader:std::io::Read,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 
 fn recode<Reader:std::io::BufRead,
-- 
2.43.0


From f259dd382c709b9beb65a553189d8e52fe981fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 24/30] fix: encoding an empty slice of commands panicked with
 an index out of bounds

---
 src/brotli_ir_gen.rs     | 3 +++
 src/divans_compressor.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 327cb1c..c5980af 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -311,6 +311,9 @@ impl<SelectedCDF:CDF16,
                 res => return res,
             }
         }
+        if *input_offset >= input.len() {
+            return DivansOutputResult::Success; // no command to encode
+        }
         let mut unused: usize = 0;
         match self.codec.encode_or_decode(&[],
                                           &mut unused,
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 34a8dd4..b31c36d 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -348,6 +348,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                 res => return res,
             }
         }
+        if *input_offset >= input.len() {
+            return DivansOutputResult::Success; // no command to encode
+        }
         let mut unused: usize = 0;
         match self.codec.encode_or_decode(&[],
                                     &mut unused,
-- 
2.43.0


From 7b52b816db7d5c296a52f34361c16aefe1618883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 25/30] fix: adaptation speeds the models cannot follow made
 the compressor panic

---
 src/codec/context_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codec/context_map.rs b/src/codec/context_map.rs
index c92f3e3..caf3cb4 100644
--- a/src/codec/context_map.rs
+++ b/src/codec/context_map.rs
@@ -144,6 +144,12 @@ impl <AllocU8:Allocator<u8>> PredictionModeState<AllocU8> {
         if let Some(adapt) = superstate.bk.desired_literal_adaptation {
             desired_speeds = adapt;
         }
+        for speed in desired_speeds.iter_mut() {
+            // a larger increment overflows the 15 bit total of a cdf, and the 8 bit form has no limits from 0x3000 to 0x3fff
+            let inc = core::cmp::max(0, core::cmp::min(speed.inc(), 0x1fff));
+            let lim = core::cmp::max(0, speed.lim());
+            *speed = Speed::new(inc, if lim < 0x4000 { core::cmp::min(lim, 0x2fff) } else { 0x4000 });
+        }
         loop {
             match superstate.drain_or_fill_internal_buffer_cmd(output_bytes, output_offset) {
                 DivansResult::Success => {},
-- 
2.43.0


From 7a3d9a856a90858d77ea8edee67f7b78cd2d9cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:07 +0000
Subject: [PATCH 26/30] fix: literals decoded in the fast path ignored a
 missing refill at an entropy-code chunk boundary

---
 src/codec/literal.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/src/codec/literal.rs b/src/codec/literal.rs
index 77f9cea..8938fb7 100644
--- a/src/codec/literal.rs
+++ b/src/codec/literal.rs
@@ -320,15 +320,11 @@ impl<AllocU8:Allocator<u8>,
                        prob.blend(cur_nibble, lbk.literal_adaptation[0]);
                    }
                }
-               if NibbleArrayType::FULLY_SAFE {
-                   debug_assert!(match byte_pull_status {DivansResult::Success => true, _ => false,});
-               } else {
-                   match byte_pull_status {
-                       DivansResult::Success => {},
-                       need_something => {
-                           retval = self.fallback_byte_encode(lc_target, cur_nibble, (start_byte_index + byte_offset) as u32 * 2 + 1, need_something);
-                           break;
-                       }
+               match byte_pull_status {
+                   DivansResult::Success => {},
+                   need_something => {
+                       retval = self.fallback_byte_encode(lc_target, cur_nibble, (start_byte_index + byte_offset) as u32 * 2 + 1, need_something);
+                       break;
                    }
                }
            } else {
@@ -372,21 +368,17 @@ impl<AllocU8:Allocator<u8>,
                                                                output_bytes,
                                                                output_offset,
                                                                &mut Some(m8));
-            if NibbleArrayType::FULLY_SAFE {
-                debug_assert!(match byte_pull_status {DivansResult::Success => true, _ => false,});
-            } else {
-                match byte_pull_status {
-                  DivansResult::Success => {},
-                  need_something => {
-                      let new_state = self.state_literal_nibble_index(((start_byte_index + byte_offset) << 1) as u32 + 2,
-                                                                       demuxer.data_ready(LIT_CODER as u8));
-                      self.state = new_state;
-                      if start_byte_index + byte_offset + 1 != last_llen as usize {
-                          retval = need_something;
-                      }
-                      break;
-                  }
-               }
+            match byte_pull_status {
+                DivansResult::Success => {},
+                need_something => {
+                    let new_state = self.state_literal_nibble_index(((start_byte_index + byte_offset) << 1) as u32 + 2,
+                                                                     demuxer.data_ready(LIT_CODER as u8));
+                    self.state = new_state;
+                    if start_byte_index + byte_offset + 1 != last_llen as usize {
+                        retval = need_something;
+                    }
+                    break;
+                }
             }
         }
         self.lc.data = lc_data;
-- 
2.43.0


From 26c3cefc3fc6a83bf1fa991b8e6d5f3a3f597f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 27/30] fix: a refused context map was dropped instead of
 returned to its allocator

---
 src/codec/decoder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/codec/decoder.rs b/src/codec/decoder.rs
index ac847e3..c6f8f0a 100644
--- a/src/codec/decoder.rs
+++ b/src/codec/decoder.rs
@@ -403,7 +403,11 @@ impl<Cdf16:CDF16,
                             &mut self.ctx.mcdf16);
                         match ret {
                             DivansOpResult::Success => {},
-                            _ => return DecoderResult::Processed(DivansResult::from(ret)),
+                            _ => {
+                                free_cmd(&mut Command::PredictionMode(pred_mode),
+                                         &mut self.ctx.m8.use_cached_allocation::<UninitializedOnAlloc>());
+                                return DecoderResult::Processed(DivansResult::from(ret));
+                            },
                         }
                         self.codec_traits = construct_codec_trait_from_bookkeeping(&self.ctx.lbk);
                         match worker.push_context_map(pred_mode) {
-- 
2.43.0


From d4e9a2a4c4bc03acb46c12fb1b642f96111c9e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:28 +0000
Subject: [PATCH 28/30] fix: a command still waiting for room when the codec is
 freed was not returned to its allocator

---
 src/codec/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..4d2f86a 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -326,6 +326,8 @@ impl<AllocU8: Allocator<u8>,
             core::mem::replace(&mut self.state_lit.lc,
                                LiteralCommand::<AllocatedMemoryPrefix<u8, AllocU8>>::nop()).data);
 
+        free_cmd(&mut self.state_populate_ring_buffer,
+                 &mut self.cross_command_state.thread_ctx.m8().unwrap().use_cached_allocation::<UninitializedOnAlloc>());
         self.state_prediction_mode.free(self.cross_command_state.thread_ctx.m8().unwrap());
         self.cross_command_state.free_ref()
     }
-- 
2.43.0


From 41a2c2fdd20de3e05be43343c35a82e377f23078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:37 +0000
Subject: [PATCH 29/30] fix: the blending model could leave a symbol without a
 frequency

A symbol's probability could be one step of 2^15, which the coders round
down by one: its frequency was 0 and the encoder divided by it.
---
 src/probability/blend_cdf.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/probability/blend_cdf.rs b/src/probability/blend_cdf.rs
index 6d04db9..9f6b4c8 100644
--- a/src/probability/blend_cdf.rs
+++ b/src/probability/blend_cdf.rs
@@ -1,6 +1,9 @@
 use super::interface::{Prob, BaseCDF, Speed, CDF_MAX, CDF16, BLEND_FIXED_POINT_PRECISION};
 
 
+// weight of the uniform distribution that is always mixed in
+const MIN_BIAS: Prob = 32;
+
 #[allow(unused)]
 fn gte(a:Prob, b:Prob) -> Prob {
     (-((a >= b) as i64)) as Prob
@@ -74,11 +77,11 @@ macro_rules! each16bin {
     }
 }
 pub fn to_blend(symbol: u8) -> [Prob;16] {
-    // The returned distribution has a max of DEL = CDF_MAX - 16, which guarantees that
-    // by mixing only such distributions, we'll have at least 16 as the bias weight,
-    // which is required to guarantee nonzero PDF everywhere.
+    // The returned distribution has a max of DEL = CDF_MAX - MIN_BIAS, which guarantees that
+    // by mixing only such distributions, we'll have at least MIN_BIAS as the bias weight,
+    // which is required to guarantee a PDF of at least 2 everywhere: the coders give one of it up to rounding.
     const CDF_INDEX : [Prob;16] = [0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15];
-    const DEL: Prob = CDF_MAX - 16;
+    const DEL: Prob = CDF_MAX - MIN_BIAS;
     let symbol16 = [Prob::from(symbol); 16];
     let delta16 = [DEL; 16];
     let mask_symbol = each16bin!(CDF_INDEX, symbol16, gte);
@@ -86,7 +89,7 @@ pub fn to_blend(symbol: u8) -> [Prob;16] {
 }
 
 pub fn to_blend_lut(symbol: u8) -> [Prob;16] {
-    const DEL: Prob = CDF_MAX - 16;
+    const DEL: Prob = CDF_MAX - MIN_BIAS;
     static CDF_SELECTOR : [[Prob;16];16] = [
         [DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL as Prob],
         [0,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL,DEL as Prob],
@@ -116,12 +119,12 @@ pub struct BlendCDF16 {
 impl BlendCDF16 {
     fn blend_internal(&mut self, to_blend: [Prob;16], mix_rate: i32) {
         self.cdf = mul_blend(self.cdf, to_blend, mix_rate, (self.count & 0xf) << (BLEND_FIXED_POINT_PRECISION - 4));
-        if self.cdf[15] < (CDF_MAX - 16) - (self.cdf[15] >> 1) {
+        if self.cdf[15] < (CDF_MAX - MIN_BIAS) - (self.cdf[15] >> 1) {
             for i in 0..16 {
                 self.cdf[i] += self.cdf[i] >> 1;
             }
         }
-        debug_assert!(self.cdf[15] <= CDF_MAX - 16);
+        debug_assert!(self.cdf[15] <= CDF_MAX - MIN_BIAS);
 
     }
 }
@@ -162,7 +165,7 @@ impl BaseCDF for BlendCDF16 {
                 // We want self.cdf[15] to be normalized to CDF_MAX, so take the difference to
                 // be the latent bias term coming from a uniform distribution.
                 let bias = CDF_MAX - self.cdf[15] as i16;
-                debug_assert!(bias >= 16);
+                debug_assert!(bias >= MIN_BIAS);
                 self.cdf[symbol as usize] as Prob + ((i32::from(bias) * (i32::from(symbol + 1))) >> 4) as Prob
             }
         }
-- 
2.43.0


From 291d1a66d324803651ac9f49605a4149918283db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:37 +0000
Subject: [PATCH 30/30] fix: blend with avoid-divide could not decode its own
 streams

The encoder's hint is the reciprocal of max(), 32767, while this model's
div_by_max is a shift by 15.
---
 src/probability/blend_cdf.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/probability/blend_cdf.rs b/src/probability/blend_cdf.rs
index 9f6b4c8..efc0009 100644
--- a/src/probability/blend_cdf.rs
+++ b/src/probability/blend_cdf.rs
@@ -1,4 +1,6 @@
 use super::interface::{Prob, BaseCDF, Speed, CDF_MAX, CDF16, BLEND_FIXED_POINT_PRECISION};
+#[cfg(feature="avoid-divide")]
+use super::interface::SymStartFreq;
 
 
 // weight of the uniform distribution that is always mixed in
@@ -158,6 +160,12 @@ impl BaseCDF for BlendCDF16 {
     fn div_by_max(&self, val:i32) -> i32 {
         return val>>self.log_max().unwrap()
     }
+    #[cfg(feature="avoid-divide")]
+    fn sym_to_start_and_freq_with_div_hint(&self,
+                                           sym: u8,
+                                           _inv_max_and_bitlen: (i64, u8)) -> SymStartFreq {
+        self.sym_to_start_and_freq(sym) // div_by_max is a shift here: the reciprocal of max() gives other results
+    }
     fn cdf(&self, symbol: u8) -> Prob {
         match symbol {
             15 => self.max(),
-- 
2.43.0

