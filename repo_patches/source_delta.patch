From 2238e510d39abc7e59194068a59537bd674aeb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 01/19] fix: do not hang when processing stops before the end
 of the videos

The receiver outlived the processing loop, so after an error (or a panic) in
a frame the sender thread stayed blocked on a full channel and the call never
returned. Report the processing error rather than the failed send it causes.
---
 av_metrics/src/video/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 24300a2..9a751a5 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -160,6 +160,9 @@ trait VideoMetric: Send + Sync {
         let vid_info = decoder1.get_video_details();
 
         let scope_result = crossbeam::scope(|s| {
+            // Owned by this closure, so that the sender stops waiting for room in the channel
+            // as soon as no more frames are going to be received, even if that is due to a panic.
+            let recv = recv;
             let send_result = s.spawn(move |_| {
                 let mut decoded = 0;
                 while frame_limit.map(|limit| limit > decoded).unwrap_or(true) {
@@ -217,6 +220,7 @@ trait VideoMetric: Send + Sync {
             }
 
             out = metrics;
+            drop(recv);
 
             (
                 send_result
@@ -228,14 +232,15 @@ trait VideoMetric: Send + Sync {
 
         match scope_result {
             Ok((send_error, process_error)) => {
-                if let Err(error) = send_error {
-                    return Err(MetricsError::SendError { reason: error }.into());
-                }
-
+                // Checked first: failing to process a frame makes sending the next ones fail.
                 if let Err(error) = process_error {
                     return Err(MetricsError::ProcessError { reason: error }.into());
                 }
 
+                if let Err(error) = send_error {
+                    return Err(MetricsError::SendError { reason: error }.into());
+                }
+
                 if out.is_empty() {
                     return Err(MetricsError::UnsupportedInput {
                         reason: "No readable frames found in one or more input files",
-- 
2.43.0


From 51c50eaa43e0119eb61e5af8f2423970c2392428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 02/19] fix: do not allocate for frame_limit frames up front

A limit larger than the clips (usize::MAX, say) panicked with a capacity
overflow or aborted on a failed allocation.
---
 av_metrics/src/video/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 9a751a5..10df303 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -187,7 +187,7 @@ trait VideoMetric: Send + Sync {
             });
 
             use rayon::prelude::*;
-            let mut metrics = Vec::with_capacity(frame_limit.unwrap_or(0));
+            let mut metrics = Vec::new();
             let mut process_error = Ok(());
             loop {
                 let working_set: Vec<_> = (0..num_threads)
-- 
2.43.0


From 443b6e3ffde3bea6f12aae52bbced760d0d1ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:34 +0000
Subject: [PATCH 03/19] fix: make scores independent of thread scheduling

Frames were aggregated in the order in which the workers happened to receive
them, and CIEDE2000 rows were summed in the order in which they were split, so
two runs on the same videos could differ in the last digits.
---
 av_metrics/src/video/ciede/mod.rs |  7 +++++--
 av_metrics/src/video/mod.rs       | 11 +++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/av_metrics/src/video/ciede/mod.rs b/av_metrics/src/video/ciede/mod.rs
index f021df6..adb42b8 100644
--- a/av_metrics/src/video/ciede/mod.rs
+++ b/av_metrics/src/video/ciede/mod.rs
@@ -151,8 +151,11 @@ impl VideoMetric for Ciede2000 {
             delta_e_vec.iter().map(|x| *x as f64).sum::<f64>()
         });
 
-        let score =
-            45. - 20. * (delta_e_per_line.sum::<f64>() / ((y_width * y_height) as f64)).log10();
+        // Summed in row order, as the result of a floating-point sum depends on the order.
+        let delta_e_per_line: Vec<f64> = delta_e_per_line.collect();
+        let delta_e_sum = delta_e_per_line.iter().sum::<f64>();
+
+        let score = 45. - 20. * (delta_e_sum / ((y_width * y_height) as f64)).log10();
         Ok(score.min(100.))
     }
 
diff --git a/av_metrics/src/video/mod.rs b/av_metrics/src/video/mod.rs
index 10df303..829b37f 100644
--- a/av_metrics/src/video/mod.rs
+++ b/av_metrics/src/video/mod.rs
@@ -171,8 +171,8 @@ trait VideoMetric: Send + Sync {
                     let frame2 = decoder2.read_video_frame::<P>();
                     if let (Some(frame1), Some(frame2)) = (frame1, frame2) {
                         progress_callback(decoded);
-                        if let Err(e) = send.send((frame1, frame2)) {
-                            let (frame1, frame2) = e.into_inner();
+                        if let Err(e) = send.send((decoded, frame1, frame2)) {
+                            let (_, frame1, frame2) = e.into_inner();
                             return Err(format!(
                                 "Error sending\n\nframe1: {frame1:?}\n\nframe2: {frame2:?}"
                             ));
@@ -194,13 +194,14 @@ trait VideoMetric: Send + Sync {
                     .into_par_iter()
                     .filter_map(|_w| {
                         recv.recv()
-                            .map(|(f1, f2)| {
+                            .map(|(frameno, f1, f2)| {
                                 self.process_frame(
                                     &f1,
                                     &f2,
                                     vid_info.bit_depth,
                                     vid_info.chroma_sampling,
                                 )
+                                .map(|metrics| (frameno, metrics))
                                 .map_err(|e| {
                                     format!("\n\n{e} on\n\nframe1: {f1:?}\n\nand\n\nframe2: {f2:?}")
                                 })
@@ -219,7 +220,9 @@ trait VideoMetric: Send + Sync {
                 }
             }
 
-            out = metrics;
+            // Frames are received in any order, but floating-point sums depend on it.
+            metrics.sort_by_key(|&(frameno, _)| frameno);
+            out = metrics.into_iter().map(|(_, metrics)| metrics).collect();
             drop(recv);
 
             (
-- 
2.43.0


From 95ec2ba7e7600fd79659bd9c0b834f0dd62afe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 04/19] fix: retry interrupted reads in the y4m decoder

A signal arriving while a y4m stream or frame header was read made opening
the stream fail, or ended the video early as if it had no more frames.
---
 av_metrics_decoders/src/y4m.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/av_metrics_decoders/src/y4m.rs b/av_metrics_decoders/src/y4m.rs
index 81cbb83..7370a08 100644
--- a/av_metrics_decoders/src/y4m.rs
+++ b/av_metrics_decoders/src/y4m.rs
@@ -1,12 +1,27 @@
 use av_metrics::video::decode::*;
 use av_metrics::video::*;
 use std::fs::File;
-use std::io::{stdin, BufReader, Read, Stdin};
+use std::io::{stdin, BufReader, ErrorKind, Read, Stdin};
 use std::path::Path;
 
 /// A decoder for a y4m input stream
 pub struct Y4MDecoder<R: Read + Send> {
-    inner: y4m::Decoder<R>,
+    inner: y4m::Decoder<RetryInterrupted<R>>,
+}
+
+/// Repeats reads interrupted by a signal. The `y4m` crate does so in the picture data only,
+/// and takes an interrupted read of a header for the end of the stream.
+struct RetryInterrupted<R>(R);
+
+impl<R: Read> Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+                result => return result,
+            }
+        }
+    }
 }
 
 /// Function to map y4m color space
@@ -31,14 +46,16 @@ pub fn new_decoder_from_file<P: AsRef<Path>>(
     input: P,
 ) -> Result<Y4MDecoder<BufReader<File>>, String> {
     let file = File::open(input).map_err(|e| e.to_string())?;
-    let inner = y4m::Decoder::new(BufReader::new(file)).map_err(|e| e.to_string())?;
+    let inner = y4m::Decoder::new(RetryInterrupted(BufReader::new(file)))
+        .map_err(|e| e.to_string())?;
     Ok(Y4MDecoder { inner })
 }
 
 /// Initialize a new Y4M decoder from stdin
 pub fn new_decoder_from_stdin() -> Result<Y4MDecoder<BufReader<Stdin>>, String> {
     Ok(Y4MDecoder {
-        inner: y4m::Decoder::new(BufReader::new(stdin())).map_err(|e| e.to_string())?,
+        inner: y4m::Decoder::new(RetryInterrupted(BufReader::new(stdin())))
+            .map_err(|e| e.to_string())?,
     })
 }
 
-- 
2.43.0


From ce48f43022ea82bcd53aed9feedf486e36579fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 05/19] fix: stop read_specific_frame at the end of the video

It went on reading past the end, once for every missing frame, and counted
failed reads as frames.
---
 av_metrics/src/video/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index c51455b..46c973e 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -24,9 +24,9 @@ pub trait Decoder: Send {
     fn read_specific_frame<T: Pixel>(&mut self, frame_number: usize) -> Option<Frame<T>> {
         let mut frame_no = 0;
         while frame_no <= frame_number {
-            let frame = self.read_video_frame();
-            if frame_no == frame_number && frame.is_some() {
-                return frame;
+            let frame = self.read_video_frame()?;
+            if frame_no == frame_number {
+                return Some(frame);
             }
             frame_no += 1;
         }
-- 
2.43.0


From fbc75b03de004757846fc6989d12f7dff0b24951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 06/19] fix: report failures to write the output files

Reports stay in the writer's buffer until it is dropped, where errors are
ignored: on a full disk the tool exited with success and truncated reports.
---
 av_metrics_tool/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4cbbe21..c9b1a1a 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -374,7 +374,8 @@ impl Report<'_> {
             }
         }
 
-        Ok(())
+        // Dropping the writer would ignore a failure to write out what is still buffered.
+        writer.flush().map_err(|err| err.to_string())
     }
 }
 
-- 
2.43.0


From 309e0ed70bd6a13654e3ebc14c4e5bb8d6924fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:10 +0000
Subject: [PATCH 07/19] fix: print results to stdout unless --quiet is given

`contains_id` is true for every flag, given or not, since clap 4, so nothing
was ever printed.
---
 av_metrics_tool/src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index c9b1a1a..4f85684 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -106,7 +106,7 @@ fn main() -> Result<(), String> {
             File::create(filename).map_err(|err| err.to_string())?,
         )));
     };
-    if !cli.contains_id("QUIET") {
+    if !cli.get_flag("QUIET") {
         writers.push(OutputType::Stdout(BufWriter::new(std::io::stdout())));
     }
 
@@ -128,8 +128,8 @@ fn main() -> Result<(), String> {
                     base,
                     input,
                     metrics,
-                    cli.contains_id("QUIET"),
-                    cli.contains_id("FRAMES"),
+                    cli.get_flag("QUIET"),
+                    cli.get_flag("FRAMES"),
                 ));
             }
             (InputType::Audio, InputType::Audio) => {
-- 
2.43.0


From 55d42bfcea1260065290249b83e0ce22bb90335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 08/19] fix: honour the plane stride when realigning chroma

---
 av_metrics/src/video/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 46c973e..fa513be 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -131,11 +131,12 @@ pub fn convert_chroma_data<T: Pixel>(
 
     let output_data = &mut plane_data.data;
     let width = plane_data.cfg.width;
+    let stride = plane_data.cfg.stride;
     let height = plane_data.cfg.height;
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-        let out_row = &mut output_data[(y * width)..];
+        let out_row = &mut output_data[(y * stride)..];
         let breakpoint = cmp::min(width, 2);
         for x in 0..breakpoint {
             out_row[x] = T::cast_from(clamp(
-- 
2.43.0


From 2c564c805ce42441ea8983bb04eb8e5be1455d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 09/19] fix: stop the FFmpeg decoder when reading the input
 fails

---
 av_metrics_decoders/src/ffmpeg.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 3843143..022655d 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -157,11 +157,14 @@ impl Decoder for FfmpegDecoder {
         loop {
             // This iterator is actually really stupid... it doesn't reset itself after each `new`.
             // But that solves our lifetime hell issues, ironically.
+            //
+            // Corrupt packets are skipped, other errors end the stream: they would be
+            // reported again and again.
             let packet = self
                 .input_ctx
                 .packets()
-                .filter_map(Result::ok)
-                .next()
+                .find(|packet| !matches!(packet, Err(ffmpeg::Error::InvalidData)))
+                .and_then(Result::ok)
                 .map(|(_, packet)| packet);
 
             let mut packet = if let Some(packet) = packet {
-- 
2.43.0


From 20ebf3de54cc268f052dc6beeb66262aaf22b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 10/19] fix: do not read past the source when realigning chroma
 of odd sizes

---
 av_metrics/src/video/decode.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index fa513be..1ce66ff 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -130,9 +130,10 @@ pub fn convert_chroma_data<T: Pixel>(
     };
 
     let output_data = &mut plane_data.data;
-    let width = plane_data.cfg.width;
+    // The plane may be larger than the source, as its dimensions are rounded up.
+    let width = cmp::min(plane_data.cfg.width, source_stride / source_bytewidth);
     let stride = plane_data.cfg.stride;
-    let height = plane_data.cfg.height;
+    let height = cmp::min(plane_data.cfg.height, source.len() / source_stride);
     for y in 0..height {
         // Filter: [4 -17 114 35 -9 1]/128, derived from a 6-tap Lanczos window.
         let in_row = &source[(y * source_stride)..];
-- 
2.43.0


From 6a13ac3f9253d39c6a7b67596a3e9da155e45179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:10 +0000
Subject: [PATCH 11/19] fix: honour FFmpeg's row alignment when copying its
 frames

The rows of a decoded frame are usually longer than the picture is wide;
taking them for packed sheared every picture whose size is not a multiple
of the alignment.
---
 av_metrics_decoders/src/ffmpeg.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 022655d..ab6fb58 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -119,12 +119,21 @@ impl FfmpegDecoder {
             .video_details
             .chroma_sampling
             .get_chroma_dimensions(width, height);
-        f.planes[0].copy_from_raw_u8(decoded.data(0), width * bytes, bytes);
+        // FFmpeg aligns its rows, so they are usually longer than the picture is wide.
+        let packed_plane = |plane: usize, row_bytes: usize| -> Vec<u8> {
+            decoded
+                .data(plane)
+                .chunks(decoded.stride(plane))
+                .flat_map(|row| &row[..row_bytes.min(row.len())])
+                .copied()
+                .collect()
+        };
+        f.planes[0].copy_from_raw_u8(&packed_plane(0, width * bytes), width * bytes, bytes);
         convert_chroma_data(
             &mut f.planes[1],
             self.video_details.chroma_sample_position,
             bit_depth,
-            decoded.data(1),
+            &packed_plane(1, chroma_width * bytes),
             chroma_width * bytes,
             bytes,
         );
@@ -132,7 +141,7 @@ impl FfmpegDecoder {
             &mut f.planes[2],
             self.video_details.chroma_sample_position,
             bit_depth,
-            decoded.data(2),
+            &packed_plane(2, chroma_width * bytes),
             chroma_width * bytes,
             bytes,
         );
-- 
2.43.0


From 43e01a06acf4cf00513d9bf4ac1c7703ec55703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 12/19] fix: count frames of inputs whose bit depths differ

Counting read both inputs with the pixel type of the first one, which
panics when the second one needs wider pixels.
---
 av_metrics_tool/src/main.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/av_metrics_tool/src/main.rs b/av_metrics_tool/src/main.rs
index 4f85684..5d90959 100644
--- a/av_metrics_tool/src/main.rs
+++ b/av_metrics_tool/src/main.rs
@@ -279,25 +279,29 @@ fn run_video_metrics(
 }
 
 #[inline(always)]
-fn count_frames<D: Decoder, P: Pixel>(dec1: &mut D, dec2: &mut D) -> u64 {
+fn count_frames<D: Decoder>(dec1: &mut D, dec2: &mut D) -> u64 {
     let mut frame_number = 0;
 
-    while dec1.read_video_frame::<P>().is_some() && dec2.read_video_frame::<P>().is_some() {
+    while has_frame(dec1) && has_frame(dec2) {
         frame_number += 1;
     }
     frame_number
 }
 
+fn has_frame<D: Decoder>(dec: &mut D) -> bool {
+    if dec.get_bit_depth() > 8 {
+        dec.read_video_frame::<u16>().is_some()
+    } else {
+        dec.read_video_frame::<u8>().is_some()
+    }
+}
+
 fn total_frames<P: AsRef<Path>>(input1: P, input2: P) -> u64 {
     let mut decoder1 =
         get_decoder(input1).expect("Failed to open input file 1 for counting frames");
     let mut decoder2 =
         get_decoder(input2).expect("Failed to open input file 2 for counting frames");
-    if decoder1.get_bit_depth() > 8 {
-        count_frames::<_, u16>(&mut decoder1, &mut decoder2)
-    } else {
-        count_frames::<_, u8>(&mut decoder1, &mut decoder2)
-    }
+    count_frames(&mut decoder1, &mut decoder2)
 }
 
 #[derive(Debug, Serialize, Default)]
-- 
2.43.0


From e0df5dc8c8148b7f1e617ea1a57079540d7ef712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/19] fix: realign chroma planes less than five samples wide

4:2:2 and 4:2:0 mpeg2 pictures up to eight pixels wide made the decoder panic.
---
 av_metrics/src/video/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/av_metrics/src/video/decode.rs b/av_metrics/src/video/decode.rs
index 1ce66ff..e8c716f 100644
--- a/av_metrics/src/video/decode.rs
+++ b/av_metrics/src/video/decode.rs
@@ -152,7 +152,7 @@ pub fn convert_chroma_data<T: Pixel>(
                 (1 << bit_depth) - 1,
             ));
         }
-        let breakpoint2 = width - 3;
+        let breakpoint2 = cmp::max(width.saturating_sub(3), breakpoint);
         for x in breakpoint..breakpoint2 {
             out_row[x] = T::cast_from(clamp(
                 (4 * get_pixel(in_row, x - 2) - 17 * get_pixel(in_row, x - 1)
-- 
2.43.0


From b1e7051576bfd3e2fa110ad673551cfc0a49a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 14/19] fix: report pictures too small for PSNR-HVS as an error

A plane smaller than one block made it panic, which took the command line tool
down, together with the results of all other metrics and inputs.
---
 av_metrics/src/video/psnr_hvs.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/av_metrics/src/video/psnr_hvs.rs b/av_metrics/src/video/psnr_hvs.rs
index ee12d06..77b1eb7 100644
--- a/av_metrics/src/video/psnr_hvs.rs
+++ b/av_metrics/src/video/psnr_hvs.rs
@@ -85,6 +85,16 @@ impl VideoMetric for PsnrHvs {
 
         frame1.can_compare(frame2)?;
 
+        if frame1
+            .planes
+            .iter()
+            .any(|plane| plane.cfg.width < 8 || plane.cfg.height < 8)
+        {
+            return Err(Box::new(MetricsError::UnsupportedInput {
+                reason: "PSNR-HVS requires planes of at least 8x8 samples",
+            }));
+        }
+
         let mut y = 0.0;
         let mut u = 0.0;
         let mut v = 0.0;
-- 
2.43.0


From d440e7c2af5f0aaf0a8ecc5994315dccb496f74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 15/19] fix: document the VapourSynth plugins, so that the
 feature builds

The crate denies missing documentation.
---
 av_metrics_decoders/src/vapoursynth.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index f4ec911..cb40ab5 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -237,9 +237,12 @@ impl Decoder for VapoursynthDecoder {
     }
 }
 
+/// The VapourSynth plugin a video file is loaded with
 #[derive(Clone, Copy, Debug, Default, PartialEq)]
 pub enum VapoursynthDecoderPlugin {
     #[default]
+    /// L-SMASH Works (`lsmas.LWLibavSource`)
     LSmash,
+    /// BestSource (`bs.VideoSource`)
     BestSource,
 }
-- 
2.43.0


From bc35ad03b2da49b00124caff74cd3e92ffda5f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 16/19] fix: open any file name with VapourSynth

A missing file made the decoder panic, and a line break in the name broke the script.
---
 av_metrics_decoders/src/vapoursynth.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index cb40ab5..a846675 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -31,12 +31,13 @@ impl VapoursynthDecoder {
         plugin: VapoursynthDecoderPlugin,
     ) -> Result<Self> {
         let escaped_filename = filename
-            .canonicalize()
-            .unwrap()
+            .canonicalize()?
             .to_string_lossy()
             .trim_start_matches(r"\\?\")
             .replace('\\', "\\\\")
-            .replace('"', "\\\"");
+            .replace('"', "\\\"")
+            .replace('\n', "\\n")
+            .replace('\r', "\\r");
         let script = format!(
             r#"
 import vapoursynth as vs
-- 
2.43.0


From b19a20207fc19f5fe6c85223633f3039f88ecdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 17/19] fix: report clips the VapourSynth decoder cannot
 represent when opening them

It panicked when such a clip's details or frames were read, or delivered wrong pictures.
---
 av_metrics_decoders/src/vapoursynth.rs | 35 ++++++++++++++++++++------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/av_metrics_decoders/src/vapoursynth.rs b/av_metrics_decoders/src/vapoursynth.rs
index a846675..13f6166 100644
--- a/av_metrics_decoders/src/vapoursynth.rs
+++ b/av_metrics_decoders/src/vapoursynth.rs
@@ -60,11 +60,7 @@ clip.set_output(0)
         );
         let env = Environment::from_script(&script)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
-        ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
-            "Currently only integer input is supported"
-        );
+        this.ensure_supported()?;
         Ok(this)
     }
 
@@ -72,12 +68,35 @@ clip.set_output(0)
     pub fn new_from_script(filename: &Path) -> Result<Self> {
         let env = Environment::from_file(filename, EvalFlags::SetWorkingDir)?;
         let this = Self { env, cur_frame: 0 };
-        this.get_node()?;
+        this.ensure_supported()?;
+        Ok(this)
+    }
+
+    /// Ensures that the clip is one which `read_video_frame` can deliver
+    fn ensure_supported(&self) -> Result<()> {
+        let format = self.get_format()?;
+        self.get_resolution()?;
+        self.get_frame_rate()?;
         ensure!(
-            this.get_format()?.sample_type() == SampleType::Integer,
+            format.sample_type() == SampleType::Integer,
             "Currently only integer input is supported"
         );
-        Ok(this)
+        ensure!(
+            format.bits_per_sample() <= 16,
+            "Bit depths above 16 are not supported"
+        );
+        ensure!(
+            format.color_family() != ColorFamily::Compat,
+            "Packed formats are not supported"
+        );
+        ensure!(
+            matches!(
+                (format.sub_sampling_w(), format.sub_sampling_h()),
+                (0, 0) | (1, 0) | (1, 1)
+            ),
+            "Only 4:2:0, 4:2:2 and 4:4:4 chroma subsampling is supported"
+        );
+        Ok(())
     }
 
     fn get_node(&self) -> Result<Node<'_>> {
-- 
2.43.0


From 7dff2784446b63a6ac9dd3e058ec958101e53270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:09 +0000
Subject: [PATCH 18/19] fix: deliver pictures whose size or format changes
 within a file

The FFmpeg decoder put them into frames of the first picture's size and format, cut off or
with empty margins, and panicked if they had fewer planes (in damaged Motion JPEG files).
---
 av_metrics_decoders/src/ffmpeg.rs | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index ab6fb58..926e3a9 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -18,6 +18,7 @@ pub struct FfmpegDecoder {
     input_ctx: context::Input,
     decoder: decoder::Video,
     video_details: VideoDetails,
+    format: format::pixel::Pixel,
     frameno: usize,
     stream_index: usize,
     end_of_stream: bool,
@@ -95,6 +96,7 @@ impl FfmpegDecoder {
                 ),
                 luma_padding: 0,
             },
+            format: decoder.format(),
             decoder,
             input_ctx,
             frameno: 0,
@@ -105,14 +107,11 @@ impl FfmpegDecoder {
     }
 
     fn decode_frame<T: Pixel>(&self, decoded: &frame::Video) -> Frame<T> {
-        let mut f: Frame<T> = Frame::new_with_padding(
-            self.video_details.width,
-            self.video_details.height,
-            self.video_details.chroma_sampling,
-            0,
-        );
-        let width = self.video_details.width;
-        let height = self.video_details.height;
+        // The size may change within a clip.
+        let width = decoded.width() as usize;
+        let height = decoded.height() as usize;
+        let mut f: Frame<T> =
+            Frame::new_with_padding(width, height, self.video_details.chroma_sampling, 0);
         let bit_depth = self.video_details.bit_depth;
         let bytes = if bit_depth > 8 { 2 } else { 1 };
         let (chroma_width, _) = self
@@ -149,6 +148,16 @@ impl FfmpegDecoder {
     }
 }
 
+/// FFmpeg has formats of their own for full range pictures, stored in the same way as others
+fn full_range_format(format: format::pixel::Pixel) -> format::pixel::Pixel {
+    match format {
+        format::pixel::Pixel::YUV420P => format::pixel::Pixel::YUVJ420P,
+        format::pixel::Pixel::YUV422P => format::pixel::Pixel::YUVJ422P,
+        format::pixel::Pixel::YUV444P => format::pixel::Pixel::YUVJ444P,
+        format => format,
+    }
+}
+
 impl Decoder for FfmpegDecoder {
     fn get_video_details(&self) -> VideoDetails {
         self.video_details
@@ -202,6 +211,14 @@ impl Decoder for FfmpegDecoder {
                 }
 
                 if self.decoder.receive_frame(&mut decoded).is_ok() {
+                    // In damaged clips, or clips put together, the format may change, too.
+                    // Such a picture cannot be a frame of this clip, so the clip ends here.
+                    if full_range_format(decoded.format()) != full_range_format(self.format) {
+                        self.end_of_stream = true;
+                        self.eof_sent = true;
+                        self.decoder.flush();
+                        return None;
+                    }
                     let f = self.decode_frame(&decoded);
                     self.frameno += 1;
                     return Some(f);
-- 
2.43.0


From 58f432cc6677c00cc340ed7e51b3441de86ed997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:47 +0000
Subject: [PATCH 19/19] fix: deliver every picture of packets that hold several

While the FFmpeg decoder still has pictures of an earlier packet, it refuses
the next one, which was then lost.
---
 av_metrics_decoders/src/ffmpeg.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/av_metrics_decoders/src/ffmpeg.rs b/av_metrics_decoders/src/ffmpeg.rs
index 926e3a9..0f6b6a8 100644
--- a/av_metrics_decoders/src/ffmpeg.rs
+++ b/av_metrics_decoders/src/ffmpeg.rs
@@ -5,6 +5,7 @@ use std::path::Path;
 use ffmpeg::codec::{decoder, packet};
 use ffmpeg::format::context;
 use ffmpeg::media::Type;
+use ffmpeg::util::error::EAGAIN;
 use ffmpeg::{format, frame};
 
 use av_metrics::video::decode::*;
@@ -23,6 +24,7 @@ pub struct FfmpegDecoder {
     stream_index: usize,
     end_of_stream: bool,
     eof_sent: bool,
+    refused_packet: Option<packet::Packet>,
 }
 
 impl FfmpegDecoder {
@@ -103,6 +105,7 @@ impl FfmpegDecoder {
             stream_index,
             end_of_stream: false,
             eof_sent: false,
+            refused_packet: None,
         })
     }
 
@@ -178,12 +181,13 @@ impl Decoder for FfmpegDecoder {
             //
             // Corrupt packets are skipped, other errors end the stream: they would be
             // reported again and again.
-            let packet = self
-                .input_ctx
-                .packets()
-                .find(|packet| !matches!(packet, Err(ffmpeg::Error::InvalidData)))
-                .and_then(Result::ok)
-                .map(|(_, packet)| packet);
+            let packet = self.refused_packet.take().or_else(|| {
+                self.input_ctx
+                    .packets()
+                    .find(|packet| !matches!(packet, Err(ffmpeg::Error::InvalidData)))
+                    .and_then(Result::ok)
+                    .map(|(_, packet)| packet)
+            });
 
             let mut packet = if let Some(packet) = packet {
                 packet
@@ -206,8 +210,15 @@ impl Decoder for FfmpegDecoder {
                 packet.set_pts(Some(self.frameno as i64));
                 packet.set_dts(Some(self.frameno as i64));
 
-                if !self.end_of_stream {
-                    let _ = self.decoder.send_packet(&packet);
+                // A packet may hold several pictures. The decoder accepts no further packet
+                // before they are received: this one has to be sent again.
+                let refused = !self.end_of_stream
+                    && matches!(
+                        self.decoder.send_packet(&packet),
+                        Err(ffmpeg::Error::Other { errno: EAGAIN })
+                    );
+                if refused {
+                    self.refused_packet = Some(packet);
                 }
 
                 if self.decoder.receive_frame(&mut decoded).is_ok() {
-- 
2.43.0

