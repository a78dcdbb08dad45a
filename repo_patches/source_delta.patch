From 541a39b7b26e771d45cfffbd08bfbc5584e68fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 01/33] fix: rgb to P010/P012/P016 wrote the last odd-width
 luma sample of every second row at column 0

---
 src/rgb_to_nv_p16.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index dfb28b7..c91c9c2 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -189,6 +189,7 @@ where
             let rgba1 = &rgba1[0..channels];
             let uv_dst = uv_dst.chunks_exact_mut(2).last().unwrap();
             let y_dst0 = y_dst0.chunks_exact_mut(2).into_remainder();
+            let y_dst1 = y_dst1.chunks_exact_mut(2).into_remainder();
 
             let r0 = rgba0[src_chans.get_r_channel_offset()] as i32;
             let g0 = rgba0[src_chans.get_g_channel_offset()] as i32;
-- 
2.43.0


From 7d4cd887d79c5d0c14de2dc3cc23cdbd7d12c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 02/33] fix: rgb16_to_p216 and rgba16_to_p216 were instantiated
 as 4:2:0

---
 src/rgb_to_nv_p16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index c91c9c2..2241d99 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -612,7 +612,7 @@ d_cnv!(
 d_cnv!(
     rgba16_to_p216,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGBA",
     16,
@@ -621,7 +621,7 @@ d_cnv!(
 d_cnv!(
     rgb16_to_p216,
     YuvSourceChannels::Rgb,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "P216",
     "RGB",
     16,
-- 
2.43.0


From 0146f4735b6ce09f212cc0caf974fc11fba42279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 03/33] fix: 4:2:0 rgb16 encoding reused the upper right
 pixel's luma for the lower right pixel

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ccd974d..c9a618e 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -642,7 +642,7 @@ fn rgbx_to_yuv_ant<
             let r11 = rgba11[src_chans.get_r_channel_offset()] as i32;
             let g11 = rgba11[src_chans.get_g_channel_offset()] as i32;
             let b11 = rgba11[src_chans.get_b_channel_offset()] as i32;
-            let y_11 = (r01 * transform.yr + g01 * transform.yg + b01 * transform.yb + bias_y)
+            let y_11 = (r11 * transform.yr + g11 * transform.yg + b11 * transform.yb + bias_y)
                 >> PRECISION;
             y_dst1[1] = transform_integer::<ENDIANNESS, BYTES_POSITION, BIT_DEPTH>(y_11);
 
-- 
2.43.0


From b3bcf3f6fcdc9e238c0fb45d7d9c2aa9f602e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 04/33] fix: 4:2:2 rgb16 encoding took the padding of a row for
 its last odd column

---
 src/rgb16_to_yuv_p16.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index c9a618e..183e800 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -780,7 +780,12 @@ fn rgbx_to_yuv_ant<
         }
 
         iter.for_each(|(((y_plane, u_plane), v_plane), rgba)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, rgba);
+            process_halved_chroma_row(
+                &mut y_plane[0..image.width as usize],
+                &mut u_plane[0..(image.width as usize).div_ceil(2)],
+                &mut v_plane[0..(image.width as usize).div_ceil(2)],
+                &rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From c9b929ab058b17a762746f52020366ad99d24538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 05/33] fix: rgba12_to_i212_be was instantiated as 4:2:0

---
 src/rgb16_to_yuv_p16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index 183e800..ad0b794 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -1074,7 +1074,7 @@ d_cvn!(
 d_cvn!(
     rgba12_to_i212_be,
     YuvSourceChannels::Rgba,
-    YuvChromaSubsampling::Yuv420,
+    YuvChromaSubsampling::Yuv422,
     "I212",
     "RGBA12",
     "rgba12",
-- 
2.43.0


From 7f3ee14c2732e1be37806b3aaf79fe06fc98461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 06/33] fix: AVX-512 rgb16 encoding dropped the chroma of a
 row's tail

---
 src/avx512bw/rgb_to_yuv_p16.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/avx512bw/rgb_to_yuv_p16.rs b/src/avx512bw/rgb_to_yuv_p16.rs
index 84adfe3..9ea1092 100644
--- a/src/avx512bw/rgb_to_yuv_p16.rs
+++ b/src/avx512bw/rgb_to_yuv_p16.rs
@@ -307,8 +307,6 @@ unsafe fn avx_rgba_to_yuv_impl<
         let diff = width - cx;
         assert!(diff <= 32);
         let mut src_buffer: [u16; 32 * 4] = [0; 32 * 4];
-        let mut u_buffer: [u16; 32] = [0; 32];
-        let mut v_buffer: [u16; 32] = [0; 32];
 
         // Replicate last item to one more position for subsampling
         if chroma_subsampling != YuvChromaSubsampling::Yuv444 && diff % 2 != 0 {
@@ -378,8 +376,16 @@ unsafe fn avx_rgba_to_yuv_impl<
                 cr_vl = _mm512_shuffle_epi8(cr_vl, big_endian_shuffle_flag);
             }
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, mask, cb_vl);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, mask, cr_vl);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cb_vl,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                mask,
+                cr_vl,
+            );
         } else {
             let r_values = _mm512_havg_epi16_epi32(r_values);
             let g_values = _mm512_havg_epi16_epi32(g_values);
@@ -408,8 +414,16 @@ unsafe fn avx_rgba_to_yuv_impl<
 
             let halved_mask = 0xffff_ffffu32 >> (32 - diff.div_ceil(2) as u32);
 
-            _mm512_mask_storeu_epi16(u_buffer.as_mut_ptr() as *mut _, halved_mask, cb_s);
-            _mm512_mask_storeu_epi16(v_buffer.as_mut_ptr() as *mut _, halved_mask, cr_s);
+            _mm512_mask_storeu_epi16(
+                u_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cb_s,
+            );
+            _mm512_mask_storeu_epi16(
+                v_plane.get_unchecked_mut(ux..).as_mut_ptr() as *mut _,
+                halved_mask,
+                cr_s,
+            );
         }
 
         cx += diff;
-- 
2.43.0


From 3478c6dd6cab292d1ce03e699c25190a78cc0c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 07/33] fix: SSE 4:2:0 rgb16 encoding used the first row's
 green for the second row's luma

---
 src/sse/rgb_to_yuv_p16_420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgb_to_yuv_p16_420.rs b/src/sse/rgb_to_yuv_p16_420.rs
index a1310b7..244af76 100644
--- a/src/sse/rgb_to_yuv_p16_420.rs
+++ b/src/sse/rgb_to_yuv_p16_420.rs
@@ -126,7 +126,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
@@ -240,7 +240,7 @@ unsafe fn sse_rgba_to_yuv_impl<
         let mut y0_vl =
             _mm_affine_v_dot::<PRECISION>(y_bias, r_g_lo0, r_g_hi0, b_lo0, b_hi0, v_yr_yg, v_yb);
 
-        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values0);
+        let (r_g_lo1, r_g_hi1) = _mm_interleave_epi16(r_values1, g_values1);
         let b_hi1 = _mm_unpackhi_epi16(b_values1, zeros);
         let b_lo1 = _mm_unpacklo_epi16(b_values1, zeros);
 
-- 
2.43.0


From 42a161b1831b34d2f54014263a385154b1f73d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 08/33] fix: AVX-512 VNNI fast encoding added the luma and
 chroma bias twice

---
 src/avx512bw/rgba_to_yuv_fast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx512bw/rgba_to_yuv_fast.rs b/src/avx512bw/rgba_to_yuv_fast.rs
index 8715b4c..3ec1908 100644
--- a/src/avx512bw/rgba_to_yuv_fast.rs
+++ b/src/avx512bw/rgba_to_yuv_fast.rs
@@ -593,8 +593,8 @@ unsafe fn avx512_rgba_to_yuv_dot_rgba_impl_dot_impl<
         source_channels == YuvSourceChannels::Rgb || source_channels == YuvSourceChannels::Bgr;
 
     const A_E: u32 = 7;
-    let y_bias = _mm512_set1_epi16(range.bias_y as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
-    let uv_bias = _mm512_set1_epi16(range.bias_uv as i16 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let y_bias = _mm512_set1_epi32(range.bias_y as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
+    let uv_bias = _mm512_set1_epi32(range.bias_uv as i32 * (1 << A_E) + (1 << (A_E - 1)) - 1);
 
     let y_weights = if is_rgbx {
         _mm512_set4r_epi8(
-- 
2.43.0


From 463eacb1c9bda64960a4a2490984cc05f98d330b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 09/33] fix: fast mode full range BT.2020 luma weights summed
 above one and turned white into black

---
 src/yuv_support.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 8c4f39d..64cba92 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -778,7 +778,13 @@ pub(crate) fn search_forward_transform(
             kr_kb.kr,
             kr_kb.kb,
         );
-        transform_precise.to_integers(precision as u32)
+        let mut transform = transform_precise.to_integers(precision as u32);
+        if precision == 7 {
+            // Rounded up luma weights must not exceed unity, otherwise white overflows
+            let excess = transform.yr + transform.yg + transform.yb - (1 << precision);
+            transform.yg -= excess.max(0);
+        }
+        transform
     }
 }
 
-- 
2.43.0


From 44fa97b0127083291bd6729de3a4c30d66fa5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 10/33] fix: rgb_to_ycgco scaled limited range chroma by the
 luma range in 4:4:4 and in odd last columns

---
 src/rgb_to_ycgco.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rgb_to_ycgco.rs b/src/rgb_to_ycgco.rs
index 6a25409..155d186 100644
--- a/src/rgb_to_ycgco.rs
+++ b/src/rgb_to_ycgco.rs
@@ -124,7 +124,7 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
 
                 *y_last = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
                 g0 *= range_reduction_uv as i32;
                 b0 *= range_reduction_uv as i32;
 
@@ -291,9 +291,9 @@ fn rgbx_to_ycgco<const ORIGIN_CHANNELS: u8, const SAMPLING: u8>(
                     >> PRECISION;
                 *y_dst = y_0 as u8;
 
-                r0 *= range_reduction_y as i32;
-                g0 *= range_reduction_y as i32;
-                b0 *= range_reduction_y as i32;
+                r0 *= range_reduction_uv as i32;
+                g0 *= range_reduction_uv as i32;
+                b0 *= range_reduction_uv as i32;
 
                 let cg = (((g0 >> 1) - ((r0 + b0) >> 2)) + bias_uv) >> PRECISION;
                 let co = (((r0 - b0) >> 1) + bias_uv) >> PRECISION;
-- 
2.43.0


From aac09344143c4adb3baf5708394b6f22ba292d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 11/33] fix: SSE and AVX-512 decoders subtracted the luma bias
 with signed saturation

---
 src/avx512bw/y_to_rgb.rs     | 4 ++--
 src/sse/y_to_rgba.rs         | 4 ++--
 src/sse/y_to_rgba_alpha.rs   | 2 +-
 src/sse/yuv_nv_to_rgba.rs    | 4 ++--
 src/sse/yuv_nv_to_rgba420.rs | 8 ++++----
 src/sse/yuv_nv_to_rgba422.rs | 4 ++--
 src/sse/yuv_to_rgba.rs       | 2 +-
 src/sse/yuv_to_rgba422.rs    | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/avx512bw/y_to_rgb.rs b/src/avx512bw/y_to_rgb.rs
index ef3ee28..46e830c 100644
--- a/src/avx512bw/y_to_rgb.rs
+++ b/src/avx512bw/y_to_rgb.rs
@@ -104,7 +104,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
     let v_alpha = _mm512_set1_epi8(255u8 as i8);
 
     while cx + 64 < width {
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_ptr.add(cx) as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
@@ -143,7 +143,7 @@ unsafe fn avx512_y_to_rgb_row_impl<const DESTINATION_CHANNELS: u8, const HAS_VBM
             diff,
         );
 
-        let y_s = _mm512_subs_epi8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
+        let y_s = _mm512_subs_epu8(_mm512_loadu_si512(y_buffer.as_ptr() as *const i32), y_corr);
 
         let y10 = _mm512_expand8_unordered_to_10(y_s);
 
diff --git a/src/sse/y_to_rgba.rs b/src/sse/y_to_rgba.rs
index e0b899b..9b5a658 100644
--- a/src/sse/y_to_rgba.rs
+++ b/src/sse/y_to_rgba.rs
@@ -101,7 +101,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
@@ -134,7 +134,7 @@ unsafe fn sse_y_to_rgba_row_impl<const DESTINATION_CHANNELS: u8>(
             diff,
         );
 
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_buffer.as_ptr()), y_corr);
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
 
diff --git a/src/sse/y_to_rgba_alpha.rs b/src/sse/y_to_rgba_alpha.rs
index 2fad23b..c8ce57d 100644
--- a/src/sse/y_to_rgba_alpha.rs
+++ b/src/sse/y_to_rgba_alpha.rs
@@ -104,7 +104,7 @@ unsafe fn sse_y_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_mm_loadu_si64(y_ptr.add(cx)), y_corr);
         let a_values = _mm_loadu_si64(a_plane.get_unchecked(cx..).as_ptr());
 
         let v_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba.rs b/src/sse/yuv_nv_to_rgba.rs
index deb8fb5..394ffe0 100644
--- a/src/sse/yuv_nv_to_rgba.rs
+++ b/src/sse/yuv_nv_to_rgba.rs
@@ -264,7 +264,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
@@ -383,7 +383,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl<
             }
         }
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
         let u_low = _mm_sub_epi16(u_low_u16, uv_corr);
         let v_low = _mm_sub_epi16(v_low_u16, uv_corr);
         let y_low = _mm_mulhrs_epi16(_mm_expand8_lo_to_10(y_values), v_luma_coeff);
diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 23240ef..5be0faa 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -190,8 +190,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_ptr.add(uv_x));
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
@@ -291,8 +291,8 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let uv_values_ = _mm_loadu_si64(uv_buffer.as_ptr());
 
-        let y_values0 = _mm_subs_epi8(y_vl0, y_corr);
-        let y_values1 = _mm_subs_epi8(y_vl1, y_corr);
+        let y_values0 = _mm_subs_epu8(y_vl0, y_corr);
+        let y_values1 = _mm_subs_epu8(y_vl1, y_corr);
         let (mut u, mut v) = _mm_deinterleave_x2_epi8(uv_values_, zeros);
 
         if order == YuvNVOrder::VU {
diff --git a/src/sse/yuv_nv_to_rgba422.rs b/src/sse/yuv_nv_to_rgba422.rs
index 6174767..60520b9 100644
--- a/src/sse/yuv_nv_to_rgba422.rs
+++ b/src/sse/yuv_nv_to_rgba422.rs
@@ -163,7 +163,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
@@ -238,7 +238,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl422<const UV_ORDER: u8, const DESTINATION_CHANN
 
         let distribute_shuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-        let y_values = _mm_subs_epi8(y_vl0, y_corr);
+        let y_values = _mm_subs_epu8(y_vl0, y_corr);
 
         u = _mm_shuffle_epi8(u, distribute_shuffle);
         v = _mm_shuffle_epi8(v, distribute_shuffle);
diff --git a/src/sse/yuv_to_rgba.rs b/src/sse/yuv_to_rgba.rs
index 32ab642..ea7da7e 100644
--- a/src/sse/yuv_to_rgba.rs
+++ b/src/sse/yuv_to_rgba.rs
@@ -176,7 +176,7 @@ unsafe fn sse_yuv_to_rgba_row_impl<const DESTINATION_CHANNELS: u8, const SAMPLIN
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let (u_low_u16, v_low_u16);
 
diff --git a/src/sse/yuv_to_rgba422.rs b/src/sse/yuv_to_rgba422.rs
index b7ad4e2..f72f4df 100644
--- a/src/sse/yuv_to_rgba422.rs
+++ b/src/sse/yuv_to_rgba422.rs
@@ -157,7 +157,7 @@ unsafe fn sse_yuv_to_rgba_row_impl422<const DESTINATION_CHANNELS: u8>(
     }
 
     while cx + 8 < width {
-        let y_values = _mm_subs_epi8(_xx_load_si64(y_ptr.add(cx)), y_corr);
+        let y_values = _mm_subs_epu8(_xx_load_si64(y_ptr.add(cx)), y_corr);
 
         let reshuffle = _mm_setr_epi8(0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3);
 
-- 
2.43.0


From 28b894b7dbb8ac938ca883cd3e64cad5c9866865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 12/33] fix: SSE NV12/NV21 decoding scaled Cb by the Cr
 coefficient in row tails

---
 src/sse/yuv_nv_to_rgba420.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/yuv_nv_to_rgba420.rs b/src/sse/yuv_nv_to_rgba420.rs
index 5be0faa..bdf5d40 100644
--- a/src/sse/yuv_nv_to_rgba420.rs
+++ b/src/sse/yuv_nv_to_rgba420.rs
@@ -218,7 +218,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
@@ -319,7 +319,7 @@ unsafe fn sse_yuv_nv_to_rgba_impl420<const UV_ORDER: u8, const DESTINATION_CHANN
         );
 
         let v_cr_lo = _mm_mulhrs_epi16(v_low, v_cr_coeff);
-        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cr_coeff);
+        let v_cb_lo = _mm_mulhrs_epi16(u_low, v_cb_coeff);
 
         let r_low0 = _mm_add_epi16(y_low0, v_cr_lo);
         let b_low0 = _mm_add_epi16(y_low0, v_cb_lo);
-- 
2.43.0


From 31e593591291cdcf28ed12db65e9c4dafbc1cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:46 +0000
Subject: [PATCH 13/33] fix: SSE NV high bit-depth decoding unpacked chroma
 pairs as 32-bit lanes

---
 src/sse/yuv_nv_p16_to_rgb.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sse/yuv_nv_p16_to_rgb.rs b/src/sse/yuv_nv_p16_to_rgb.rs
index a3d77f3..a9d68a1 100644
--- a/src/sse/yuv_nv_p16_to_rgb.rs
+++ b/src/sse/yuv_nv_p16_to_rgb.rs
@@ -177,8 +177,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let u_values_c = _mm_sub_epi16(u_vl, uv_corr);
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr);
 
-                let u_values_32 = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                let v_values_32 = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                let u_values_32 = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                let v_values_32 = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
 
                 u_high = _mm_unpackhi_epi32(u_values_32, u_values_32);
                 v_high = _mm_unpackhi_epi32(v_values_32, v_values_32);
@@ -213,8 +213,8 @@ unsafe fn sse_yuv_nv_p16_to_rgba_row_impl<
                 let v_values_c = _mm_sub_epi16(v_vl, uv_corr_q);
                 u_high = _mm_unpackhi_epi16(u_values_c, zeros);
                 v_high = _mm_unpackhi_epi16(v_values_c, zeros);
-                u_low = _mm_unpacklo_epi32(u_values_c, _mm_setzero_si128());
-                v_low = _mm_unpacklo_epi32(v_values_c, _mm_setzero_si128());
+                u_low = _mm_unpacklo_epi16(u_values_c, _mm_setzero_si128());
+                v_low = _mm_unpacklo_epi16(v_values_c, _mm_setzero_si128());
             }
         }
 
-- 
2.43.0


From 75e97279b00c1c505780bdeb5c74316ccddb7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 14/33] fix: 10 and 12 bit YUV to 8 bit RGB wrapped bright
 channels, wrote low alpha, and stored the wrong channel order for big-endian
 BGRA

---
 src/avx2/yuv_p16_to_rgb8.rs     |  2 +-
 src/avx512bw/yuv_p16_to_rgb8.rs |  2 +-
 src/sse/yuv_p16_to_rgb8.rs      |  2 +-
 src/yuv_p10_rgba.rs             | 13 ++++++-------
 4 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8.rs b/src/avx2/yuv_p16_to_rgb8.rs
index b372277..d9771ec 100644
--- a/src/avx2/yuv_p16_to_rgb8.rs
+++ b/src/avx2/yuv_p16_to_rgb8.rs
@@ -109,7 +109,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm256_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm256_set1_epi8(255u8 as i8);
 
     let y_corr = _mm256_set1_epi16(bias_y as i16);
     let uv_corr = _mm256_set1_epi16(bias_uv as i16);
diff --git a/src/avx512bw/yuv_p16_to_rgb8.rs b/src/avx512bw/yuv_p16_to_rgb8.rs
index b1d4f44..df4b568 100644
--- a/src/avx512bw/yuv_p16_to_rgb8.rs
+++ b/src/avx512bw/yuv_p16_to_rgb8.rs
@@ -189,7 +189,7 @@ unsafe fn avx_yuv_p16_to_rgba_row8_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm512_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm512_set1_epi8(255u8 as i8);
 
     let y_corr = _mm512_set1_epi16(bias_y as i16);
     let uv_corr = _mm512_set1_epi16(bias_uv as i16);
diff --git a/src/sse/yuv_p16_to_rgb8.rs b/src/sse/yuv_p16_to_rgb8.rs
index da80224..97469b6 100644
--- a/src/sse/yuv_p16_to_rgb8.rs
+++ b/src/sse/yuv_p16_to_rgb8.rs
@@ -108,7 +108,7 @@ unsafe fn sse_yuv_p16_to_rgba8_row_impl<
 
     let dst_ptr = bgra;
 
-    let v_max_colors = _mm_set1_epi16((1i16 << BIT_DEPTH as i16) - 1);
+    let v_max_colors = _mm_set1_epi8(255u8 as i8);
 
     let y_corr = _mm_set1_epi16(bias_y as i16);
     let uv_corr = _mm_set1_epi16(bias_uv as i16);
diff --git a/src/yuv_p10_rgba.rs b/src/yuv_p10_rgba.rs
index ce4bed4..ed9496a 100644
--- a/src/yuv_p10_rgba.rs
+++ b/src/yuv_p10_rgba.rs
@@ -83,7 +83,7 @@ fn yuv_p16_to_image_ant<
         stored
     } else {
         let transform = get_inverse_transform(
-            BIT_DEPTH as u32,
+            (1u32 << BIT_DEPTH) - 1,
             chroma_range.range_y,
             chroma_range.range_uv,
             kr_kb.kr,
@@ -147,8 +147,7 @@ fn yuv_p16_to_image_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
-        ((val + rounding) >> total_shift).min(max_value).max(0)
+        ((val + rounding) >> total_shift).min(255).max(0)
     }
 
     let process_wide_row =
@@ -542,7 +541,7 @@ build_cnv!(
 build_cnv!(
     i010_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -630,7 +629,7 @@ build_cnv!(
 build_cnv!(
     i210_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     10,
     "YUV 420 10-bit",
     "BGRA",
@@ -718,7 +717,7 @@ build_cnv!(
 build_cnv!(
     i012_be_to_bgra,
     YuvChromaSubsampling::Yuv420,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
@@ -806,7 +805,7 @@ build_cnv!(
 build_cnv!(
     i212_be_to_bgra,
     YuvChromaSubsampling::Yuv422,
-    YuvSourceChannels::Rgba,
+    YuvSourceChannels::Bgra,
     12,
     "YUV 420 12-bit",
     "BGRA",
-- 
2.43.0


From a88a956807a7c1ccddd3651a10450a707237093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 15/33] fix: 10 and 12 bit YUVA to 8 bit RGBA wrapped bright
 channels, stored past the row, and misread alpha

---
 src/avx2/yuv_p16_to_rgb8_alpha.rs | 37 +++++++++++++++++++++----------
 src/sse/yuv_p16_to_rgb8_alpha.rs  | 19 +++++++++++-----
 src/yuv_p16_rgba_alpha.rs         | 27 ++++++++++++++++------
 3 files changed, 59 insertions(+), 24 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb8_alpha.rs b/src/avx2/yuv_p16_to_rgb8_alpha.rs
index 6bdbc80..6a7af0d 100644
--- a/src/avx2/yuv_p16_to_rgb8_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb8_alpha.rs
@@ -253,13 +253,22 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let b_vals1 = _mm256_add_epi16(y_vals1, bvl1);
         let g_vals1 = _mm256_add_epi16(_mm256_add_epi16(y_vals1, gvl10), gvl11);
 
+        let mut a_vl0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_vl1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl0 = _mm256_shuffle_epi8(a_vl0, big_endian_shuffle_flag);
+            a_vl1 = _mm256_shuffle_epi8(a_vl1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl0);
+            a_vl1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl1);
+        }
+
         let a_values0 = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl0),
+            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl1),
         );
 
         let r_values0 = avx2_pack_u16(
@@ -379,12 +388,16 @@ unsafe fn avx_yuv_p16_to_rgba8_row_alpha_impl<
         let g_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(g_vals), zeros);
         let b_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(b_vals), zeros);
 
-        let a_values = avx2_pack_u16(
-            _mm256_store_shr_epi16_epi8::<BIT_DEPTH>(_mm256_loadu_si256(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m256i,
-            )),
-            zeros,
-        );
+        let mut a_vl = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm256_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm256_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+
+        let a_values = avx2_pack_u16(_mm256_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl), zeros);
 
         _mm256_store_interleave_rgb_half_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb8_alpha.rs b/src/sse/yuv_p16_to_rgb8_alpha.rs
index 8dec168..ff45b51 100644
--- a/src/sse/yuv_p16_to_rgb8_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb8_alpha.rs
@@ -33,7 +33,9 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 use crate::internals::ProcessedOffset;
-use crate::sse::{_mm_from_msb_epi16, _mm_store_interleave_rgb_for_yuv, _mm_store_shr_epi16_epi8};
+use crate::sse::{
+    _mm_from_msb_epi16, _mm_store_interleave_half_rgb_for_yuv, _mm_store_shr_epi16_epi8,
+};
 use crate::yuv_support::{
     CbCrInverseTransform, YuvBytesPacking, YuvChromaRange, YuvChromaSubsampling, YuvEndianness,
     YuvSourceChannels,
@@ -210,14 +212,21 @@ unsafe fn sse_yuv_p16_to_rgba8_alpha_row_impl<
             _mm_setzero_si128(),
         );
 
+        let mut a_vl = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_vl = _mm_shuffle_epi8(a_vl, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_vl = _mm_from_msb_epi16::<BIT_DEPTH>(a_vl);
+        }
+
         let a_values = _mm_packus_epi16(
-            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(_mm_loadu_si128(
-                a_plane.get_unchecked(cx..).as_ptr() as *const __m128i,
-            )),
+            _mm_store_shr_epi16_epi8::<BIT_DEPTH>(a_vl),
             _mm_setzero_si128(),
         );
 
-        _mm_store_interleave_rgb_for_yuv::<DESTINATION_CHANNELS>(
+        _mm_store_interleave_half_rgb_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
             r_values,
             g_values,
diff --git a/src/yuv_p16_rgba_alpha.rs b/src/yuv_p16_rgba_alpha.rs
index 52178d2..e93fa15 100644
--- a/src/yuv_p16_rgba_alpha.rs
+++ b/src/yuv_p16_rgba_alpha.rs
@@ -105,8 +105,7 @@ fn yuv_p16_to_image_alpha_ant<
     fn qrshr<const BIT_DEPTH: usize>(val: i32) -> i32 {
         let total_shift = PRECISION + (BIT_DEPTH as i32 - 8);
         let rounding: i32 = 1 << (total_shift - 1);
-        let max_value: i32 = (1 << BIT_DEPTH) - 1;
-        ((val + rounding) >> total_shift).min(max_value).max(0)
+        ((val + rounding) >> total_shift).min(255).max(0)
     }
 
     let process_wide_row = |_y_plane: &[u16],
@@ -231,7 +230,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_src[0] >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift) >> store_shift).min(255)
+                    as u8;
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -245,7 +246,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u8;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u8;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u8;
-            rgba1[dst_chans.get_a_channel_offset()] = (a_src[1] >> store_shift).min(255) as u8;
+            rgba1[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift) >> store_shift).min(255)
+                    as u8;
         }
 
         if image.width & 1 != 0 {
@@ -269,7 +272,9 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u8;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u8;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u8;
-            rgba0[dst_chans.get_a_channel_offset()] = (a_value >> store_shift).min(255) as u8;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                (to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift) >> store_shift).min(255)
+                    as u8;
         }
     };
 
@@ -320,7 +325,9 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u8;
                 rgba[dst_chans.get_g_channel_offset()] = g as u8;
                 rgba[dst_chans.get_b_channel_offset()] = b as u8;
-                rgba[dst_chans.get_a_channel_offset()] = (a_src >> store_shift).min(255) as u8;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    (to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift) >> store_shift).min(255)
+                        as u8;
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
@@ -344,7 +351,13 @@ fn yuv_p16_to_image_alpha_ant<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|((((rgba, y_plane), a_plane), u_plane), v_plane)| {
-            process_halved_chroma_row(y_plane, u_plane, v_plane, a_plane, rgba);
+            process_halved_chroma_row(
+                &y_plane[0..image.width as usize],
+                &u_plane[0..(image.width as usize).div_ceil(2)],
+                &v_plane[0..(image.width as usize).div_ceil(2)],
+                &a_plane[0..image.width as usize],
+                &mut rgba[0..image.width as usize * channels],
+            );
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv420 {
         let iter;
-- 
2.43.0


From 47dd2558307e3388bc4f1cd23ef6e685534bc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 16/33] fix: high bit-depth YUVA to RGBA ignored the byte order
 of alpha and repeated the first lane of alpha in AVX2

---
 src/avx2/yuv_p16_to_rgb16_alpha.rs | 25 ++++++++++++++++++++++---
 src/sse/yuv_p16_to_rgb16_alpha.rs  |  9 ++++++++-
 src/yuv_p16_rgba16_alpha.rs        | 18 +++++++++++-------
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb16_alpha.rs b/src/avx2/yuv_p16_to_rgb16_alpha.rs
index 4b25b4b..6aa8269 100644
--- a/src/avx2/yuv_p16_to_rgb16_alpha.rs
+++ b/src/avx2/yuv_p16_to_rgb16_alpha.rs
@@ -269,8 +269,19 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values1 = _mm256_min_epu16(zg1, v_max_colors);
         let b_values1 = _mm256_min_epu16(zb1, v_max_colors);
 
-        let a_values0 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
-        let a_values1 = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values0 =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values1 =
+            _mm256_loadu_si256(a_plane.get_unchecked((cx + 16)..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values0 = _mm256_shuffle_epi8(a_values0, big_endian_shuffle_flag);
+            a_values1 = _mm256_shuffle_epi8(a_values1, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values0 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values0);
+            a_values1 = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values1);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
@@ -379,7 +390,15 @@ unsafe fn avx_yuv_p16_to_rgba_row_alpha_impl<
         let g_values = _mm256_min_epu16(_mm256_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm256_min_epu16(_mm256_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        let mut a_values =
+            _mm256_loadu_si256(a_plane.get_unchecked(cx..).as_ptr() as *const __m256i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm256_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm256_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm256_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/sse/yuv_p16_to_rgb16_alpha.rs b/src/sse/yuv_p16_to_rgb16_alpha.rs
index 4f73c89..05e36cc 100644
--- a/src/sse/yuv_p16_to_rgb16_alpha.rs
+++ b/src/sse/yuv_p16_to_rgb16_alpha.rs
@@ -207,7 +207,14 @@ unsafe fn sse_yuv_p16_to_rgba_alpha_row_impl<
         let g_values = _mm_min_epu16(_mm_max_epi16(g_vals, zeros), v_max_colors);
         let b_values = _mm_min_epu16(_mm_max_epi16(b_vals, zeros), v_max_colors);
 
-        let a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        let mut a_values = _mm_loadu_si128(a_plane.get_unchecked(cx..).as_ptr() as *const __m128i);
+        #[cfg(feature = "big_endian")]
+        if _endianness == YuvEndianness::BigEndian {
+            a_values = _mm_shuffle_epi8(a_values, big_endian_shuffle_flag);
+        }
+        if bytes_position == YuvBytesPacking::MostSignificantBytes {
+            a_values = _mm_from_msb_epi16::<BIT_DEPTH>(a_values);
+        }
 
         _mm_store_interleave_rgb16_for_yuv::<DESTINATION_CHANNELS>(
             dst_ptr.as_mut_ptr(),
diff --git a/src/yuv_p16_rgba16_alpha.rs b/src/yuv_p16_rgba16_alpha.rs
index 936bfaf..2043ac8 100644
--- a/src/yuv_p16_rgba16_alpha.rs
+++ b/src/yuv_p16_rgba16_alpha.rs
@@ -247,7 +247,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_src[0];
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[0], msb_shift);
 
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
@@ -262,7 +263,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba1[dst_chans.get_r_channel_offset()] = r1 as u16;
             rgba1[dst_chans.get_g_channel_offset()] = g1 as u16;
             rgba1[dst_chans.get_b_channel_offset()] = b1 as u16;
-            rgba1[dst_chans.get_a_channel_offset()] = a_src[1];
+            rgba1[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_src[1], msb_shift);
         }
 
         if image.width & 1 != 0 {
@@ -287,7 +289,8 @@ fn yuv_p16_to_image_alpha_ant<
             rgba0[dst_chans.get_r_channel_offset()] = r0 as u16;
             rgba0[dst_chans.get_g_channel_offset()] = g0 as u16;
             rgba0[dst_chans.get_b_channel_offset()] = b0 as u16;
-            rgba0[dst_chans.get_a_channel_offset()] = a_value;
+            rgba0[dst_chans.get_a_channel_offset()] =
+                to_ne::<ENDIANNESS, BYTES_POSITION>(a_value, msb_shift);
         }
     };
 
@@ -340,7 +343,8 @@ fn yuv_p16_to_image_alpha_ant<
                 rgba[dst_chans.get_r_channel_offset()] = r as u16;
                 rgba[dst_chans.get_g_channel_offset()] = g as u16;
                 rgba[dst_chans.get_b_channel_offset()] = b as u16;
-                rgba[dst_chans.get_a_channel_offset()] = a_src;
+                rgba[dst_chans.get_a_channel_offset()] =
+                    to_ne::<ENDIANNESS, BYTES_POSITION>(a_src, msb_shift);
             }
         });
     } else if chroma_subsampling == YuvChromaSubsampling::Yuv422 {
@@ -521,7 +525,7 @@ d_cnv!(
     i210_alpha_be_to_rgba10,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I210ABE",
     "RGBA",
     "rgba",
@@ -607,7 +611,7 @@ d_cnv!(
     i212_be_alpha_to_rgba12,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I212ABE",
     "RGBA",
     "rgba",
@@ -628,7 +632,7 @@ d_cnv!(
     i214_be_alpha_to_rgba14,
     YuvSourceChannels::Rgba,
     YuvChromaSubsampling::Yuv422,
-    YuvEndianness::LittleEndian,
+    YuvEndianness::BigEndian,
     "I214ABE",
     "RGBA",
     "rgba",
-- 
2.43.0


From 05b55a9f40d336b6c6d556832465416d52d70991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 17/33] fix: AVX2 planar YUV to RGBA f16 stored an integer as
 the opaque alpha

---
 src/avx2/yuv_p16_to_rgb_f16.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/avx2/yuv_p16_to_rgb_f16.rs b/src/avx2/yuv_p16_to_rgb_f16.rs
index 42f3cdc..c6bff0b 100644
--- a/src/avx2/yuv_p16_to_rgb_f16.rs
+++ b/src/avx2/yuv_p16_to_rgb_f16.rs
@@ -106,6 +106,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
     const D: bool = false;
 
     let v_max_colors = _mm256_set1_epi16(((1i32 << BIT_DEPTH as i32) - 1i32) as i16);
+    let v_alpha = _mm256_set1_epi16(0x3c00); // 1.0 in f16
     let v_luma_coeff = if BIT_DEPTH == 16 {
         _mm256_set1_epi32(transform.y_coef)
     } else {
@@ -279,7 +280,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         cx += 16;
@@ -466,7 +467,7 @@ unsafe fn avx_yuv_p16_to_rgba_row_impl<
             _mm256_setr_m128i(r_lo, r_hi),
             _mm256_setr_m128i(g_lo, g_hi),
             _mm256_setr_m128i(b_lo, b_hi),
-            v_max_colors,
+            v_alpha,
         );
 
         std::ptr::copy_nonoverlapping(buffer.as_ptr(), dst_ptr.as_mut_ptr(), diff * channels);
-- 
2.43.0


From cf0e3a4a15783d42b0ca69525b81beaff8849764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 18/33] fix: decoding 12 and 14 bit YUV to 30-bit RGB did not
 rescale components to 10 bits

---
 src/numerics.rs           | 15 +++++++++++++++
 src/yuv_nv_p10_to_ar30.rs | 25 ++++++++++++------------
 src/yuv_p16_ar30.rs       | 40 ++++++++++++++++++++++++---------------
 3 files changed, 53 insertions(+), 27 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 4e9e65f..3a5c630 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -38,6 +38,21 @@ pub(crate) fn qrshr<const PRECISION: i32, const BIT_DEPTH: usize>(val: i32) -> i
     ((val + rounding) >> PRECISION).min(max_value).max(0)
 }
 
+#[inline(always)]
+/// Saturating rounding shift right, that also rescales value from `BIT_DEPTH` to `TARGET_DEPTH`
+pub(crate) fn qrshr_rescale<
+    const PRECISION: i32,
+    const BIT_DEPTH: usize,
+    const TARGET_DEPTH: usize,
+>(
+    val: i32,
+) -> i32 {
+    let shift = PRECISION + BIT_DEPTH as i32 - TARGET_DEPTH as i32;
+    let rounding: i32 = (1 << (shift - 1)) - 1;
+    let max_value: i32 = (1 << TARGET_DEPTH) - 1;
+    ((val + rounding) >> shift).min(max_value).max(0)
+}
+
 #[inline]
 /// Integer division by 255 with rounding to nearest
 pub(crate) fn div_by_255(v: u16) -> u8 {
diff --git a/src/yuv_nv_p10_to_ar30.rs b/src/yuv_nv_p10_to_ar30.rs
index eb4e8dc..480ccf3 100644
--- a/src/yuv_nv_p10_to_ar30.rs
+++ b/src/yuv_nv_p10_to_ar30.rs
@@ -171,6 +171,7 @@ fn yuv_nv_p10_to_image_impl_d<
 ) -> Result<(), YuvError> {
     let ar30_layout: Rgb30 = AR30_LAYOUT.into();
     const CN: usize = 4;
+    const AR30_DEPTH: usize = 10;
     let uv_order: YuvNVOrder = NV_ORDER.into();
     let chroma_subsampling: YuvChromaSubsampling = SAMPLING.into();
 
@@ -224,9 +225,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -242,9 +243,9 @@ fn yuv_nv_p10_to_image_impl_d<
 
                 let y_value1: i32 = (y_vl1 - bias_y) * y_coef;
 
-                let r_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-                let b_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-                let g_p1 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+                let b_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+                let g_p1 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -277,9 +278,9 @@ fn yuv_nv_p10_to_image_impl_d<
                 cb_value -= bias_uv;
                 cr_value -= bias_uv;
 
-                let r_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-                let b_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-                let g_p0 = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                let r_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+                let b_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+                let g_p0 = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                     y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
@@ -347,9 +348,9 @@ fn yuv_nv_p10_to_image_impl_d<
                     cb_value -= bias_uv;
                     cr_value -= bias_uv;
 
-                    let r_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                    let b_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                    let g_p = qrshr::<BACK_SHIFT, BIT_DEPTH>(
+                    let r_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                    let b_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                    let g_p = qrshr::<BACK_SHIFT, AR30_DEPTH>(
                         y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                     );
 
diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index f30c8d6..275b7c6 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -26,7 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
-use crate::numerics::{qrshr, to_ne};
+use crate::numerics::{qrshr_rescale, to_ne};
 use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::{
     get_yuv_range, search_inverse_transform, Rgb30, YuvBytesPacking, YuvChromaSubsampling,
@@ -97,9 +97,11 @@ fn yuv_p16_to_image_ar30<
             let cb_value = to_ne::<ENDIANNESS, BYTES_POSITION>(u_src, msb_shift) as i32 - bias_uv;
             let cr_value = to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-            let r0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 = qrshr::<PRECISION, AR30_DEPTH>(
+            let r0 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(
                 y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
             );
 
@@ -114,10 +116,13 @@ fn yuv_p16_to_image_ar30<
             let y_value1 =
                 (to_ne::<ENDIANNESS, BYTES_POSITION>(y_src[1], msb_shift) as i32 - bias_y) * y_coef;
 
-            let r1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cr_coef * cr_value);
-            let b1 = qrshr::<PRECISION, BIT_DEPTH>(y_value1 + cb_coef * cb_value);
-            let g1 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r1 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value1 + cr_coef * cr_value);
+            let b1 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value1 + cb_coef * cb_value);
+            let g1 = qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(
+                y_value1 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
 
             let pixel1 = ar30_layout.pack::<AR30_STORE>(r1, g1, b1).to_ne_bytes();
             rgba_2[4] = pixel1[0];
@@ -139,10 +144,13 @@ fn yuv_p16_to_image_ar30<
                 - bias_uv;
             let rgba = rgba.chunks_exact_mut(4).last().unwrap();
 
-            let r0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cr_coef * cr_value);
-            let b0 = qrshr::<PRECISION, BIT_DEPTH>(y_value0 + cb_coef * cb_value);
-            let g0 =
-                qrshr::<PRECISION, BIT_DEPTH>(y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value);
+            let r0 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value0 + cr_coef * cr_value);
+            let b0 =
+                qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value0 + cb_coef * cb_value);
+            let g0 = qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(
+                y_value0 - g_coef_1 * cr_value - g_coef_2 * cb_value,
+            );
             let pixel0 = ar30_layout.pack::<AR30_STORE>(r0, g0, b0).to_ne_bytes();
             rgba[0] = pixel0[0];
             rgba[1] = pixel0[1];
@@ -184,9 +192,11 @@ fn yuv_p16_to_image_ar30<
                 let cr_value =
                     to_ne::<ENDIANNESS, BYTES_POSITION>(v_src, msb_shift) as i32 - bias_uv;
 
-                let r = qrshr::<PRECISION, BIT_DEPTH>(y_value + cr_coef * cr_value);
-                let b = qrshr::<PRECISION, BIT_DEPTH>(y_value + cb_coef * cb_value);
-                let g = qrshr::<PRECISION, BIT_DEPTH>(
+                let r =
+                    qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value + cr_coef * cr_value);
+                let b =
+                    qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(y_value + cb_coef * cb_value);
+                let g = qrshr_rescale::<PRECISION, BIT_DEPTH, AR30_DEPTH>(
                     y_value - g_coef_1 * cr_value - g_coef_2 * cb_value,
                 );
 
-- 
2.43.0


From 19442ddd1f8d3d96648dac9c7ababbdee13681fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 19/33] fix: 16 bit GBR to f16 turned bright components into
 infinity

---
 src/from_identity_alpha_f16.rs | 44 ++++++++++++++++------------------
 src/from_identity_f16.rs       | 40 +++++++++++++++----------------
 2 files changed, 40 insertions(+), 44 deletions(-)

diff --git a/src/from_identity_alpha_f16.rs b/src/from_identity_alpha_f16.rs
index 3e31081..375c4ea 100644
--- a/src/from_identity_alpha_f16.rs
+++ b/src/from_identity_alpha_f16.rs
@@ -53,16 +53,14 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    /// Normalization is done in f32, since f16 cannot hold the whole 16-bit range
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    #[inline(always)]
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        (self as f32 * scale) as f16
     }
 }
 
@@ -87,7 +85,7 @@ macro_rules! exec_cv_full {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -96,10 +94,10 @@ macro_rules! exec_cv_full {
             .zip(rgb_chunks)
             .zip($a_src)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
@@ -108,7 +106,7 @@ macro_rules! exec_cv_limited {
     ($dst: expr, $y_src: expr, $u_src: expr, $v_src: expr, $a_src: expr, $cn: expr, $bit_depth: expr, $y_bias: expr, $y_coef: expr, $precision: expr) => {
         let max_value = (1 << $bit_depth) - 1;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for ((((&y_src, &u_src), &v_src), rgb_dst), a_src) in $y_src
             .iter()
@@ -118,18 +116,18 @@ macro_rules! exec_cv_limited {
             .zip($a_src)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
-            rgb_dst[$cn.get_a_channel_offset()] = a_src.cast_to_f16::<$bit_depth>() * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
+            rgb_dst[$cn.get_a_channel_offset()] = a_src.scale_to_f16(scale);
         }
     };
 }
diff --git a/src/from_identity_f16.rs b/src/from_identity_f16.rs
index f8febd1..acb77f7 100644
--- a/src/from_identity_f16.rs
+++ b/src/from_identity_f16.rs
@@ -46,16 +46,14 @@ trait FullRowHandle<V: Copy + 'static + Sized + Debug + Send + Sync + Default +
 }
 
 trait CastableToF16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16;
+    /// Normalization is done in f32, since f16 cannot hold the whole 16-bit range
+    fn scale_to_f16(self, scale: f32) -> f16;
 }
 
 impl CastableToF16 for u16 {
-    fn cast_to_f16<const BIT_DEPTH: usize>(self) -> f16 {
-        if BIT_DEPTH == 16 {
-            (self as i32) as f16
-        } else {
-            (self as i16) as f16
-        }
+    #[inline(always)]
+    fn scale_to_f16(self, scale: f32) -> f16 {
+        (self as f32 * scale) as f16
     }
 }
 
@@ -80,14 +78,14 @@ macro_rules! exec_cv_full {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
-            rgb_dst[$cn.get_r_channel_offset()] = v_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_g_channel_offset()] = y_src.cast_to_f16::<$bit_depth>() * scale;
-            rgb_dst[$cn.get_b_channel_offset()] = u_src.cast_to_f16::<$bit_depth>() * scale;
+            rgb_dst[$cn.get_r_channel_offset()] = v_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_g_channel_offset()] = y_src.scale_to_f16(scale);
+            rgb_dst[$cn.get_b_channel_offset()] = u_src.scale_to_f16(scale);
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
@@ -100,23 +98,23 @@ macro_rules! exec_cv_limited {
         let max_value = (1 << $bit_depth) - 1;
         let max_value_f16 = 1f32 as f16;
         let rgb_chunks = $dst.chunks_exact_mut($cn.get_channels_count());
-        let scale = (1f32 / max_value as f32) as f16;
+        let scale = 1f32 / max_value as f32;
 
         for (((&y_src, &u_src), &v_src), rgb_dst) in
             $y_src.iter().zip($u_src).zip($v_src).zip(rgb_chunks)
         {
             rgb_dst[$cn.get_r_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((v_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_g_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((y_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             rgb_dst[$cn.get_b_channel_offset()] =
-                qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
-                    as f16
-                    * scale;
+                (qrshr::<$precision, $bit_depth>((u_src.as_() - $y_bias).as_() * $y_coef as i32)
+                    as f32
+                    * scale) as f16;
             if $cn.has_alpha() {
                 rgb_dst[$cn.get_a_channel_offset()] = max_value_f16;
             }
-- 
2.43.0


From a3bb9be2cd4533b81d38738887b52e851d053e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:22 +0000
Subject: [PATCH 20/33] fix: YUY2 repacking lost chroma, row tails and odd last
 rows

The V plane was never cut to the visible width, so the last V sample of an odd
width landed in the padding. The scalar tail skipped as many pairs as the vector
code had processed pixels. 4:2:0 took the last odd column from the end of the
two-row chunk, dropped the last odd row, and kept the chroma of different rows in
vector and scalar code. 4:4:4 to YUY2 averaged chroma pairs wrongly in AVX2 and
left half of the chroma of a 16 pixel block zero in SSE.
---
 src/avx2/avx2_utils.rs |  8 +-------
 src/sse/yuv_to_yuy2.rs | 11 ++---------
 src/yuv_to_yuy2.rs     |  2 +-
 src/yuy2_to_yuv.rs     | 24 +++++++++++++-----------
 src/yuy2_to_yuv_p16.rs | 16 ++++++++--------
 5 files changed, 25 insertions(+), 36 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index 6f04025..af3289d 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -336,12 +336,6 @@ pub(crate) unsafe fn avx2_deinterleave_rgb(
 //     _mm256_permute4x64_epi64::<MASK>(v)
 // }
 
-#[inline(always)]
-pub(crate) unsafe fn avx_pairwise_avg_epi16(a: __m256i, b: __m256i) -> __m256i {
-    let sums = _mm256_hadd_epi16(a, b);
-    _mm256_srli_epi16::<1>(_mm256_add_epi16(sums, _mm256_set1_epi16(1)))
-}
-
 #[inline(always)]
 pub(crate) unsafe fn avx_pairwise_avg_epi16_epi8_j(a: __m256i, f: i8) -> __m256i {
     _mm256_maddubs_epi16(a, _mm256_set1_epi8(f))
@@ -470,7 +464,7 @@ pub(crate) unsafe fn _mm256_havg_epu8(a: __m256i, b: __m256i) -> __m256i {
     let lo = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_lo, ones_16));
     let sums_hi = _mm256_maddubs_epi16(b, ones);
     let hi = _mm256_srli_epi16::<1>(_mm256_add_epi16(sums_hi, ones_16));
-    avx_pairwise_avg_epi16(lo, hi)
+    avx2_pack_u16(lo, hi)
 }
 
 #[inline(always)]
diff --git a/src/sse/yuv_to_yuy2.rs b/src/sse/yuv_to_yuy2.rs
index bca03a6..f0a5382 100644
--- a/src/sse/yuv_to_yuy2.rs
+++ b/src/sse/yuv_to_yuy2.rs
@@ -141,15 +141,8 @@ unsafe fn yuv_to_yuy2_sse_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             if chroma_subsampling == YuvChromaSubsampling::Yuv444 {
                 let full_u = _mm_loadu_si128(u_plane.as_ptr().add(u_pos) as *const __m128i);
                 let full_v = _mm_loadu_si128(v_plane.as_ptr().add(v_pos) as *const __m128i);
-
-                let low_u = _mm_getlow_epi8(full_u);
-                let high_u = _mm_gethigh_epi8(full_u);
-                u_pixels = _mm_havg_epu8(low_u, high_u);
-
-                let low_v = _mm_getlow_epi8(full_v);
-                let high_v = _mm_gethigh_epi8(full_v);
-
-                v_pixels = _mm_havg_epu8(low_v, high_v);
+                u_pixels = _mm_havg_epu8(full_u, _mm_setzero_si128());
+                v_pixels = _mm_havg_epu8(full_v, _mm_setzero_si128());
             } else {
                 u_pixels = _mm_loadu_si64(u_plane.as_ptr().add(u_pos));
                 v_pixels = _mm_loadu_si64(v_plane.as_ptr().add(v_pos));
diff --git a/src/yuv_to_yuy2.rs b/src/yuv_to_yuy2.rs
index 4512b83..cda8390 100644
--- a/src/yuv_to_yuy2.rs
+++ b/src/yuv_to_yuy2.rs
@@ -243,7 +243,7 @@ pub(crate) fn yuv_to_yuy2_impl<
                 .zip(y_src.chunks_exact(2))
                 .zip(u_src.chunks_exact(2))
                 .zip(v_src.chunks_exact(2))
-                .skip(processed)
+                .skip(processed / 2)
             {
                 yuy2[yuy2_target.get_first_y_position()] = y_src[0];
                 yuy2[yuy2_target.get_second_y_position()] = y_src[1];
diff --git a/src/yuy2_to_yuv.rs b/src/yuy2_to_yuv.rs
index d565919..dc9ff8e 100644
--- a/src/yuy2_to_yuv.rs
+++ b/src/yuy2_to_yuv.rs
@@ -146,7 +146,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -155,7 +155,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.chunks_exact_mut(2))
                 .zip(v_dst.chunks_exact_mut(2))
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -210,7 +210,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2_src);
 
@@ -219,7 +219,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 .zip(u_dst.iter_mut())
                 .zip(v_dst.iter_mut())
                 .zip(yuy2_src.chunks_exact(4))
-                .skip(p_offset.cx)
+                .skip(p_offset.cx / 2)
             {
                 let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                 let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -247,37 +247,39 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
         #[cfg(feature = "rayon")]
         {
             iter = y_plane
-                .par_chunks_exact_mut(y_stride as usize * 2)
+                .par_chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.par_chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.par_chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .par_chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .par_chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         #[cfg(not(feature = "rayon"))]
         {
             iter = y_plane
-                .chunks_exact_mut(y_stride as usize * 2)
+                .chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
+            // The wide row handlers always store chroma, so the first row goes last to have its chroma kept.
             for (y, (y_dst, yuy2)) in y_dst
                 .chunks_exact_mut(y_stride as usize)
                 .zip(yuy2_src.chunks_exact(packed_image.yuy_stride as usize))
                 .enumerate()
+                .rev()
             {
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let p_offset = process_wide_row(y_dst, u_dst, v_dst, yuy2);
 
@@ -288,7 +290,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                     .zip(u_dst.iter_mut())
                     .zip(v_dst.iter_mut())
                     .zip(yuy2.chunks_exact(4))
-                    .skip(p_offset.cx)
+                    .skip(p_offset.cx / 2)
                 {
                     let first_y_position = yuy2[yuy2_target.get_first_y_position()];
                     let second_y_position = yuy2[yuy2_target.get_second_y_position()];
@@ -304,7 +306,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
diff --git a/src/yuy2_to_yuv_p16.rs b/src/yuy2_to_yuv_p16.rs
index 225bd28..3fda3bd 100644
--- a/src/yuy2_to_yuv_p16.rs
+++ b/src/yuy2_to_yuv_p16.rs
@@ -90,7 +90,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..planar_image.width as usize];
-            let u_dst = &mut u_dst[0..planar_image.width as usize];
+            let v_dst = &mut v_dst[0..planar_image.width as usize];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -151,7 +151,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
             let yuy2_src = &yuy2_src[0..yuy2_width];
             let y_dst = &mut y_dst[0..planar_image.width as usize];
             let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-            let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+            let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
             for (((y_dst, u_dst), v_dst), yuy2) in y_dst
                 .chunks_exact_mut(2)
@@ -185,25 +185,25 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
         #[cfg(feature = "rayon")]
         {
             iter = y_plane
-                .par_chunks_exact_mut(y_stride as usize * 2)
+                .par_chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.par_chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.par_chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .par_chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .par_chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         #[cfg(not(feature = "rayon"))]
         {
             iter = y_plane
-                .chunks_exact_mut(y_stride as usize * 2)
+                .chunks_mut(y_stride as usize * 2)
                 .zip(u_plane.chunks_exact_mut(u_stride as usize))
                 .zip(v_plane.chunks_exact_mut(v_stride as usize))
                 .zip(
                     packed_image
                         .yuy
-                        .chunks_exact(packed_image.yuy_stride as usize * 2),
+                        .chunks(packed_image.yuy_stride as usize * 2),
                 );
         }
         iter.for_each(|(((y_dst, u_dst), v_dst), yuy2_src)| {
@@ -215,7 +215,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
                 let yuy2 = &yuy2[0..yuy2_width];
                 let y_dst = &mut y_dst[0..planar_image.width as usize];
                 let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
-                let u_dst = &mut u_dst[0..(planar_image.width as usize).div_ceil(2)];
+                let v_dst = &mut v_dst[0..(planar_image.width as usize).div_ceil(2)];
 
                 let process_chroma = y & 1 == 0;
 
@@ -239,7 +239,7 @@ fn yuy2_to_yuv_impl<const SAMPLING: u8, const YUY2_TARGET: usize>(
 
                 if width & 1 != 0 {
                     let y_dst = y_dst.last_mut().unwrap();
-                    let yuy2 = yuy2_src.chunks_exact(4).last().unwrap();
+                    let yuy2 = yuy2.chunks_exact(4).last().unwrap();
                     let yuy2 = &yuy2[0..4];
                     *y_dst = yuy2[yuy2_target.get_first_y_position()];
                     if process_chroma {
-- 
2.43.0


From 3526b9e99ae2c44263fc4cfbec364f42cac84635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 21/33] fix: padded rows of interleaved chroma and packed YUY2
 planes were rejected, and a YUY2 stride shorter than a row was accepted

Bi-planar images with any padding in the UV plane, and YUY2 images with row
padding, always failed validation although their stride is part of the image;
a YUY2 stride that disagrees with the buffer passed it and read other rows.
---
 src/yuv_error.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index 0f9be9e..cc759f0 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -157,12 +157,8 @@ pub(crate) fn check_yuv_packed422<V>(
     }
     check_overflow_v2(stride as usize, height as usize)?;
     check_overflow_v2(width as usize, height as usize)?;
-    let full_size = if width % 2 == 0 {
-        2 * width as usize * height as usize
-    } else {
-        2 * (width as usize + 1) * height as usize
-    };
-    if data.len() != full_size {
+    let min_stride = 2 * (width as usize).next_multiple_of(2);
+    if (stride as usize) < min_stride || data.len() != stride as usize * height as usize {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
@@ -265,9 +261,7 @@ pub(crate) fn check_interleaved_chroma_channel<V>(
             received: stride as usize * chroma_height as usize,
         }));
     }
-    if stride as usize * chroma_height as usize != data.len()
-        || chroma_min_width as usize * chroma_height as usize != data.len()
-    {
+    if stride as usize * chroma_height as usize != data.len() {
         return Err(YuvError::ChromaPlaneSizeMismatch(MismatchedSize {
             expected: stride as usize * chroma_height as usize,
             received: data.len(),
-- 
2.43.0


From 5195bb3cfaed7623f2b3783469892a411166b7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:54 +0000
Subject: [PATCH 22/33] fix: Smpte240 had its kr and kb swapped

H.273 (the document the enum refers to) gives kr = 0.212 and kb = 0.087.
---
 src/built_coefficients.rs | 40 +++++++++++++++++++--------------------
 src/yuv_support.rs        |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/built_coefficients.rs b/src/built_coefficients.rs
index fe98e8a..76826be 100644
--- a/src/built_coefficients.rs
+++ b/src/built_coefficients.rs
@@ -245,27 +245,27 @@ static FORWARD_BT2020_FULL_12_13PREC: CbCrForwardTransform<i32> = CbCrForwardTra
 };
 
 static FORWARD_SMPTE240_LIMITED_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 612,
+    yr: 1492,
     yg: 4932,
-    yb: 1492,
-    cb_r: -397,
-    cb_g: -3201,
+    yb: 612,
+    cb_r: -835,
+    cb_g: -2763,
     cb_b: 3598,
     cr_r: 3598,
-    cr_g: -2763,
-    cr_b: -835,
+    cr_g: -3201,
+    cr_b: -397,
 };
 
 static FORWARD_SMPTE240_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
-    yr: 713,
+    yr: 1737,
     yg: 5743,
-    yb: 1737,
-    cb_r: -452,
-    cb_g: -3644,
+    yb: 713,
+    cb_r: -951,
+    cb_g: -3145,
     cb_b: 4096,
     cr_r: 4096,
-    cr_g: -3145,
-    cr_b: -951,
+    cr_g: -3644,
+    cr_b: -452,
 };
 
 static FORWARD_BT470_FULL_8_13PREC: CbCrForwardTransform<i32> = CbCrForwardTransform {
@@ -416,18 +416,18 @@ static INVERSE_BT2020_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTran
 
 static INVERSE_SMPTE240_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 9539,
-    cr_coef: 17029,
-    cb_coef: 14697,
-    g_coeff_1: 2113,
-    g_coeff_2: 4445,
+    cr_coef: 14697,
+    cb_coef: 17029,
+    g_coeff_1: 4445,
+    g_coeff_2: 2113,
 };
 
 static INVERSE_SMPTE240_FULL_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
     y_coef: 8192,
-    cr_coef: 14959,
-    cb_coef: 12911,
-    g_coeff_1: 1856,
-    g_coeff_2: 3904,
+    cr_coef: 12911,
+    cb_coef: 14959,
+    g_coeff_1: 3904,
+    g_coeff_2: 1856,
 };
 
 static INVERSE_BT470_LIMITED_8_PREC13: CbCrInverseTransform<i32> = CbCrInverseTransform {
diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 64cba92..0b7b1e6 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -301,8 +301,8 @@ impl YuvStandardMatrix {
                 kb: 0.0593f32,
             },
             YuvStandardMatrix::Smpte240 => YuvBias {
-                kr: 0.087f32,
-                kb: 0.212f32,
+                kr: 0.212f32,
+                kb: 0.087f32,
             },
             YuvStandardMatrix::Bt470_6 => YuvBias {
                 kr: 0.2220f32,
-- 
2.43.0


From c2b78e55755432983dc9107d656fedb88720f7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 23/33] fix: SIMD fast NV decoding wrapped super-white bright
 channels to black

---
 src/avx2/yuv_nv_to_rgba_fast.rs        | 24 ++++++-------
 src/avx2/yuv_nv_to_rgba_fast420.rs     | 48 +++++++++++++-------------
 src/avx512bw/yuv_nv_to_rgba_fast420.rs | 48 +++++++++++++-------------
 src/sse/yuv_nv_to_rgba_fast.rs         | 24 ++++++-------
 src/sse/yuv_nv_to_rgba_fast420.rs      | 48 +++++++++++++-------------
 5 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/src/avx2/yuv_nv_to_rgba_fast.rs b/src/avx2/yuv_nv_to_rgba_fast.rs
index 4ed1e6a..b81bf7d 100644
--- a/src/avx2/yuv_nv_to_rgba_fast.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast.rs
@@ -167,13 +167,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -302,13 +302,13 @@ unsafe fn avx_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm256_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm256_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm256_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx2/yuv_nv_to_rgba_fast420.rs b/src/avx2/yuv_nv_to_rgba_fast420.rs
index 2793803..6584a10 100644
--- a/src/avx2/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx2/yuv_nv_to_rgba_fast420.rs
@@ -125,13 +125,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -139,13 +139,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
@@ -249,13 +249,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm256_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm256_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm256_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm256_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm256_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm256_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm256_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm256_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm256_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm256_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm256_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm256_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm256_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm256_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm256_unpacklo_epi8(y_values0, _mm256_setzero_si256());
         let y_lo1 = _mm256_unpacklo_epi8(y_values1, _mm256_setzero_si256());
@@ -263,13 +263,13 @@ unsafe fn avx_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm256_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm256_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm256_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm256_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm256_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm256_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm256_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm256_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm256_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm256_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm256_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm256_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm256_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm256_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm256_srai_epi16::<6>(r_low0);
         b_low0 = _mm256_srai_epi16::<6>(b_low0);
diff --git a/src/avx512bw/yuv_nv_to_rgba_fast420.rs b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
index 2270f4b..7e52afc 100644
--- a/src/avx512bw/yuv_nv_to_rgba_fast420.rs
+++ b/src/avx512bw/yuv_nv_to_rgba_fast420.rs
@@ -177,13 +177,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -191,13 +191,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
@@ -301,13 +301,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let r_c_hi = _mm512_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm512_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm512_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm512_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm512_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm512_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm512_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm512_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm512_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm512_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm512_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm512_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm512_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm512_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm512_unpacklo_epi8(y_values0, _mm512_setzero_si512());
         let y_lo1 = _mm512_unpacklo_epi8(y_values1, _mm512_setzero_si512());
@@ -315,13 +315,13 @@ unsafe fn avx512_yuv_nv_to_rgba_impl_fast420<
         let y_gl0 = _mm512_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm512_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm512_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm512_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm512_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm512_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm512_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm512_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm512_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm512_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm512_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm512_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm512_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm512_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm512_srai_epi16::<6>(r_low0);
         b_low0 = _mm512_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast.rs b/src/sse/yuv_nv_to_rgba_fast.rs
index fea2de2..225161d 100644
--- a/src/sse/yuv_nv_to_rgba_fast.rs
+++ b/src/sse/yuv_nv_to_rgba_fast.rs
@@ -151,13 +151,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -265,13 +265,13 @@ unsafe fn sse_yuv_nv_to_rgba_fast_impl<
         let y_gh = _mm_maddubs_epi16(y_hi, v_y_c);
         let y_gl = _mm_maddubs_epi16(y_lo, v_y_c);
 
-        let mut r_high0 = _mm_add_epi16(y_gh, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_gh, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_gh, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_gh, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_gh, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_gh, g_c_hi);
 
-        let mut r_low0 = _mm_add_epi16(y_gl, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
diff --git a/src/sse/yuv_nv_to_rgba_fast420.rs b/src/sse/yuv_nv_to_rgba_fast420.rs
index d58f035..5d96025 100644
--- a/src/sse/yuv_nv_to_rgba_fast420.rs
+++ b/src/sse/yuv_nv_to_rgba_fast420.rs
@@ -121,13 +121,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -135,13 +135,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
@@ -245,13 +245,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let r_c_hi = _mm_unpackhi_epi16(r_c_values, r_c_values);
         let r_c_lo = _mm_unpacklo_epi16(r_c_values, r_c_values);
 
-        let mut r_high0 = _mm_add_epi16(y_g0, r_c_hi);
-        let mut b_high0 = _mm_add_epi16(y_g0, b_c_hi);
-        let mut g_high0 = _mm_sub_epi16(y_g0, g_c_hi);
+        let mut r_high0 = _mm_adds_epi16(y_g0, r_c_hi);
+        let mut b_high0 = _mm_adds_epi16(y_g0, b_c_hi);
+        let mut g_high0 = _mm_subs_epi16(y_g0, g_c_hi);
 
-        let mut r_high1 = _mm_add_epi16(y_g1, r_c_hi);
-        let mut b_high1 = _mm_add_epi16(y_g1, b_c_hi);
-        let mut g_high1 = _mm_sub_epi16(y_g1, g_c_hi);
+        let mut r_high1 = _mm_adds_epi16(y_g1, r_c_hi);
+        let mut b_high1 = _mm_adds_epi16(y_g1, b_c_hi);
+        let mut g_high1 = _mm_subs_epi16(y_g1, g_c_hi);
 
         let y_lo0 = _mm_unpacklo_epi8(y_values0, _mm_setzero_si128());
         let y_lo1 = _mm_unpacklo_epi8(y_values1, _mm_setzero_si128());
@@ -259,13 +259,13 @@ unsafe fn sse_yuv_nv_to_rgba_impl_fast420<const UV_ORDER: u8, const DESTINATION_
         let y_gl0 = _mm_maddubs_epi16(y_lo0, v_y_c);
         let y_gl1 = _mm_maddubs_epi16(y_lo1, v_y_c);
 
-        let mut r_low0 = _mm_add_epi16(y_gl0, r_c_lo);
-        let mut b_low0 = _mm_add_epi16(y_gl0, b_c_lo);
-        let mut g_low0 = _mm_sub_epi16(y_gl0, g_c_lo);
+        let mut r_low0 = _mm_adds_epi16(y_gl0, r_c_lo);
+        let mut b_low0 = _mm_adds_epi16(y_gl0, b_c_lo);
+        let mut g_low0 = _mm_subs_epi16(y_gl0, g_c_lo);
 
-        let mut r_low1 = _mm_add_epi16(y_gl1, r_c_lo);
-        let mut b_low1 = _mm_add_epi16(y_gl1, b_c_lo);
-        let mut g_low1 = _mm_sub_epi16(y_gl1, g_c_lo);
+        let mut r_low1 = _mm_adds_epi16(y_gl1, r_c_lo);
+        let mut b_low1 = _mm_adds_epi16(y_gl1, b_c_lo);
+        let mut g_low1 = _mm_subs_epi16(y_gl1, g_c_lo);
 
         r_low0 = _mm_srai_epi16::<6>(r_low0);
         b_low0 = _mm_srai_epi16::<6>(b_low0);
-- 
2.43.0


From f8a5aa43ed8184dd69fc3ceabc6ea8d8d5d25057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 24/33] fix: AVX2 RGB to luma zeroed every second half of a 16
 pixel block

---
 src/avx2/rgb_to_y.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgb_to_y.rs b/src/avx2/rgb_to_y.rs
index f1d6cb3..12d0aea 100644
--- a/src/avx2/rgb_to_y.rs
+++ b/src/avx2/rgb_to_y.rs
@@ -111,8 +111,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
             ORIGIN_CHANNELS,
         >(rgba.get_unchecked(px..).as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -127,7 +130,8 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv =
+            _mm256_permute4x64_epi64::<0x08>(_mm256_packus_epi16(y_l, _mm256_setzero_si256()));
         _mm_storeu_si128(
             y_plane.get_unchecked_mut(cx..).as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
@@ -151,8 +155,11 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
         let (r_values, g_values, b_values) =
             _mm256_load_deinterleave_half_rgb_for_yuv::<ORIGIN_CHANNELS>(src_buffer.as_ptr());
 
+        let r_values = _mm256_permute4x64_epi64::<0x50>(r_values);
         let rl = _mm256_unpacklo_epi8(r_values, r_values);
+        let g_values = _mm256_permute4x64_epi64::<0x50>(g_values);
         let gl = _mm256_unpacklo_epi8(g_values, g_values);
+        let b_values = _mm256_permute4x64_epi64::<0x50>(b_values);
         let bl = _mm256_unpacklo_epi8(b_values, b_values);
 
         let r_low = _mm256_srli_epi16::<V_S>(rl);
@@ -167,7 +174,8 @@ pub(crate) unsafe fn avx2_rgb_to_y_row_impl<const ORIGIN_CHANNELS: u8, const PRE
 
         let y_l = _mm256_srli_epi16::<A_E>(_mm256_add_epi16(y_bias, _mm256_add_epi16(yrgc, bhy)));
 
-        let y_yuv = _mm256_packus_epi16(y_l, _mm256_setzero_si256());
+        let y_yuv =
+            _mm256_permute4x64_epi64::<0x08>(_mm256_packus_epi16(y_l, _mm256_setzero_si256()));
         _mm_storeu_si128(
             y_buffer.as_mut_ptr() as *mut __m128i,
             _mm256_castsi256_si128(y_yuv),
-- 
2.43.0


From b03863f2e711ae7c5de95b3607e652fbaaae379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 25/33] fix: 4:4:4 high bit-depth to 30-bit RGB converted the
 padding of rows

---
 src/yuv_p16_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yuv_p16_ar30.rs b/src/yuv_p16_ar30.rs
index 275b7c6..a87e236 100644
--- a/src/yuv_p16_ar30.rs
+++ b/src/yuv_p16_ar30.rs
@@ -178,7 +178,7 @@ fn yuv_p16_to_image_ar30<
                 .zip(image.v_plane.chunks_exact(image.v_stride as usize));
         }
         iter.for_each(|(((rgba, y_plane), u_plane), v_plane)| {
-            for (((rgba, &y_src), &u_src), &v_src) in rgba
+            for (((rgba, &y_src), &u_src), &v_src) in rgba[0..image.width as usize * 4]
                 .chunks_exact_mut(4)
                 .zip(y_plane.iter())
                 .zip(u_plane.iter())
-- 
2.43.0


From fe24c2403ad62ad7558e6b233a44a0935633378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:20 +0000
Subject: [PATCH 26/33] fix: SIMD premultiplication wrapped out-of-range
 channels and truncated by one in AVX2

---
 src/avx2/avx2_utils.rs            |  4 ++--
 src/avx2/ayuv_to_rgba.rs          | 14 ++++++++------
 src/avx2/yuv_to_rgba_alpha.rs     | 15 ++++++++-------
 src/avx512bw/yuv_to_rgba_alpha.rs | 14 ++++++++------
 src/sse/yuv_to_rgba_alpha.rs      | 14 ++++++++------
 5 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/src/avx2/avx2_utils.rs b/src/avx2/avx2_utils.rs
index af3289d..3b621f5 100644
--- a/src/avx2/avx2_utils.rs
+++ b/src/avx2/avx2_utils.rs
@@ -360,8 +360,8 @@ pub(crate) unsafe fn avx2_div_by255_x2(l: __m256i, v: __m256i) -> (__m256i, __m2
     let j0 = _mm256_srli_epi16::<8>(k0);
     let j1 = _mm256_srli_epi16::<8>(k1);
 
-    let kv0 = _mm256_add_epi16(l, j0);
-    let kv1 = _mm256_add_epi16(v, j1);
+    let kv0 = _mm256_add_epi16(k0, j0);
+    let kv1 = _mm256_add_epi16(k1, j1);
 
     (_mm256_srli_epi16::<8>(kv0), _mm256_srli_epi16::<8>(kv1))
 }
diff --git a/src/avx2/ayuv_to_rgba.rs b/src/avx2/ayuv_to_rgba.rs
index 733eeb3..c2394fe 100644
--- a/src/avx2/ayuv_to_rgba.rs
+++ b/src/avx2/ayuv_to_rgba.rs
@@ -236,20 +236,22 @@ unsafe fn avx2_ayuv_to_rgba_impl<const DESTINATION_CHANNELS: u8, const PACKED: u
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max = _mm256_set1_epi16(255);
+            let clamp = |v| _mm256_min_epi16(_mm256_max_epi16(v, _mm256_setzero_si256()), v_max);
             let a_high = _mm256_unpackhi_epi8(a, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a, _mm256_setzero_si256());
 
             let (r_l, r_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(r_low, a_low),
-                _mm256_mullo_epi16(r_high, a_high),
+                _mm256_mullo_epi16(clamp(r_low), a_low),
+                _mm256_mullo_epi16(clamp(r_high), a_high),
             );
             let (g_l, g_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(g_low, a_low),
-                _mm256_mullo_epi16(g_high, a_high),
+                _mm256_mullo_epi16(clamp(g_low), a_low),
+                _mm256_mullo_epi16(clamp(g_high), a_high),
             );
             let (b_l, b_h) = avx2_div_by255_x2(
-                _mm256_mullo_epi16(b_low, a_low),
-                _mm256_mullo_epi16(b_high, a_high),
+                _mm256_mullo_epi16(clamp(b_low), a_low),
+                _mm256_mullo_epi16(clamp(b_high), a_high),
             );
 
             r_values = _mm256_packus_epi16(r_l, r_h);
diff --git a/src/avx2/yuv_to_rgba_alpha.rs b/src/avx2/yuv_to_rgba_alpha.rs
index f05995f..46615a9 100644
--- a/src/avx2/yuv_to_rgba_alpha.rs
+++ b/src/avx2/yuv_to_rgba_alpha.rs
@@ -336,13 +336,14 @@ unsafe fn avx2_yuv_to_rgba_alpha_impl<const DESTINATION_CHANNELS: u8, const SAMP
         let (r_values, g_values, b_values);
 
         if use_premultiply {
-            r_high = _mm256_max_epi16(r_high, _mm256_setzero_si256());
-            b_high = _mm256_max_epi16(b_high, _mm256_setzero_si256());
-            g_high = _mm256_max_epi16(g_high, _mm256_setzero_si256());
-
-            r_low = _mm256_max_epi16(r_low, _mm256_setzero_si256());
-            b_low = _mm256_max_epi16(b_low, _mm256_setzero_si256());
-            g_low = _mm256_max_epi16(g_low, _mm256_setzero_si256());
+            let v_max = _mm256_set1_epi16(255);
+            r_high = _mm256_min_epi16(_mm256_max_epi16(r_high, _mm256_setzero_si256()), v_max);
+            b_high = _mm256_min_epi16(_mm256_max_epi16(b_high, _mm256_setzero_si256()), v_max);
+            g_high = _mm256_min_epi16(_mm256_max_epi16(g_high, _mm256_setzero_si256()), v_max);
+
+            r_low = _mm256_min_epi16(_mm256_max_epi16(r_low, _mm256_setzero_si256()), v_max);
+            b_low = _mm256_min_epi16(_mm256_max_epi16(b_low, _mm256_setzero_si256()), v_max);
+            g_low = _mm256_min_epi16(_mm256_max_epi16(g_low, _mm256_setzero_si256()), v_max);
 
             let a_high = _mm256_unpackhi_epi8(a_values, _mm256_setzero_si256());
             let a_low = _mm256_unpacklo_epi8(a_values, _mm256_setzero_si256());
diff --git a/src/avx512bw/yuv_to_rgba_alpha.rs b/src/avx512bw/yuv_to_rgba_alpha.rs
index 9930b1c..ef91d0f 100644
--- a/src/avx512bw/yuv_to_rgba_alpha.rs
+++ b/src/avx512bw/yuv_to_rgba_alpha.rs
@@ -252,15 +252,17 @@ unsafe fn avx512_yuv_to_rgba_alpha_impl<
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max = _mm512_set1_epi16(255);
+            let clamp = |v| _mm512_min_epi16(_mm512_max_epi16(v, _mm512_setzero_si512()), v_max);
             let a_high = _mm512_cvtepu8_epi16(_mm512_extracti64x4_epi64::<1>(a_values));
             let a_low = _mm512_cvtepu8_epi16(_mm512_castsi512_si256(a_values));
 
-            let r_l = avx512_div_by255(_mm512_mullo_epi16(r_low, a_low));
-            let r_h = avx512_div_by255(_mm512_mullo_epi16(r_high, a_high));
-            let g_l = avx512_div_by255(_mm512_mullo_epi16(g_low, a_low));
-            let g_h = avx512_div_by255(_mm512_mullo_epi16(g_high, a_high));
-            let b_l = avx512_div_by255(_mm512_mullo_epi16(b_low, a_low));
-            let b_h = avx512_div_by255(_mm512_mullo_epi16(b_high, a_high));
+            let r_l = avx512_div_by255(_mm512_mullo_epi16(clamp(r_low), a_low));
+            let r_h = avx512_div_by255(_mm512_mullo_epi16(clamp(r_high), a_high));
+            let g_l = avx512_div_by255(_mm512_mullo_epi16(clamp(g_low), a_low));
+            let g_h = avx512_div_by255(_mm512_mullo_epi16(clamp(g_high), a_high));
+            let b_l = avx512_div_by255(_mm512_mullo_epi16(clamp(b_low), a_low));
+            let b_h = avx512_div_by255(_mm512_mullo_epi16(clamp(b_high), a_high));
 
             r_values = avx512_pack_u16(r_l, r_h);
             g_values = avx512_pack_u16(g_l, g_h);
diff --git a/src/sse/yuv_to_rgba_alpha.rs b/src/sse/yuv_to_rgba_alpha.rs
index 05f8158..d4c7a5d 100644
--- a/src/sse/yuv_to_rgba_alpha.rs
+++ b/src/sse/yuv_to_rgba_alpha.rs
@@ -165,14 +165,16 @@ unsafe fn sse_yuv_to_rgba_alpha_row_impl<const DESTINATION_CHANNELS: u8, const S
         let (r_values, g_values, b_values);
 
         if use_premultiply {
+            let v_max = _mm_set1_epi16(255);
+            let clamp = |v| _mm_min_epi16(_mm_max_epi16(v, _mm_setzero_si128()), v_max);
             let a_h = _mm_unpackhi_epi8(a_values, _mm_setzero_si128());
             let a_l = _mm_unpacklo_epi8(a_values, _mm_setzero_si128());
-            let r_h_16 = sse_div_by255(_mm_mullo_epi16(r_high, a_h));
-            let r_l_16 = sse_div_by255(_mm_mullo_epi16(r_low, a_l));
-            let g_h_16 = sse_div_by255(_mm_mullo_epi16(g_high, a_h));
-            let g_l_16 = sse_div_by255(_mm_mullo_epi16(g_low, a_l));
-            let b_h_16 = sse_div_by255(_mm_mullo_epi16(b_high, a_h));
-            let b_l_16 = sse_div_by255(_mm_mullo_epi16(b_low, a_l));
+            let r_h_16 = sse_div_by255(_mm_mullo_epi16(clamp(r_high), a_h));
+            let r_l_16 = sse_div_by255(_mm_mullo_epi16(clamp(r_low), a_l));
+            let g_h_16 = sse_div_by255(_mm_mullo_epi16(clamp(g_high), a_h));
+            let g_l_16 = sse_div_by255(_mm_mullo_epi16(clamp(g_low), a_l));
+            let b_h_16 = sse_div_by255(_mm_mullo_epi16(clamp(b_high), a_h));
+            let b_l_16 = sse_div_by255(_mm_mullo_epi16(clamp(b_low), a_l));
 
             r_values = _mm_packus_epi16(r_l_16, r_h_16);
             g_values = _mm_packus_epi16(g_l_16, g_h_16);
-- 
2.43.0


From e3986da8cd83bfe2a7faafd3ceeab072e9248836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:47 +0000
Subject: [PATCH 27/33] fix: AVX2 8-bit to f16 rounded every sample to 0 or 1
 and unpacked row tails as 16-bit

---
 src/avx2/f16_converter.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index 85b867f..b24270f 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -130,11 +130,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
 
-            let mut ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
-            let mut hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
-
-            ls_ps = _mm256_round_ps::<0x0>(ls_ps);
-            hs_ps = _mm256_round_ps::<0x0>(hs_ps);
+            let ls_ps = _mm256_mul_ps(lc_ps, v_scale_h);
+            let hs_ps = _mm256_mul_ps(hc_ps, v_scale_h);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(ls_ps);
             let hi = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(hs_ps);
@@ -153,8 +150,9 @@ impl SurfaceU8ToFloat16Avx2 {
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst.as_mut_ptr() as *mut _, lo);
@@ -171,13 +169,14 @@ impl SurfaceU8ToFloat16Avx2 {
 
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), src_buffer.as_mut_ptr(), src_rem.len());
 
-            let items = _mm_unpacklo_epi16(
+            let items = _mm_unpacklo_epi8(
                 _mm_loadu_si64(src_buffer.as_ptr() as *const _),
                 _mm_setzero_si128(),
             );
 
-            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_round_ps::<0x0>(
-                _mm256_mul_ps(_mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)), v_scale_h),
+            let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
+                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                v_scale_h,
             ));
 
             _mm_storeu_si128(dst_buffer.as_mut_ptr() as *mut _, lo);
-- 
2.43.0


From 308e4454c68a8d3e318a74d3d74ec2d55b1528ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 28/33] fix: AVX2 16-bit to f16 sign-extended samples above
 32767

---
 src/avx2/f16_converter.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/avx2/f16_converter.rs b/src/avx2/f16_converter.rs
index b24270f..81fbcd8 100644
--- a/src/avx2/f16_converter.rs
+++ b/src/avx2/f16_converter.rs
@@ -45,8 +45,8 @@ impl SurfaceU16ToFloat16Avx2 {
         for (src, dst) in src.chunks_exact(16).zip(dst.chunks_exact_mut(16)) {
             let items = _mm256_loadu_si256(src.as_ptr() as *const _);
 
-            let lc = _mm256_cvtepi16_epi32(_mm256_castsi256_si128(items));
-            let hc = _mm256_cvtepi16_epi32(_mm256_extracti128_si256::<1>(items));
+            let lc = _mm256_cvtepu16_epi32(_mm256_castsi256_si128(items));
+            let hc = _mm256_cvtepu16_epi32(_mm256_extracti128_si256::<1>(items));
 
             let elc = _mm256_cvtepi32_ps(lc);
             let ehc = _mm256_cvtepi32_ps(hc);
@@ -69,7 +69,7 @@ impl SurfaceU16ToFloat16Avx2 {
             let items = _mm_loadu_si128(src.as_ptr() as *const _);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
@@ -90,7 +90,7 @@ impl SurfaceU16ToFloat16Avx2 {
             let items = _mm_loadu_si128(src_buffer.as_ptr() as *const _);
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
@@ -124,8 +124,8 @@ impl SurfaceU8ToFloat16Avx2 {
             let lo_items = _mm_unpacklo_epi8(items, _mm_setzero_si128());
             let hi_items = _mm_unpackhi_epi8(items, _mm_setzero_si128());
 
-            let l_e32 = _mm256_cvtepi16_epi32(lo_items);
-            let h_e32 = _mm256_cvtepi16_epi32(hi_items);
+            let l_e32 = _mm256_cvtepu16_epi32(lo_items);
+            let h_e32 = _mm256_cvtepu16_epi32(hi_items);
 
             let lc_ps = _mm256_cvtepi32_ps(l_e32);
             let hc_ps = _mm256_cvtepi32_ps(h_e32);
@@ -151,7 +151,7 @@ impl SurfaceU8ToFloat16Avx2 {
             );
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
@@ -175,7 +175,7 @@ impl SurfaceU8ToFloat16Avx2 {
             );
 
             let lo = _mm256_cvtps_ph::<_MM_FROUND_TO_NEAREST_INT>(_mm256_mul_ps(
-                _mm256_cvtepi32_ps(_mm256_cvtepi16_epi32(items)),
+                _mm256_cvtepi32_ps(_mm256_cvtepu16_epi32(items)),
                 v_scale_h,
             ));
 
-- 
2.43.0


From 84af6b65464a93763b76d3db951fbf47b0c9997d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 29/33] fix: high bit-depth gray images were converted without
 any size check

---
 src/y_p16_to_rgb16.rs            | 5 +++++
 src/y_p16_with_alpha_to_rgb16.rs | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/y_p16_to_rgb16.rs b/src/y_p16_to_rgb16.rs
index c017ceb..7e720ea 100644
--- a/src/y_p16_to_rgb16.rs
+++ b/src/y_p16_to_rgb16.rs
@@ -28,6 +28,7 @@
  */
 #[cfg(all(target_arch = "aarch64", target_feature = "neon"))]
 use crate::neon::neon_y_p16_to_rgba16_row;
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayImage};
 use num_traits::AsPrimitive;
@@ -141,6 +142,10 @@ where
     let max_colors = (1 << bit_depth) - 1;
 
     let channels = cn.get_channels_count();
+
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
+    image.check_constraints()?;
+
     let chroma_range = get_yuv_range(bit_depth, range);
     let kr_kb = matrix.get_kr_kb();
 
diff --git a/src/y_p16_with_alpha_to_rgb16.rs b/src/y_p16_with_alpha_to_rgb16.rs
index fa62d3b..3c0ced0 100644
--- a/src/y_p16_with_alpha_to_rgb16.rs
+++ b/src/y_p16_with_alpha_to_rgb16.rs
@@ -26,6 +26,7 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+use crate::yuv_error::check_rgba_destination;
 use crate::yuv_support::*;
 use crate::{YuvError, YuvGrayAlphaImage};
 use num_traits::AsPrimitive;
@@ -58,6 +59,7 @@ where
 
     let channels = cn.get_channels_count();
 
+    check_rgba_destination(rgba16, rgba_stride, image.width, image.height, channels)?;
     image.check_constraints()?;
 
     assert!(
-- 
2.43.0


From 49fd15a1d238aed338c54cf02c98c1d67809541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 30/33] fix: turning a plane by 180 degrees rejected rows
 padded differently from the source

---
 src/geometry.rs | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 08b976b..8ddf4a9 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -28,10 +28,10 @@
  */
 use crate::YuvError;
 use fast_transpose::{
-    rotate180_plane, rotate180_plane16, rotate180_plane16_with_alpha, rotate180_plane_with_alpha,
-    rotate180_rgb, rotate180_rgb16, rotate180_rgba, rotate180_rgba16, transpose_plane,
-    transpose_plane16, transpose_plane16_with_alpha, transpose_plane_with_alpha, transpose_rgb,
-    transpose_rgb16, transpose_rgba, transpose_rgba16, FlipMode, FlopMode, TransposeError,
+    rotate180_arbitrary, rotate180_plane16_with_alpha, rotate180_plane_with_alpha, rotate180_rgb,
+    rotate180_rgb16, rotate180_rgba, rotate180_rgba16, transpose_plane, transpose_plane16,
+    transpose_plane16_with_alpha, transpose_plane_with_alpha, transpose_rgb, transpose_rgb16,
+    transpose_rgba, transpose_rgba16, FlipMode, FlopMode, TransposeError,
 };
 
 /// Declares rotation mode, 90, 180, 270
@@ -42,6 +42,40 @@ pub enum RotationMode {
     Rotate270,
 }
 
+/// Rotates a plane by 180 degrees, source and destination rows may have different padding.
+fn rotate180_padded_plane<V: Copy + Default + 'static>(
+    src: &[V],
+    src_stride: usize,
+    dst: &mut [V],
+    dst_stride: usize,
+    width: usize,
+    height: usize,
+) -> Result<(), TransposeError> {
+    if src.len() == dst.len() {
+        return rotate180_arbitrary(src, src_stride, dst, dst_stride, width, height);
+    }
+    if width == 0
+        || src_stride < width
+        || dst_stride < width
+        || Some(src.len()) != src_stride.checked_mul(height)
+        || Some(dst.len()) != dst_stride.checked_mul(height)
+    {
+        return Err(TransposeError::MismatchDimensions);
+    }
+    for (src_row, dst_row) in src
+        .chunks_exact(src_stride)
+        .zip(dst.chunks_exact_mut(dst_stride).rev())
+    {
+        for (&src, dst) in src_row[..width]
+            .iter()
+            .zip(dst_row[..width].iter_mut().rev())
+        {
+            *dst = src;
+        }
+    }
+    Ok(())
+}
+
 #[inline]
 pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), YuvError> {
     match result {
@@ -244,7 +278,9 @@ pub fn rotate_plane(
             FlipMode::NoFlip,
             FlopMode::NoFlop,
         ),
-        RotationMode::Rotate180 => rotate180_plane(src, src_stride, dst, dst_stride, width, height),
+        RotationMode::Rotate180 => {
+            rotate180_padded_plane(src, src_stride, dst, dst_stride, width, height)
+        }
         RotationMode::Rotate270 => transpose_plane(
             src,
             src_stride,
@@ -453,7 +489,7 @@ pub fn rotate_plane16(
             FlopMode::NoFlop,
         ),
         RotationMode::Rotate180 => {
-            rotate180_plane16(src, src_stride, dst, dst_stride, width, height)
+            rotate180_padded_plane(src, src_stride, dst, dst_stride, width, height)
         }
         RotationMode::Rotate270 => transpose_plane16(
             src,
-- 
2.43.0


From ec5f174f834e63de5a3e74b29586f07968cf8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:27 +0000
Subject: [PATCH 31/33] fix: turning planes, CbCr and RGBA by 90 degrees turned
 some blocks and only transposed the others

---
 src/geometry.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 8ddf4a9..561c5db 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -76,6 +76,18 @@ fn rotate180_padded_plane<V: Copy + Default + 'static>(
     Ok(())
 }
 
+/// Puts the rows of an image in the reverse order.
+///
+/// Together with a transposition this is a turn by 90 degrees: `fast_transpose` itself, for these
+/// pixel sizes, turns some blocks of the image and only transposes the others.
+fn reverse_rows<V>(dst: &mut [V], dst_stride: usize, row_length: usize, rows: usize) {
+    for y in 0..rows / 2 {
+        let (head, bottom) = dst.split_at_mut((rows - 1 - y) * dst_stride);
+        let top = &mut head[y * dst_stride..];
+        top[..row_length].swap_with_slice(&mut bottom[..row_length]);
+    }
+}
+
 #[inline]
 pub(crate) fn map_ft_result(result: Result<(), TransposeError>) -> Result<(), YuvError> {
     match result {
@@ -121,8 +133,9 @@ pub fn rotate_rgba(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => rotate180_rgba(src, src_stride, dst, dst_stride, width, height),
         RotationMode::Rotate270 => transpose_rgba(
             src,
@@ -223,8 +236,9 @@ pub fn rotate_cbcr(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 2, width)),
         RotationMode::Rotate180 => {
             rotate180_plane_with_alpha(src, src_stride, dst, dst_stride, width, height)
         }
@@ -329,8 +343,9 @@ pub fn rotate_rgba16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height * 4, width)),
         RotationMode::Rotate180 => {
             rotate180_rgba16(src, src_stride, dst, dst_stride, width, height)
         }
@@ -486,8 +501,9 @@ pub fn rotate_plane16(
             width,
             height,
             FlipMode::NoFlip,
-            FlopMode::NoFlop,
-        ),
+            FlopMode::Flop,
+        )
+        .map(|_| reverse_rows(dst, dst_stride, height, width)),
         RotationMode::Rotate180 => {
             rotate180_padded_plane(src, src_stride, dst, dst_stride, width, height)
         }
-- 
2.43.0


From 193a2d61a760e73e7b2c5ef9fa2bcc10b47c37e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 32/33] fix: white overflowed to black in 16-bit full-range
 encoding

---
 src/rgb16_to_yuv_p16.rs |  5 ++++-
 src/rgb_to_nv_p16.rs    |  6 +++++-
 src/yuv_support.rs      | 18 +++++++++++++-----
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/rgb16_to_yuv_p16.rs b/src/rgb16_to_yuv_p16.rs
index ad0b794..30e3e26 100644
--- a/src/rgb16_to_yuv_p16.rs
+++ b/src/rgb16_to_yuv_p16.rs
@@ -48,6 +48,7 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     let endianness: YuvEndianness = ENDIANNESS.into();
     let bytes_position: YuvBytesPacking = BYTES_POSITION.into();
     let packing: i32 = 16 - BIT_DEPTH as i32;
+    let v = v.clamp(0, ((1u32 << BIT_DEPTH) - 1) as i32);
     let packed_bytes = match bytes_position {
         YuvBytesPacking::MostSignificantBytes => v << packing,
         YuvBytesPacking::LeastSignificantBytes => v,
@@ -509,7 +510,9 @@ fn rgbx_to_yuv_ant<
     let transform_precise =
         get_forward_transform(max_range, range.range_y, range.range_uv, kr_kb.kr, kr_kb.kb);
 
-    let transform = transform_precise.to_integers(PRECISION as u32);
+    let transform = transform_precise
+        .to_integers(PRECISION as u32)
+        .without_luma_excess(PRECISION as u32);
     let rnd_const: i32 = (1 << (PRECISION - 1)) - 1;
     let bias_y = range.bias_y as i32 * (1 << PRECISION) + rnd_const;
     let bias_uv = range.bias_uv as i32 * (1 << PRECISION) + rnd_const;
diff --git a/src/rgb_to_nv_p16.rs b/src/rgb_to_nv_p16.rs
index 2241d99..915239a 100644
--- a/src/rgb_to_nv_p16.rs
+++ b/src/rgb_to_nv_p16.rs
@@ -47,6 +47,7 @@ fn transform_integer<const ENDIANNESS: u8, const BYTES_POSITION: u8, const BIT_D
     let endianness: YuvEndianness = ENDIANNESS.into();
     let bytes_position: YuvBytesPacking = BYTES_POSITION.into();
     let packing: i32 = 16 - BIT_DEPTH as i32;
+    let v = v.clamp(0, ((1u32 << BIT_DEPTH) - 1) as i32);
     let packed_bytes = match bytes_position {
         YuvBytesPacking::MostSignificantBytes => v << packing,
         YuvBytesPacking::LeastSignificantBytes => v,
@@ -92,7 +93,10 @@ where
 
     let transform_precise =
         get_forward_transform(max_range, range.range_y, range.range_uv, kr_kb.kr, kr_kb.kb);
-    let transform = transform_precise.to_integers(PRECISION as u32).cast::<J>();
+    let transform = transform_precise
+        .to_integers(PRECISION as u32)
+        .without_luma_excess(PRECISION as u32)
+        .cast::<J>();
     const ROUNDING_CONST_BIAS: i32 = (1 << (PRECISION - 1)) - 1;
     let bias_y = range.bias_y as i32 * (1 << PRECISION) + ROUNDING_CONST_BIAS;
     let bias_uv = range.bias_uv as i32 * (1 << PRECISION) + ROUNDING_CONST_BIAS;
diff --git a/src/yuv_support.rs b/src/yuv_support.rs
index 0b7b1e6..aca2383 100644
--- a/src/yuv_support.rs
+++ b/src/yuv_support.rs
@@ -169,6 +169,15 @@ impl ToIntegerTransform for CbCrForwardTransform<f32> {
     }
 }
 
+impl CbCrForwardTransform<i32> {
+    /// Rounded up luma weights must not exceed unity, otherwise white overflows
+    pub(crate) fn without_luma_excess(mut self, precision: u32) -> Self {
+        let excess = self.yr + self.yg + self.yb - (1 << precision);
+        self.yg -= excess.max(0);
+        self
+    }
+}
+
 impl<V> CbCrForwardTransform<V> {
     pub(crate) fn cast<T: Copy + 'static>(&self) -> CbCrForwardTransform<T>
     where
@@ -778,13 +787,12 @@ pub(crate) fn search_forward_transform(
             kr_kb.kr,
             kr_kb.kb,
         );
-        let mut transform = transform_precise.to_integers(precision as u32);
+        let transform = transform_precise.to_integers(precision as u32);
         if precision == 7 {
-            // Rounded up luma weights must not exceed unity, otherwise white overflows
-            let excess = transform.yr + transform.yg + transform.yb - (1 << precision);
-            transform.yg -= excess.max(0);
+            transform.without_luma_excess(precision as u32)
+        } else {
+            transform
         }
-        transform
     }
 }
 
-- 
2.43.0


From e7b588aa99268c5741f51dfab20d9efc7b2b2a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:20 +0000
Subject: [PATCH 33/33] fix: a narrow stride was reported as a wrong length,
 with equal expected and received numbers

---
 src/yuv_error.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/yuv_error.rs b/src/yuv_error.rs
index cc759f0..190cb01 100644
--- a/src/yuv_error.rs
+++ b/src/yuv_error.rs
@@ -130,18 +130,18 @@ pub(crate) fn check_rgba_destination<V>(
         return Err(YuvError::ZeroBaseSize);
     }
     check_overflow_v3(width as usize, height as usize, channels)?;
-    if arr.len() < rgba_stride as usize * (height as usize - 1) + width as usize * channels {
-        return Err(YuvError::DestinationSizeMismatch(MismatchedSize {
-            expected: rgba_stride as usize * height as usize,
-            received: arr.len(),
-        }));
-    }
     if (rgba_stride as usize) < (width as usize * channels) {
         return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
             expected: width as usize * channels,
             received: rgba_stride as usize,
         }));
     }
+    if arr.len() < rgba_stride as usize * (height as usize - 1) + width as usize * channels {
+        return Err(YuvError::DestinationSizeMismatch(MismatchedSize {
+            expected: rgba_stride as usize * height as usize,
+            received: arr.len(),
+        }));
+    }
     Ok(())
 }
 
@@ -158,7 +158,13 @@ pub(crate) fn check_yuv_packed422<V>(
     check_overflow_v2(stride as usize, height as usize)?;
     check_overflow_v2(width as usize, height as usize)?;
     let min_stride = 2 * (width as usize).next_multiple_of(2);
-    if (stride as usize) < min_stride || data.len() != stride as usize * height as usize {
+    if (stride as usize) < min_stride {
+        return Err(YuvError::MinimumStrideSizeMismatch(MismatchedSize {
+            expected: min_stride,
+            received: stride as usize,
+        }));
+    }
+    if data.len() != stride as usize * height as usize {
         return Err(YuvError::PackedFrameSizeMismatch(MismatchedSize {
             expected: stride as usize * height as usize,
             received: data.len(),
-- 
2.43.0

