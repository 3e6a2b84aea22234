From bb002043c49f35a82931ac6e6725e6395c4cefa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 01/37] fix: infer fixed_pic_rate_within_cvs_flag as 1 when
 fixed_pic_rate_general_flag is 1

---
 src/h265_hrd_parameters_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_hrd_parameters_parser.cc b/src/h265_hrd_parameters_parser.cc
index 53c9bc5..e2bfaeb 100644
--- a/src/h265_hrd_parameters_parser.cc
+++ b/src/h265_hrd_parameters_parser.cc
@@ -144,7 +144,9 @@ H265HrdParametersParser::ParseHrdParameters(
       }
       hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(bits_tmp);
     } else {
-      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(0);
+      // when fixed_pic_rate_general_flag[i] is equal to 1, the value of
+      // fixed_pic_rate_within_cvs_flag[i] is inferred to be equal to 1
+      hrd_parameters->fixed_pic_rate_within_cvs_flag.push_back(1);
     }
 
     if (hrd_parameters->fixed_pic_rate_within_cvs_flag[i]) {
-- 
2.43.0


From 53763f016718df32640544d5ed9a378f0caf97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 02/37] fix: read sub_layer_level_idc when
 sub_layer_level_present_flag is set

---
 src/h265_profile_tier_level_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_profile_tier_level_parser.cc b/src/h265_profile_tier_level_parser.cc
index 1333480..9b9e6ea 100644
--- a/src/h265_profile_tier_level_parser.cc
+++ b/src/h265_profile_tier_level_parser.cc
@@ -92,7 +92,7 @@ H265ProfileTierLevelParser::ParseProfileTierLevel(
       }
     }
 
-    if (profile_tier_level->sub_layer_profile_present_flag[i]) {
+    if (profile_tier_level->sub_layer_level_present_flag[i]) {
       // sub_layer_level_idc  u(8)
       if (!bit_buffer->ReadBits(8, bits_tmp)) {
         return nullptr;
-- 
2.43.0


From d4829ab8945db5bd00d6095644d1d41a9a88bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 03/37] fix: avoid signed overflow for large positive signed
 Exp-Golomb values

---
 src/rtc_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index 970852c..f07365d 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -273,7 +273,7 @@ bool BitBuffer::ReadSignedExponentialGolomb(int32_t& val) {
   if ((unsigned_val & 1) == 0) {
     val = -static_cast<int32_t>(unsigned_val / 2);
   } else {
-    val = (static_cast<int32_t>(unsigned_val) + 1) / 2;
+    val = static_cast<int32_t>((unsigned_val + 1) / 2);
   }
   return true;
 }
-- 
2.43.0


From 1590c5c90c87c2885b34ff4705813909cfb9b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:19 +0000
Subject: [PATCH 04/37] fix: reject a PPS whose multilayer extension fails to
 parse

---
 src/h265_pps_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index d33eb84..6ab8815 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -303,6 +303,9 @@ std::shared_ptr<H265PpsParser::PpsState> H265PpsParser::ParsePps(
     pps->pps_multilayer_extension =
         H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
             bit_buffer);
+    if (pps->pps_multilayer_extension == nullptr) {
+      return nullptr;
+    }
   }
 
   if (pps->pps_3d_extension_flag) {
-- 
2.43.0


From 3e723b6f4e4c146bdb066811f121f4b36d1bc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 05/37] fix: read chroma_bit_depth_entry_minus8 when the
 palette is not monochrome

---
 src/h265_pps_scc_extension_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_scc_extension_parser.cc b/src/h265_pps_scc_extension_parser.cc
index 9fcb347..e5819ac 100644
--- a/src/h265_pps_scc_extension_parser.cc
+++ b/src/h265_pps_scc_extension_parser.cc
@@ -104,7 +104,7 @@ H265PpsSccExtensionParser::ParsePpsSccExtension(
         return nullptr;
       }
 
-      if (pps_scc_extension->monochrome_palette_flag) {
+      if (!pps_scc_extension->monochrome_palette_flag) {
         // chroma_bit_depth_entry_minus8  ue(v)
         if (!bit_buffer->ReadExponentialGolomb(
                 pps_scc_extension->chroma_bit_depth_entry_minus8)) {
-- 
2.43.0


From 8b607615d4ec3f1781ea82dc779c30fa0c870cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 06/37] fix: read the PPS multilayer resampling phases as ue(v)

---
 src/h265_pps_multilayer_extension_parser.cc | 29 ++++++++++++---------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/h265_pps_multilayer_extension_parser.cc b/src/h265_pps_multilayer_extension_parser.cc
index 5449234..495f865 100644
--- a/src/h265_pps_multilayer_extension_parser.cc
+++ b/src/h265_pps_multilayer_extension_parser.cc
@@ -33,6 +33,7 @@ std::unique_ptr<H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState>
 H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
     BitBuffer* bit_buffer) noexcept {
   uint32_t bits_tmp;
+  uint32_t golomb_tmp;
   int32_t sgolomb_tmp;
 
   // H265 pps_multilayer_extension() NAL Unit.
@@ -153,29 +154,33 @@ H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(
         bits_tmp);
 
     if (pps_multilayer_extension->resample_phase_set_present_flag.back()) {
-      // phase_hor_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_luma[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_luma[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_luma.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_luma.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_hor_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_hor_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
 
-      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  se(v)
-      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+      // phase_ver_chroma_plus8[ref_loc_offset_layer_id[i]]  ue(v)
+      if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
-      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(sgolomb_tmp);
+      pps_multilayer_extension->phase_ver_chroma_plus8.push_back(
+          static_cast<int32_t>(golomb_tmp));
     }
   }
 
-- 
2.43.0


From c5a2deb5d63cc5916aea826cff3e5b8389bc03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 07/37] fix: no signed overflow when accumulating scaling list
 coefficients

---
 src/h265_scaling_list_data_parser.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/h265_scaling_list_data_parser.cc b/src/h265_scaling_list_data_parser.cc
index e03a3ec..d64ff6d 100644
--- a/src/h265_scaling_list_data_parser.cc
+++ b/src/h265_scaling_list_data_parser.cc
@@ -83,9 +83,10 @@ H265ScalingListDataParser::ParseScalingListData(
             return nullptr;
           }
           nextCoef = static_cast<uint32_t>(
-              scaling_list_data
-                  ->scaling_list_dc_coef_minus8[sizeId - 2][matrixId] +
-              8);
+                         scaling_list_data
+                             ->scaling_list_dc_coef_minus8[sizeId - 2]
+                                                          [matrixId]) +
+                     8;
         }
         for (uint32_t i = 0; i < coefNum; i++) {
           // scaling_list_delta_coef  se(v)
@@ -94,9 +95,10 @@ H265ScalingListDataParser::ParseScalingListData(
                   scaling_list_delta_coef)) {
             return nullptr;
           }
-          nextCoef = static_cast<uint32_t>(static_cast<int32_t>(nextCoef) +
-                                           scaling_list_delta_coef + 256) %
-                     256;
+          nextCoef =
+              (nextCoef + static_cast<uint32_t>(scaling_list_delta_coef) +
+               256) %
+              256;
           scaling_list_data->ScalingList[sizeId][matrixId].push_back(nextCoef);
         }
       }
-- 
2.43.0


From 5a9df0a43a224c6336e6634fcc2f8fdcb2a51233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:54 +0000
Subject: [PATCH 08/37] fix: check the picture size against MinCbSizeY once it
 has been parsed

---
 src/h265_sps_parser.cc | 50 +++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index abe707d..00f18ce 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -123,19 +123,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  uint32_t MinCbSizeY = sps->getMinCbSizeY();
-  if ((sps->pic_width_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_width_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
-            sps->pic_width_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // pic_height_in_luma_samples  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(sps->pic_height_in_luma_samples)) {
@@ -153,18 +140,6 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
 #endif  // FPRINT_ERRORS
     return nullptr;
   }
-  // Rec. ITU-T H.265 v5 (02/2018) Page 78
-  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
-  // integer multiple of MinCbSizeY."
-  if ((sps->pic_height_in_luma_samples == 0) ||
-      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
-       sps->pic_height_in_luma_samples)) {
-#ifdef FPRINT_ERRORS
-    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
-            sps->pic_height_in_luma_samples);
-#endif  // FPRINT_ERRORS
-    return nullptr;
-  }
 
   // conformance_window_flag  u(1)
   if (!bit_buffer->ReadBits(1, sps->conformance_window_flag)) {
@@ -322,6 +297,31 @@ std::shared_ptr<H265SpsParser::SpsState> H265SpsParser::ParseSps(
   if (sps->log2_min_luma_coding_block_size_minus3 > 3) {
     return nullptr;
   }
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_width_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  uint32_t MinCbSizeY = sps->getMinCbSizeY();
+  if ((sps->pic_width_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_width_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_width_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_width_in_luma_samples: %i\n",
+            sps->pic_width_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
+  // Rec. ITU-T H.265 v5 (02/2018) Page 78
+  // "pic_height_in_luma_samples shall not be equal to 0 and shall be an
+  // integer multiple of MinCbSizeY."
+  if ((sps->pic_height_in_luma_samples == 0) ||
+      ((MinCbSizeY * (sps->pic_height_in_luma_samples / MinCbSizeY)) !=
+       sps->pic_height_in_luma_samples)) {
+#ifdef FPRINT_ERRORS
+    fprintf(stderr, "error: invalid sps->pic_height_in_luma_samples: %i\n",
+            sps->pic_height_in_luma_samples);
+#endif  // FPRINT_ERRORS
+    return nullptr;
+  }
 
   // log2_diff_max_min_luma_coding_block_size  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
-- 
2.43.0


From dfb4148b6cf76cadf17cf40c17ead63f9e939658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 09/37] fix: reject short-term reference picture sets with
 out-of-range POC deltas

---
 include/h265_st_ref_pic_set_parser.h | 4 ++++
 src/h265_st_ref_pic_set_parser.cc    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/h265_st_ref_pic_set_parser.h b/include/h265_st_ref_pic_set_parser.h
index 9622390..013540f 100644
--- a/include/h265_st_ref_pic_set_parser.h
+++ b/include/h265_st_ref_pic_set_parser.h
@@ -25,6 +25,10 @@ class H265StRefPicSetParser {
   // of 0 to 2^15 - 1, inclusive."
   const static uint32_t kAbsDeltaRpsMinus1Min = 0;
   const static uint32_t kAbsDeltaRpsMinus1Max = 32767;
+  // Section 7.4.8: "The value of delta_poc_s0_minus1[i] [and of
+  // delta_poc_s1_minus1[i]] shall be in the range of 0 to 2^15 - 1,
+  // inclusive."
+  const static uint32_t kDeltaPocMinus1Max = 32767;
   // Section 7.4.8: "When nuh_layer_id of the current picture is equal to 0,
   // the value of num_negative_pics shall be in the range of 0 to
   // sps_max_dec_pic_buffering_minus1[sps_max_sub_layers_minus1],
diff --git a/src/h265_st_ref_pic_set_parser.cc b/src/h265_st_ref_pic_set_parser.cc
index f530776..2410c59 100644
--- a/src/h265_st_ref_pic_set_parser.cc
+++ b/src/h265_st_ref_pic_set_parser.cc
@@ -317,6 +317,9 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s0_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s0_flag[i] u(1)
@@ -331,6 +334,9 @@ H265StRefPicSetParser::ParseStRefPicSet(
       if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
         return nullptr;
       }
+      if (golomb_tmp > kDeltaPocMinus1Max) {
+        return nullptr;
+      }
       st_ref_pic_set->delta_poc_s1_minus1.push_back(golomb_tmp);
 
       // used_by_curr_pic_s1_flag[i] u(1)
-- 
2.43.0


From d05aedb5dd79d617368dbceff7220b067285138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 10/37] fix: read cprms_present_flag as u(1) and infer
 cprms_present_flag[0] as 1

---
 src/h265_vps_parser.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/h265_vps_parser.cc b/src/h265_vps_parser.cc
index b1700a6..aaea262 100644
--- a/src/h265_vps_parser.cc
+++ b/src/h265_vps_parser.cc
@@ -225,12 +225,13 @@ std::shared_ptr<H265VpsParser::VpsState> H265VpsParser::ParseVps(
 
       if (i > 0) {
         // cprms_present_flag[i]  u(1)
-        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
+        if (!bit_buffer->ReadBits(1, bits_tmp)) {
           return nullptr;
         }
-        vps->cprms_present_flag.push_back(golomb_tmp);
+        vps->cprms_present_flag.push_back(bits_tmp);
       } else {
-        vps->cprms_present_flag.push_back(0);
+        // cprms_present_flag[0] is inferred to be equal to 1
+        vps->cprms_present_flag.push_back(1);
       }
 
       // hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1)
-- 
2.43.0


From ef34ffc42c38565b0af68d6a5eb394e5b222b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 11/37] fix: infer the number of active reference indices from
 the PPS

---
 src/h265_slice_parser.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 2d28f89..21635bd 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -405,6 +405,14 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
             return nullptr;
           }
         }
+      } else {
+        // when not present, the values are inferred from the PPS
+        slice_segment_header->num_ref_idx_l0_active_minus1 =
+            pps->num_ref_idx_l0_default_active_minus1;
+        if (slice_segment_header->slice_type == SliceType_B) {
+          slice_segment_header->num_ref_idx_l1_active_minus1 =
+              pps->num_ref_idx_l1_default_active_minus1;
+        }
       }
 
       slice_segment_header->lists_modification_present_flag =
-- 
2.43.0


From 57425349ea0674cf9fca186853c1eb57801b0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 12/37] fix: infer slice_deblocking_filter_disabled_flag from
 the PPS

---
 src/h265_slice_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 21635bd..965f733 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -572,6 +572,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // when not present, the value of slice_deblocking_filter_disabled_flag is
+    // inferred to be equal to pps_deblocking_filter_disabled_flag
+    slice_segment_header->slice_deblocking_filter_disabled_flag =
+        pps->pps_deblocking_filter_disabled_flag;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From 70d2b7bc724a4d08a654d69fb96ab93eda25cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 13/37] fix: infer slice_loop_filter_across_slices_enabled_flag
 from the PPS

---
 src/h265_slice_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 965f733..cb337aa 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -600,6 +600,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
 
     slice_segment_header->pps_loop_filter_across_slices_enabled_flag =
         pps->pps_loop_filter_across_slices_enabled_flag;
+    // when not present, the value is inferred from the PPS
+    slice_segment_header->slice_loop_filter_across_slices_enabled_flag =
+        pps->pps_loop_filter_across_slices_enabled_flag;
     if (slice_segment_header->pps_loop_filter_across_slices_enabled_flag &&
         (slice_segment_header->slice_sao_luma_flag ||
          slice_segment_header->slice_sao_chroma_flag ||
-- 
2.43.0


From 1659bd7eaa296d4df9b3aa3bcbf5ab3ed6375e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 14/37] fix: derive ChromaArrayType also when SAO is not
 enabled

---
 src/h265_slice_parser.cc | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index cb337aa..506bd0c 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -353,6 +353,19 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
       }
     }
 
+    // Depending on the value of separate_colour_plane_flag, the value of
+    // the variable ChromaArrayType is assigned as follows:
+    // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
+    //   set equal to chroma_format_idc.
+    // - Otherwise (separate_colour_plane_flag is equal to 1),
+    //   ChromaArrayType is set equal to 0.
+    uint32_t chroma_format_idc = sps->chroma_format_idc;
+    if (slice_segment_header->separate_colour_plane_flag == 0) {
+      slice_segment_header->ChromaArrayType = chroma_format_idc;
+    } else {
+      slice_segment_header->ChromaArrayType = 0;
+    }
+
     slice_segment_header->sample_adaptive_offset_enabled_flag =
         sps->sample_adaptive_offset_enabled_flag;
     if (slice_segment_header->sample_adaptive_offset_enabled_flag) {
@@ -361,19 +374,6 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         return nullptr;
       }
 
-      // Depending on the value of separate_colour_plane_flag, the value of
-      // the variable ChromaArrayType is assigned as follows:
-      // - If separate_colour_plane_flag is equal to 0, ChromaArrayType is
-      //   set equal to chroma_format_idc.
-      // - Otherwise (separate_colour_plane_flag is equal to 1),
-      //   ChromaArrayType is set equal to 0.
-      uint32_t chroma_format_idc = sps->chroma_format_idc;
-      if (slice_segment_header->separate_colour_plane_flag == 0) {
-        slice_segment_header->ChromaArrayType = chroma_format_idc;
-      } else {
-        slice_segment_header->ChromaArrayType = 0;
-      }
-
       if (slice_segment_header->ChromaArrayType != 0) {
         // slice_sao_chroma_flag  u(1)
         if (!bit_buffer->ReadBits(
-- 
2.43.0


From f67fa1f11c0d8af375fca3a2583c427e7c363043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 15/37] fix: correct the entry point limit when tiles and WPP
 are both enabled

---
 src/h265_slice_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 506bd0c..1e3c5a6 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -717,7 +717,7 @@ bool H265SliceSegmentHeaderParser::SliceSegmentHeaderState::
   // ( num_tile_columns_minus1 + 1 ) * PicHeightInCtbsY - 1, inclusive.
   if (tiles_enabled_flag == 1 && entropy_coding_sync_enabled_flag == 1) {
     uint32_t max_num_entry_point_offsets =
-        ((pps->num_tile_columns_minus1 + 1) * (sps->getPicHeightInCtbsY() - 1));
+        ((pps->num_tile_columns_minus1 + 1) * sps->getPicHeightInCtbsY() - 1);
     return (num_entry_point_offsets_value <= max_num_entry_point_offsets);
   }
 
-- 
2.43.0


From 7fa9b8e42a433140202dafc459df5b534fbfa835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 16/37] fix: infer pic_output_flag as 1 when it is not present

---
 src/h265_slice_parser.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 1e3c5a6..eb15b30 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -195,6 +195,8 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
 
     slice_segment_header->output_flag_present_flag =
         pps->output_flag_present_flag;
+    // when not present, the value of pic_output_flag is inferred to be 1
+    slice_segment_header->pic_output_flag = 1;
     if (slice_segment_header->output_flag_present_flag) {
       // pic_output_flag  u(1)
       if (!bit_buffer->ReadBits(1, slice_segment_header->pic_output_flag)) {
-- 
2.43.0


From 1b67510934a5fa9ac8de0db7e1f5aacdd5468628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:59 +0000
Subject: [PATCH 17/37] fix: infer the slice deblocking offsets from the PPS

---
 src/h265_slice_parser.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index eb15b30..97e29c8 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -578,6 +578,9 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
     // inferred to be equal to pps_deblocking_filter_disabled_flag
     slice_segment_header->slice_deblocking_filter_disabled_flag =
         pps->pps_deblocking_filter_disabled_flag;
+    // same for slice_beta_offset_div2 and slice_tc_offset_div2
+    slice_segment_header->slice_beta_offset_div2 = pps->pps_beta_offset_div2;
+    slice_segment_header->slice_tc_offset_div2 = pps->pps_tc_offset_div2;
     if (slice_segment_header->deblocking_filter_override_flag) {
       // slice_deblocking_filter_disabled_flag  u(1)
       if (!bit_buffer->ReadBits(
-- 
2.43.0


From fa21f87d884f50efe27c0f8bcca19803f930a4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:01 +0000
Subject: [PATCH 18/37] fix: infer use_integer_mv_flag from
 motion_vector_resolution_control_idc

---
 src/h265_slice_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index 97e29c8..e912a0c 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -503,6 +503,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
                                   slice_segment_header->use_integer_mv_flag)) {
           return nullptr;
         }
+      } else {
+        // inferred to be equal to motion_vector_resolution_control_idc
+        slice_segment_header->use_integer_mv_flag =
+            slice_segment_header->motion_vector_resolution_control_idc;
       }
     }
     // slice_qp_delta  se(v)
-- 
2.43.0


From 1e84063cd9d8b53132ddb5f2f5cf93b777e079e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:35 +0000
Subject: [PATCH 19/37] fix: read pre_lut_target_value with the output bit
 depth

---
 src/h265_sei_parser.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/h265_sei_parser.cc b/src/h265_sei_parser.cc
index 96e36c4..fec52d0 100644
--- a/src/h265_sei_parser.cc
+++ b/src/h265_sei_parser.cc
@@ -523,15 +523,17 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           static_cast<uint8_t>(num_val_minus1);
 
       if (payload_state->pre_lut_num_val_minus1[c] > 0) {
-        uint32_t bit_depth_used = static_cast<uint32_t>(
+        uint32_t input_bit_depth_used = static_cast<uint32_t>(
             ((payload_state->colour_remap_input_bit_depth + 7) >> 3) << 3);
+        uint32_t output_bit_depth_used = static_cast<uint32_t>(
+            ((payload_state->colour_remap_output_bit_depth + 7) >> 3) << 3);
         for (uint32_t i = 0; i <= payload_state->pre_lut_num_val_minus1[c];
              i++) {
           // pre_lut_coded_value[c][i]  u(v)
           // The number of bits used to represent pre_lut_coded_value[c][i]
           // is ((colour_remap_input_bit_depth + 7) >> 3) << 3
           uint32_t coded_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, coded_value)) {
+          if (!bit_buffer->ReadBits(input_bit_depth_used, coded_value)) {
             return nullptr;
           }
           payload_state->pre_lut_coded_value[c].push_back(coded_value);
@@ -540,7 +542,7 @@ H265SeiColourRemappingInfoParser::parse_payload(BitBuffer* bit_buffer,
           // The number of bits used to represent pre_lut_target_value[c][i]
           // is ((colour_remap_output_bit_depth + 7) >> 3) << 3
           uint32_t target_value;
-          if (!bit_buffer->ReadBits(bit_depth_used, target_value)) {
+          if (!bit_buffer->ReadBits(output_bit_depth_used, target_value)) {
             return nullptr;
           }
           payload_state->pre_lut_target_value[c].push_back(target_value);
-- 
2.43.0


From efe4ee7b37d518bee270418024b767668137966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:46 +0000
Subject: [PATCH 20/37] fix: report the NAL unit length, not the size of the
 length field

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 7cea4b2..636c2f4 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -237,7 +237,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     }
     // store the offset
     nal_unit->offset = i;
-    nal_unit->length = nalu_length_bytes;
+    nal_unit->length = nalu_length;
 
     bitstream->nal_units.push_back(std::move(nal_unit));
 
-- 
2.43.0


From e357707b33a37078f41a5082c90f679acd534eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:48 +0000
Subject: [PATCH 21/37] fix: do not let a huge explicit NAL unit length wrap
 around

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 636c2f4..ef34cb7 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -216,7 +216,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
         break;
       }
       i += nalu_length_bytes;
-      if (nalu_length == 0 || i + nalu_length > length) {
+      if (nalu_length == 0 || nalu_length > length - i) {
         break;
       }
     } else {
-- 
2.43.0


From 80aabb22bd03f8cd92c7618388585d8b5c0667a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:50 +0000
Subject: [PATCH 22/37] fix: find a start code in the last three bytes of the
 stream

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index ef34cb7..59e909b 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -60,7 +60,7 @@ H265BitstreamParser::FindNaluIndices(const uint8_t* data,
   }
 
   const size_t end = length - kNaluShortStartSequenceSize;
-  for (size_t i = 0; i < end;) {
+  for (size_t i = 0; i <= end;) {
     if (data[i + 2] > 1) {
       i += 3;
     } else if (data[i + 2] == 0x01 && data[i + 1] == 0x00 && data[i] == 0x00) {
-- 
2.43.0


From 7e85164fa62493de09d5d328a12e76749ba693a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:53 +0000
Subject: [PATCH 23/37] fix: no slice QP for an aggregation packet without NAL
 units

---
 src/h265_utils.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index cf67820..9344dc0 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -89,6 +89,9 @@ std::unique_ptr<int32_t> H265Utils::GetSliceQpY(
     payload = &rtp->rtp_single->nal_unit_payload;
   } else if (rtp->nal_unit_header->nal_unit_type == AP) {
     // use the latest NAL unit in the AP
+    if (rtp->rtp_ap->nal_unit_headers.empty()) {
+      return nullptr;
+    }
     size_t index = rtp->rtp_ap->nal_unit_headers.size() - 1;
     auto& header = rtp->rtp_ap->nal_unit_headers[index];
     nal_unit_type = header->nal_unit_type;
-- 
2.43.0


From 7a7950215859bc48de07d99ace33b3e870664ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:12 +0000
Subject: [PATCH 24/37] fix: signed overflow in the slice QP of out-of-range
 deltas

---
 src/h265_utils.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 9344dc0..3340f71 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -69,7 +69,8 @@ std::unique_ptr<int32_t> GetSliceQpYInternal(
   const auto init_qp_minus26 = pps->init_qp_minus26;
 
   // Equation 7-54, Section 7.4.7.1
-  int32_t slice_qpy = 26 + init_qp_minus26 + slice_qp_delta;
+  int32_t slice_qpy = static_cast<int32_t>(
+      26 + static_cast<int64_t>(init_qp_minus26) + slice_qp_delta);
 
   return std::make_unique<int32_t>(slice_qpy);
 }
-- 
2.43.0


From 64e25384689f1da6c818ff91cf63194371701a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:13 +0000
Subject: [PATCH 25/37] fix: undefined shift in non-symmetric codes of 2^31
 values

---
 src/rtc_common.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index f07365d..bb3653f 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -217,7 +217,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   RTC_DCHECK_GT(num_values, 0);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   if (!ReadBits(count_bits - 1, val)) {
     return false;
@@ -360,7 +361,8 @@ bool BitBufferWriter::WriteNonSymmetric(uint32_t val, uint32_t num_values) {
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values
              ? WriteBits(val, count_bits - 1)
@@ -372,7 +374,8 @@ size_t BitBufferWriter::SizeNonSymmetricBits(uint32_t val,
   RTC_DCHECK_LT(val, num_values);
   RTC_DCHECK_LE(num_values, uint32_t{1} << 31);
   size_t count_bits = CountBits(num_values);
-  uint32_t num_min_bits_values = (uint32_t{1} << count_bits) - num_values;
+  uint32_t num_min_bits_values =
+      static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
   return val < num_min_bits_values ? (count_bits - 1) : count_bits;
 }
-- 
2.43.0


From 3f556e3d51f083ac471c42ead9ad1716a2f4b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 26/37] fix: zero-bit writes and non-symmetric codes of a
 single value

---
 src/rtc_common.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rtc_common.cc b/src/rtc_common.cc
index bb3653f..eec0a27 100644
--- a/src/rtc_common.cc
+++ b/src/rtc_common.cc
@@ -220,7 +220,8 @@ bool BitBuffer::ReadNonSymmetric(uint32_t num_values, uint32_t& val) {
   uint32_t num_min_bits_values =
       static_cast<uint32_t>((uint64_t{1} << count_bits) - num_values);
 
-  if (!ReadBits(count_bits - 1, val)) {
+  val = 0;
+  if (count_bits > 1 && !ReadBits(count_bits - 1, val)) {
     return false;
   }
 
@@ -316,6 +317,10 @@ bool BitBufferWriter::WriteBits(uint64_t val, size_t bit_count) {
   if (bit_count > RemainingBitCount()) {
     return false;
   }
+  if (bit_count == 0) {
+    // nothing to write
+    return true;
+  }
   size_t total_bits = bit_count;
 
   // For simplicity, push the bits we want to read from val to the highest bits.
-- 
2.43.0


From fa676611f4f76fd9ed55bbd63b22748a9dd29891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 27/37] fix: slice QPs used picture parameter sets sent after
 the slice

---
 src/h265_utils.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/h265_utils.cc b/src/h265_utils.cc
index 3340f71..e884a75 100644
--- a/src/h265_utils.cc
+++ b/src/h265_utils.cc
@@ -121,10 +121,16 @@ std::vector<int32_t> H265Utils::GetSliceQpY(
   // parse the incoming bitstream
   ParsingOptions parsing_options;
   parsing_options.add_checksum = false;
-  auto bitstream_state = h265nal::H265BitstreamParser::ParseBitstream(
-      data, length, bitstream_parser_state, parsing_options);
-  // get all possible QP values
-  for (auto& nal_unit : bitstream_state->nal_units) {
+  // get all possible QP values (NAL unit by NAL unit, as a PPS may be replaced
+  // later in the stream)
+  for (const auto& nalu_index :
+       H265BitstreamParser::FindNaluIndices(data, length)) {
+    auto nal_unit = H265NalUnitParser::ParseNalUnit(
+        &data[nalu_index.payload_start_offset], nalu_index.payload_size,
+        bitstream_parser_state, parsing_options);
+    if (nal_unit == nullptr) {
+      continue;
+    }
     uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;
     auto& payload = nal_unit->nal_unit_payload;
     // get the slice QP_Y value
-- 
2.43.0


From 4d81b8acd00da96b03c283e298203539d1551fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:52 +0000
Subject: [PATCH 28/37] fix: printing a NAL unit with an unparsable access unit
 delimiter crashed

---
 src/h265_nal_unit_payload_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_nal_unit_payload_parser.cc b/src/h265_nal_unit_payload_parser.cc
index ff5189f..e1b7a73 100644
--- a/src/h265_nal_unit_payload_parser.cc
+++ b/src/h265_nal_unit_payload_parser.cc
@@ -232,7 +232,9 @@ void H265NalUnitPayloadParser::NalUnitPayloadState::fdump(
       }
       break;
     case AUD_NUT:
-      aud->fdump(outfp, indent_level);
+      if (aud) {
+        aud->fdump(outfp, indent_level);
+      }
       break;
     case EOS_NUT:
       // end_of_seq_rbsp()
-- 
2.43.0


From f06cd6d45b25e6c4fba2a3f18b4de4158c0affe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:54 +0000
Subject: [PATCH 29/37] fix: diff_cu_qp_delta_depth was not printed

---
 src/h265_pps_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index 6ab8815..e5c534f 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -393,7 +393,7 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
 
   if (cu_qp_delta_enabled_flag) {
     fdump_indent_level(outfp, indent_level);
-    fprintf(outfp, "cu_qp_delta_enabled_flag: %i", cu_qp_delta_enabled_flag);
+    fprintf(outfp, "diff_cu_qp_delta_depth: %i", diff_cu_qp_delta_depth);
   }
 
   fdump_indent_level(outfp, indent_level);
-- 
2.43.0


From 265e59009507d115ed9c14f611109ff48510907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 30/37] fix: the SPS and PPS extension data flags were not
 printed

---
 src/h265_pps_parser.cc | 5 +++++
 src/h265_sps_parser.cc | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/h265_pps_parser.cc b/src/h265_pps_parser.cc
index e5c534f..14bdd01 100644
--- a/src/h265_pps_parser.cc
+++ b/src/h265_pps_parser.cc
@@ -545,6 +545,11 @@ void H265PpsParser::PpsState::fdump(FILE* outfp, int indent_level) const {
     pps_scc_extension->fdump(outfp, indent_level);
   }
 
+  if (pps_extension_4bits) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "pps_extension_data_flag: %i", pps_extension_data_flag);
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_sps_parser.cc b/src/h265_sps_parser.cc
index 00f18ce..284dc04 100644
--- a/src/h265_sps_parser.cc
+++ b/src/h265_sps_parser.cc
@@ -843,6 +843,11 @@ void H265SpsParser::SpsState::fdump(FILE* outfp, int indent_level,
     sps_scc_extension->fdump(outfp, indent_level);
   }
 
+  if (sps_extension_4bits) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "sps_extension_data_flag: %i", sps_extension_data_flag);
+  }
+
   if (parsing_options.add_resolution) {
     // add video resolution
     int width = -1;
-- 
2.43.0


From f225b36f934c6489d0f0e7cacac50fa8e8e9e66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:58 +0000
Subject: [PATCH 31/37] fix: printing a configuration record with an invalid
 NAL unit crashed

---
 src/h265_configuration_box_parser.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_configuration_box_parser.cc b/src/h265_configuration_box_parser.cc
index 2031427..b49dd32 100644
--- a/src/h265_configuration_box_parser.cc
+++ b/src/h265_configuration_box_parser.cc
@@ -360,7 +360,9 @@ void H265ConfigurationBoxParser::ConfigurationBoxState::fdump(
       fprintf(outfp, "nalUnitLength[%i][%i]: %i", j, i, nalUnitLength[j][i]);
 
       fdump_indent_level(outfp, indent_level);
-      nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      if (nalUnit[j][i]) {
+        nalUnit[j][i]->fdump(outfp, indent_level, parsing_options);
+      }
     }
   }
 
-- 
2.43.0


From e0d64c15fc093c9268e3190e029ab8c2c26ceac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 32/37] fix: printing NAL units parsed without checksums
 crashed

---
 src/h265_bitstream_parser.cc | 2 ++
 src/h265_nal_unit_parser.cc  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 59e909b..441a881 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -130,6 +130,7 @@ H265BitstreamParser::ParseBitstream(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   // (1) split the input string into a vector of NAL units
   std::vector<NaluIndex> nalu_indices = FindNaluIndices(data, length);
@@ -195,6 +196,7 @@ H265BitstreamParser::ParseBitstreamNALULength(
     H265BitstreamParserState* bitstream_parser_state,
     ParsingOptions parsing_options) noexcept {
   auto bitstream = std::make_unique<BitstreamState>();
+  bitstream->parsing_options_ = parsing_options;
 
   size_t i = 0;
 
diff --git a/src/h265_nal_unit_parser.cc b/src/h265_nal_unit_parser.cc
index c6f35bf..15b2530 100644
--- a/src/h265_nal_unit_parser.cc
+++ b/src/h265_nal_unit_parser.cc
@@ -108,7 +108,7 @@ void H265NalUnitParser::NalUnitState::fdump(
   }
 
   // nal unit checksum
-  if (parsing_options.add_checksum) {
+  if (parsing_options.add_checksum && checksum != nullptr) {
     fdump_indent_level(outfp, indent_level);
     char checksum_printable[64] = {};
     checksum->fdump(checksum_printable, 64);
-- 
2.43.0


From 0d4fe171eef2f5fb6b479326dda1cc35daa1588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 33/37] fix: checksum of an unaligned bit buffer did not
 terminate

---
 src/h265_common.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 2a2a3e4..5c64f31 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -692,7 +692,10 @@ std::shared_ptr<NaluChecksum> NaluChecksum::GetNaluChecksum(
   uint8_t val8 = 0;
   val = 0;
   while (bit_buffer->RemainingBitCount() > 0) {
-    (void)bit_buffer->ReadUInt8(val8);
+    if (!bit_buffer->ReadUInt8(val8)) {
+      // less than a byte left (unaligned buffer)
+      break;
+    }
     val |= (static_cast<uint32_t>(val8) << (8 * (3 - i)));
     i += 1;
   }
-- 
2.43.0


From 7e182251c276a7d38c91241ec10bed5bfb17e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 34/37] fix: length framing did not advance past a frame of
 2^32-4 bytes or more

---
 src/h265_bitstream_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_bitstream_parser.cc b/src/h265_bitstream_parser.cc
index 441a881..85135d0 100644
--- a/src/h265_bitstream_parser.cc
+++ b/src/h265_bitstream_parser.cc
@@ -112,7 +112,7 @@ H265BitstreamParser::FindNaluIndicesExplicitFraming(const uint8_t* data,
     // This is a start sequence
     NaluIndex index = {i, i + 4, nal_unit_size};
     sequences.push_back(index);
-    i += (4 + nal_unit_size);
+    i += 4 + static_cast<size_t>(nal_unit_size);
   }
 
   return sequences;
-- 
2.43.0


From 75faee55e202265e1ec7496a126f63943b840b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:02 +0000
Subject: [PATCH 35/37] fix: list 1 of pred_weight_table was not parsed, so B
 slices with weighted prediction were misread

---
 include/h265_pred_weight_table_parser.h |   8 +-
 src/h265_pred_weight_table_parser.cc    | 126 +++++++++++++++++++++++-
 src/h265_slice_parser.cc                |   5 +-
 3 files changed, 133 insertions(+), 6 deletions(-)

diff --git a/include/h265_pred_weight_table_parser.h b/include/h265_pred_weight_table_parser.h
index 0a455d0..a194e37 100644
--- a/include/h265_pred_weight_table_parser.h
+++ b/include/h265_pred_weight_table_parser.h
@@ -35,6 +35,8 @@ class H265PredWeightTableParser {
     // input parameters
     uint32_t ChromaArrayType = 0;
     uint32_t num_ref_idx_l0_active_minus1 = 0;
+    // number of active entries of list 1 (0 if the slice is not a B slice)
+    uint32_t num_ref_idx_l1_active = 0;
 
     // contents
     uint32_t luma_log2_weight_denom = 0;
@@ -57,10 +59,12 @@ class H265PredWeightTableParser {
   // Unpack RBSP and parse PredWeightTable state from the supplied buffer.
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1,
+      uint32_t num_ref_idx_l1_active = 0) noexcept;
   static std::unique_ptr<PredWeightTableState> ParsePredWeightTable(
       BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-      uint32_t num_ref_idx_l0_active_minus1) noexcept;
+      uint32_t num_ref_idx_l0_active_minus1,
+      uint32_t num_ref_idx_l1_active = 0) noexcept;
 };
 
 }  // namespace h265nal
diff --git a/src/h265_pred_weight_table_parser.cc b/src/h265_pred_weight_table_parser.cc
index bff9207..8ed39a1 100644
--- a/src/h265_pred_weight_table_parser.cc
+++ b/src/h265_pred_weight_table_parser.cc
@@ -23,17 +23,20 @@ namespace h265nal {
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     const uint8_t* data, size_t length, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1,
+    uint32_t num_ref_idx_l1_active) noexcept {
   std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
   BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
   return ParsePredWeightTable(&bit_buffer, ChromaArrayType,
-                              num_ref_idx_l0_active_minus1);
+                              num_ref_idx_l0_active_minus1,
+                              num_ref_idx_l1_active);
 }
 
 std::unique_ptr<H265PredWeightTableParser::PredWeightTableState>
 H265PredWeightTableParser::ParsePredWeightTable(
     BitBuffer* bit_buffer, uint32_t ChromaArrayType,
-    uint32_t num_ref_idx_l0_active_minus1) noexcept {
+    uint32_t num_ref_idx_l0_active_minus1,
+    uint32_t num_ref_idx_l1_active) noexcept {
   uint32_t bits_tmp;
   int32_t sgolomb_tmp;
 
@@ -45,6 +48,7 @@ H265PredWeightTableParser::ParsePredWeightTable(
   pred_weight_table->ChromaArrayType = ChromaArrayType;
   pred_weight_table->num_ref_idx_l0_active_minus1 =
       num_ref_idx_l0_active_minus1;
+  pred_weight_table->num_ref_idx_l1_active = num_ref_idx_l1_active;
 
   // luma_log2_weight_denom  ue(v)
   if (!bit_buffer->ReadExponentialGolomb(
@@ -121,6 +125,66 @@ H265PredWeightTableParser::ParsePredWeightTable(
     }
   }
 
+  // list 1 (B slices only: num_ref_idx_l1_active is 0 otherwise)
+  for (uint32_t i = 0; i < pred_weight_table->num_ref_idx_l1_active; ++i) {
+    // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+    // "1 (is not same POC and same layer_id)"
+    // luma_weight_l1_flag[i]  u(1)
+    if (!bit_buffer->ReadBits(1, bits_tmp)) {
+      return nullptr;
+    }
+    pred_weight_table->luma_weight_l1_flag.push_back(bits_tmp);
+  }
+
+  if (pred_weight_table->ChromaArrayType != 0) {
+    for (uint32_t i = 0; i < pred_weight_table->num_ref_idx_l1_active;
+         ++i) {
+      // from ffmpeg/libavcodec/cbs_h265_syntax_template.c
+      // "1 (is not same POC and same layer_id)"
+      // chroma_weight_l1_flag[i]  u(1)
+      if (!bit_buffer->ReadBits(1, bits_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->chroma_weight_l1_flag.push_back(bits_tmp);
+    }
+  }
+
+  for (uint32_t i = 0; i < pred_weight_table->num_ref_idx_l1_active; ++i) {
+    if (pred_weight_table->luma_weight_l1_flag[i]) {
+      // delta_luma_weight_l1[i]  se(v)
+      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->delta_luma_weight_l1.push_back(sgolomb_tmp);
+      // luma_offset_l1[i]  se(v)
+      if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+        return nullptr;
+      }
+      pred_weight_table->luma_offset_l1.push_back(sgolomb_tmp);
+    }
+    if (pred_weight_table->ChromaArrayType != 0) {
+      if (pred_weight_table->chroma_weight_l1_flag[i]) {
+        pred_weight_table->delta_chroma_weight_l1.emplace_back();
+        pred_weight_table->delta_chroma_offset_l1.emplace_back();
+        for (int j = 0; j < 2; ++j) {
+          // delta_chroma_weight_l1[i][j]  se(v)
+          if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+            return nullptr;
+          }
+          pred_weight_table->delta_chroma_weight_l1.back().push_back(
+              sgolomb_tmp);
+
+          // delta_chroma_offset_l1[i][j]  se(v)
+          if (!bit_buffer->ReadSignedExponentialGolomb(sgolomb_tmp)) {
+            return nullptr;
+          }
+          pred_weight_table->delta_chroma_offset_l1.back().push_back(
+              sgolomb_tmp);
+        }
+      }
+    }
+  }
+
   return pred_weight_table;
 }
 
@@ -193,6 +257,62 @@ void H265PredWeightTableParser::PredWeightTableState::fdump(
     fprintf(outfp, " }");
   }
 
+  if (num_ref_idx_l1_active > 0) {
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_weight_l1_flag {");
+    for (const uint32_t& v : luma_weight_l1_flag) {
+      fprintf(outfp, " %u", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "chroma_weight_l1_flag {");
+      for (const uint32_t& v : chroma_weight_l1_flag) {
+        fprintf(outfp, " %u", v);
+      }
+      fprintf(outfp, " }");
+    }
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "delta_luma_weight_l1 {");
+    for (const int32_t& v : delta_luma_weight_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    fdump_indent_level(outfp, indent_level);
+    fprintf(outfp, "luma_offset_l1 {");
+    for (const int32_t& v : luma_offset_l1) {
+      fprintf(outfp, " %i", v);
+    }
+    fprintf(outfp, " }");
+
+    if (ChromaArrayType != 0) {
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_weight_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_weight_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+
+      fdump_indent_level(outfp, indent_level);
+      fprintf(outfp, "delta_chroma_offset_l1 {");
+      for (const std::vector<int32_t>& vv : delta_chroma_offset_l1) {
+        fprintf(outfp, " {");
+        for (const int32_t& v : vv) {
+          fprintf(outfp, " %i", v);
+        }
+        fprintf(outfp, " }");
+      }
+      fprintf(outfp, " }");
+    }
+  }
+
   indent_level = indent_level_decr(indent_level);
   fdump_indent_level(outfp, indent_level);
   fprintf(outfp, "}");
diff --git a/src/h265_slice_parser.cc b/src/h265_slice_parser.cc
index e912a0c..dc5543f 100644
--- a/src/h265_slice_parser.cc
+++ b/src/h265_slice_parser.cc
@@ -478,7 +478,10 @@ H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(
         slice_segment_header->pred_weight_table =
             H265PredWeightTableParser::ParsePredWeightTable(
                 bit_buffer, slice_segment_header->ChromaArrayType,
-                slice_segment_header->num_ref_idx_l0_active_minus1);
+                slice_segment_header->num_ref_idx_l0_active_minus1,
+                (slice_segment_header->slice_type == SliceType_B)
+                    ? slice_segment_header->num_ref_idx_l1_active_minus1 + 1
+                    : 0);
         if (slice_segment_header->pred_weight_table == nullptr) {
           return nullptr;
         }
-- 
2.43.0


From b94ef1e2628d0f1cdbf2f61a9a6aace701892be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:27 +0000
Subject: [PATCH 36/37] fix: the High Throughput profile was printed as
 "Unknown"

---
 src/h265_common.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 5c64f31..7f24a7e 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -311,6 +311,10 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       str = "FRExt";
       break;
 
+    case HIGH_THROUGHPUT:
+      str = "High Throughput";
+      break;
+
     case MULTIVIEW_MAIN:
       str = "Multiview Main";
       break;
-- 
2.43.0


From 52177f35b9e0e04bb78c070677cfc31446598dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:28 +0000
Subject: [PATCH 37/37] fix: the 10-bit 4:4:4 still picture profile was printed
 as 8-bit

---
 src/h265_common.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/h265_common.cc b/src/h265_common.cc
index 7f24a7e..09ddda8 100644
--- a/src/h265_common.cc
+++ b/src/h265_common.cc
@@ -503,7 +503,7 @@ void profileTypeToString(enum ProfileType profile, std::string& str) {
       break;
 
     case MAIN_444_10_STILL_PICTURE:
-      str = "Main (8-bit) 4:4:4 Still Picture";
+      str = "Main (10-bit) 4:4:4 Still Picture";
       break;
 
     default:
-- 
2.43.0

