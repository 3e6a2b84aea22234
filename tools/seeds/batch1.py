import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
seed("scc_palette_chroma_depth", "P23",
 [("src/h265_sps_scc_extension_parser.cc", "uint32_t bit_depth = (comp == 0) ? BitDepth_Y : BitDepth_C;", "uint32_t bit_depth = (comp != 2) ? BitDepth_Y : BitDepth_C;")],
 r'''
  // palette initialisers, 4:2:0, luma 8 bits, chroma 10 bits
  W w; w.u(0, 1).u(1, 1).ue(3).ue(5).u(1, 1).ue(1);
  w.u(0x11, 8).u(0x22, 8).u(0x301, 10).u(0x102, 10).u(0x203, 10).u(0x004, 10).u(2, 2).u(1, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265SpsSccExtensionParser::ParseSpsSccExtension(&bb, 1, 0, 2);
  EXPECT(r != nullptr);
  if (r) {
    EXPECT(r->sps_palette_predictor_initializers.size() == 3);
    EXPECT(r->sps_palette_predictor_initializers[1][0] == 0x301);
    EXPECT(r->sps_palette_predictor_initializers[2][1] == 0x004);
    EXPECT(r->motion_vector_resolution_control_idc == 2);
  }''', "palette initialisers with chroma bit depth different from luma bit depth",
 "the first chroma component of the palette initialisers is read with the luma bit depth", ["h265_sps_scc_extension_parser.h"])
seed("hrd_vcl_cpbcnt_first_layer", "P18",
 [("src/h265_hrd_parameters_parser.cc", '''    if (hrd_parameters->vcl_hrd_parameters_present_flag) {
      // sub_layer_hrd_parameters(i)
      auto CpbCnt = hrd_parameters->cpb_cnt_minus1[i] + 1;''', '''    if (hrd_parameters->vcl_hrd_parameters_present_flag) {
      // sub_layer_hrd_parameters(i)
      auto CpbCnt = hrd_parameters->cpb_cnt_minus1.front() + 1;''')],
 r'''
  W w; w.u(0, 1).u(1, 1).u(0, 1).u(3, 4).u(2, 4).u(1, 5).u(1, 5).u(1, 5);
  w.u(1, 1).ue(0).ue(0).ue(10).ue(11).u(0, 1);            // layer 0: cpb_cnt 1
  w.u(1, 1).ue(4).ue(1).ue(20).ue(21).u(1, 1).ue(22).ue(23).u(0, 1);  // layer 1: cpb_cnt 2
  w.trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265HrdParametersParser::ParseHrdParameters(&bb, 1, 1);
  EXPECT(r != nullptr);
  if (r) {
    EXPECT(r->sub_layer_hrd_parameters_vector.size() == 2);
    auto& s = *r->sub_layer_hrd_parameters_vector[1];
    EXPECT(s.CpbCnt == 2);
    EXPECT(s.bit_rate_value_minus1.size() == 2);
    EXPECT(s.bit_rate_value_minus1.size() == 2 && s.bit_rate_value_minus1[1] == 22);
  }''', "VCL HRD with more than one sub-layer and different CPB counts",
 "the VCL part of every sub-layer uses the CPB count of sub-layer 0", ["h265_hrd_parameters_parser.h"])
seed("scaling_dc_32x32", "P21",
 [("src/h265_scaling_list_data_parser.cc", '''                             ->scaling_list_dc_coef_minus8[sizeId - 2]
                                                          [matrixId]) +
                     8;''', '''                             ->scaling_list_dc_coef_minus8[0][matrixId]) +
                     8;''')],
 r'''
  W w;
  for (int s = 0; s < 4; s++) for (int m = 0; m < 6; m += (s == 3) ? 3 : 1) {
    if (s < 2) { w.u(0, 1).ue(0); continue; }
    w.u(1, 1).se(s == 2 ? 8 : -3);
    for (int i = 0; i < 64; i++) w.se(i == 0 ? 2 : 0);
  }
  w.trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265ScalingListDataParser::ParseScalingListData(&bb);
  EXPECT(r != nullptr);
  if (r) {
    EXPECT(r->ScalingList[2][1][0] == 18);
    EXPECT(r->ScalingList[3][3].size() == 64);
    EXPECT(r->ScalingList[3][3][0] == 7);
  }''', "an explicitly coded 32x32 scaling list whose DC differs from that of the 16x16 list",
 "32x32 lists are accumulated from the 16x16 DC coefficient", ["h265_scaling_list_data_parser.h"])
seed("pwt_chroma_offset_order", "P22",
 [("src/h265_pred_weight_table_parser.cc", "      if (pred_weight_table->chroma_weight_l0_flag[i]) {", "      if (pred_weight_table->chroma_weight_l0_flag[i] &&\n          pred_weight_table->luma_weight_l0_flag[0] <=\n              pred_weight_table->chroma_weight_l0_flag[0]) {")],
 r'''
  W w; w.ue(3).se(1).u(1, 1).u(0, 1).u(0, 1).u(1, 1).se(4).se(-5).se(1).se(2).se(3).se(4).trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265PredWeightTableParser::ParsePredWeightTable(&bb, 1, 1);
  EXPECT(r != nullptr);
  if (r) {
    EXPECT(r->delta_chroma_weight_l0.size() == 1);
    EXPECT(r->delta_chroma_weight_l0.size() == 1 && r->delta_chroma_weight_l0[0][0] == 1 && r->delta_chroma_offset_l0[0][1] == 4);
  }''', "first reference has luma but no chroma weights while a later one has chroma weights",
 "chroma weights of later references are skipped", ["h265_pred_weight_table_parser.h"])
seed("vui_timing_poc_gate", "P17",
 [("src/h265_vui_parameters_parser.cc", "if (vui->vui_poc_proportional_to_timing_flag) {\n      // vui_num_ticks", "if (vui->vui_poc_proportional_to_timing_flag &&\n        !vui->field_seq_flag) {\n      // vui_num_ticks")],
 r'''
  W w; w.u(0, 1).u(0, 1).u(0, 1).u(0, 1);   // aspect, overscan, video signal, chroma loc
  w.u(0, 1).u(1, 1).u(0, 1).u(0, 1);        // neutral, field_seq, frame_field, default display window
  w.u(1, 1).u(1001, 32).u(60000, 32).u(1, 1).ue(6).u(0, 1); // timing
  w.u(0, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265VuiParametersParser::ParseVuiParameters(&bb, 0);
  EXPECT(r != nullptr);
  if (r) { EXPECT(r->vui_num_ticks_poc_diff_one_minus1 == 6); EXPECT(r->bitstream_restriction_flag == 0); EXPECT(r->vui_hrd_parameters_present_flag == 0); }''',
 "field-coded sequence with POC proportional to timing", "vui_num_ticks_poc_diff_one_minus1 is not read for field sequences", ["h265_vui_parameters_parser.h"])
seed("ptl_sublayer_skip_level", "P19",
 [("src/h265_profile_tier_level_parser.cc", "for (uint32_t i = maxNumSubLayersMinus1; i < 8; i++) {", "for (uint32_t i = maxNumSubLayersMinus1 + (maxNumSubLayersMinus1 == 6); i < 8;\n         i++) {")],
 r'''
  // seven sub-layers: two reserved_zero_2bits pairs follow six presence pairs
  W w; w.u(0, 2).u(0, 1).u(1, 5).u(0x60000000u, 32).u(1, 1).u(0, 1).u(0, 1).u(1, 1).u(0, 43).u(0, 1).u(93, 8);
  for (int i = 0; i < 6; i++) w.u(0, 1).u(i == 5, 1);
  w.u(0, 2).u(0, 2).u(77, 8).trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265ProfileTierLevelParser::ParseProfileTierLevel(&bb, true, 6);
  EXPECT(r != nullptr);
  if (r) { EXPECT(r->general_level_idc == 93); EXPECT(!r->sub_layer_level_idc.empty() && r->sub_layer_level_idc.back() == 77); }''',
 "the maximum number of sub-layers (seven)", "one pair of reserved bits is not skipped, shifting all sub-layer data", ["h265_profile_tier_level_parser.h"])
