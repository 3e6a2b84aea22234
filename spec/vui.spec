# H.265 E.2.1
syntax vui_parameters(sps_max_sub_layers_minus1: uint)
  cpp "h265nal::H265VuiParametersParser::ParseVuiParameters(h265nal::BitBuffer*" file "h265_vui_parameters_parser"
  state "h265nal::H265VuiParametersParser::VuiParametersState" {
  require sps_max_sub_layers_minus1 < 0xffffffff;
  aspect_ratio_info_present_flag : u(1);
  if (aspect_ratio_info_present_flag) {
    aspect_ratio_idc : u(8);
    if (aspect_ratio_idc == 255) {
      sar_width : u(16);
      sar_height : u(16);
    }
  }
  overscan_info_present_flag : u(1);
  if (overscan_info_present_flag) overscan_appropriate_flag : u(1);
  video_signal_type_present_flag : u(1);
  if (video_signal_type_present_flag) {
    video_format : u(3);
    video_full_range_flag : u(1);
    colour_description_present_flag : u(1);
    if (colour_description_present_flag) {
      colour_primaries : u(8);
      transfer_characteristics : u(8);
      matrix_coeffs : u(8);
    }
  }
  chroma_loc_info_present_flag : u(1);
  if (chroma_loc_info_present_flag) {
    chroma_sample_loc_type_top_field : ue() [0 .. 5];
    chroma_sample_loc_type_bottom_field : ue() [0 .. 5];
  }
  neutral_chroma_indication_flag : u(1);
  field_seq_flag : u(1);
  frame_field_info_present_flag : u(1);
  default_display_window_flag : u(1);
  if (default_display_window_flag) {
    def_disp_win_left_offset : ue() [0 .. 16384];
    def_disp_win_right_offset : ue() [0 .. 16384];
    def_disp_win_top_offset : ue() [0 .. 16384];
    def_disp_win_bottom_offset : ue() [0 .. 16384];
  }
  vui_timing_info_present_flag : u(1);
  if (vui_timing_info_present_flag) {
    vui_num_units_in_tick : u(32);
    vui_time_scale : u(32);
    vui_poc_proportional_to_timing_flag : u(1);
    if (vui_poc_proportional_to_timing_flag) vui_num_ticks_poc_diff_one_minus1 : ue() [0 .. 0xfffffffe];
    vui_hrd_parameters_present_flag : u(1);
    if (vui_hrd_parameters_present_flag) hrd_parameters = call hrd_parameters(1, sps_max_sub_layers_minus1);
  }
  bitstream_restriction_flag : u(1);
  if (bitstream_restriction_flag) {
    tiles_fixed_structure_flag : u(1);
    motion_vectors_over_pic_boundaries_flag : u(1);
    restricted_ref_pic_lists_flag : u(1);
    min_spatial_segmentation_idc : ue() [0 .. 4095];
    max_bytes_per_pic_denom : ue() [0 .. 16];
    max_bits_per_min_cu_denom : ue() [0 .. 16];
    log2_max_mv_length_horizontal : ue() [0 .. 16];
    log2_max_mv_length_vertical : ue() [0 .. 15];
  }
}
