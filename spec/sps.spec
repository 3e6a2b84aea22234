# 7.3.2.2.1
def sps_MinCbSizeY() = 1 << (log2_min_luma_coding_block_size_minus3 + 3);
syntax sps() cpp "h265nal::H265SpsParser::ParseSps(h265nal::BitBuffer*" file "h265_sps_parser" state "h265nal::H265SpsParser::SpsState"
  hints "pic_width_in_luma_samples=64|128|64|1920|16384 pic_height_in_luma_samples=64|192|1088|64" {
  sps_video_parameter_set_id : u(4);
  sps_max_sub_layers_minus1 : u(3);
  sps_temporal_id_nesting_flag : u(1);
  profile_tier_level = call profile_tier_level(1, sps_max_sub_layers_minus1);
  sps_seq_parameter_set_id : ue() [0 .. 15];
  chroma_format_idc : ue() [0 .. 3];
  if (chroma_format_idc == 3) separate_colour_plane_flag : u(1);
  pic_width_in_luma_samples : ue() [1 .. 16888];
  pic_height_in_luma_samples : ue() [1 .. 16888];
  conformance_window_flag : u(1);
  if (conformance_window_flag) {
    conf_win_left_offset : ue() [0 .. pic_width_in_luma_samples];
    conf_win_right_offset : ue() [0 .. pic_width_in_luma_samples];
    conf_win_top_offset : ue() [0 .. pic_height_in_luma_samples];
    conf_win_bottom_offset : ue() [0 .. pic_height_in_luma_samples];
  }
  bit_depth_luma_minus8 : ue() [0 .. 8];
  bit_depth_chroma_minus8 : ue() [0 .. 8];
  log2_max_pic_order_cnt_lsb_minus4 : ue() [0 .. 12];
  sps_sub_layer_ordering_info_present_flag : u(1);
  for (i = (sps_sub_layer_ordering_info_present_flag ? 0 : sps_max_sub_layers_minus1); i <= sps_max_sub_layers_minus1; i++) {
    sps_max_dec_pic_buffering_minus1[] : ue() [0 .. 15];
    sps_max_num_reorder_pics[] : ue();
    sps_max_latency_increase_plus1[] : ue();
  }
  log2_min_luma_coding_block_size_minus3 : ue() [0 .. 3];
  reject if pic_width_in_luma_samples % sps_MinCbSizeY != 0 || pic_height_in_luma_samples % sps_MinCbSizeY != 0;
  log2_diff_max_min_luma_coding_block_size : ue() [0 .. 3];
  log2_min_luma_transform_block_size_minus2 : ue();
  log2_diff_max_min_luma_transform_block_size : ue();
  max_transform_hierarchy_depth_inter : ue();
  max_transform_hierarchy_depth_intra : ue();
  scaling_list_enabled_flag : u(1);
  if (scaling_list_enabled_flag) {
    sps_scaling_list_data_present_flag : u(1);
    if (sps_scaling_list_data_present_flag) scaling_list_data = call scaling_list_data();
  }
  amp_enabled_flag : u(1);
  sample_adaptive_offset_enabled_flag : u(1);
  pcm_enabled_flag : u(1);
  if (pcm_enabled_flag) {
    pcm_sample_bit_depth_luma_minus1 : u(4);
    pcm_sample_bit_depth_chroma_minus1 : u(4);
    log2_min_pcm_luma_coding_block_size_minus3 : ue();
    log2_diff_max_min_pcm_luma_coding_block_size : ue();
    pcm_loop_filter_disabled_flag : u(1);
  }
  num_short_term_ref_pic_sets : ue() [0 .. 64];
  for (i = 0; i < num_short_term_ref_pic_sets; i++)
    st_ref_pic_set[] = call st_ref_pic_set(i, num_short_term_ref_pic_sets, st_ref_pic_set, 15);
  long_term_ref_pics_present_flag : u(1);
  if (long_term_ref_pics_present_flag) {
    num_long_term_ref_pics_sps : ue() [0 .. 32];
    for (i = 0; i < num_long_term_ref_pics_sps; i++) {
      lt_ref_pic_poc_lsb_sps[] : u(log2_max_pic_order_cnt_lsb_minus4 + 4);
      used_by_curr_pic_lt_sps_flag[] : u(1);
    }
  }
  sps_temporal_mvp_enabled_flag : u(1);
  strong_intra_smoothing_enabled_flag : u(1);
  vui_parameters_present_flag : u(1);
  if (vui_parameters_present_flag) vui_parameters = call vui_parameters(sps_max_sub_layers_minus1);
  sps_extension_present_flag : u(1);
  if (sps_extension_present_flag) {
    sps_range_extension_flag : u(1);
    sps_multilayer_extension_flag : u(1);
    sps_3d_extension_flag : u(1);
    sps_scc_extension_flag : u(1);
    sps_extension_4bits : u(4);
  }
  if (sps_range_extension_flag) sps_range_extension = call sps_range_extension();
  if (sps_multilayer_extension_flag) sps_multilayer_extension = call sps_multilayer_extension();
  if (sps_3d_extension_flag) sps_3d_extension = call sps_3d_extension();
  if (sps_scc_extension_flag) sps_scc_extension = call sps_scc_extension(chroma_format_idc, bit_depth_luma_minus8, bit_depth_chroma_minus8);
  if (sps_extension_4bits)
    while (more_rbsp_data()) sps_extension_data_flag : u(1);
  trailing_bits_opt();
  ensure chroma_format_idc <= 3;
  ensure separate_colour_plane_flag <= 1;
  ensure log2_max_pic_order_cnt_lsb_minus4 <= 12;
  ensure log2_min_luma_coding_block_size_minus3 <= 3;
  ensure log2_diff_max_min_luma_coding_block_size <= 3;
  ensure pic_width_in_luma_samples >= 1 && pic_width_in_luma_samples <= 16888;
  ensure pic_height_in_luma_samples >= 1 && pic_height_in_luma_samples <= 16888;
  ensure conf_win_left_offset <= 16888 && conf_win_right_offset <= 16888 && conf_win_top_offset <= 16888 && conf_win_bottom_offset <= 16888;
  ensure num_short_term_ref_pic_sets <= 64;
  ensure len(st_ref_pic_set) == num_short_term_ref_pic_sets;
  ensure wf_each(st_ref_pic_set);
  ensure num_long_term_ref_pics_sps <= 32;
  ensure !sps_scc_extension_flag || !null(sps_scc_extension);
}
