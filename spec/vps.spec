# 7.3.2.1
syntax vps() cpp "h265nal::H265VpsParser::ParseVps(h265nal::BitBuffer*" file "h265_vps_parser" state "h265nal::H265VpsParser::VpsState"
  hints "vps_num_layer_sets_minus1=0|1|2|3|5 vps_num_hrd_parameters=0|1|2 vps_max_layer_id=0|1|2|62" {
  vps_video_parameter_set_id : u(4);
  vps_base_layer_internal_flag : u(1);
  vps_base_layer_available_flag : u(1);
  vps_max_layers_minus1 : u(6);
  vps_max_sub_layers_minus1 : u(3);
  vps_temporal_id_nesting_flag : u(1);
  vps_reserved_0xffff_16bits : u(16);
  profile_tier_level = call profile_tier_level(1, vps_max_sub_layers_minus1);
  vps_sub_layer_ordering_info_present_flag : u(1);
  for (i = (vps_sub_layer_ordering_info_present_flag ? 0 : vps_max_sub_layers_minus1); i <= vps_max_sub_layers_minus1; i++) {
    vps_max_dec_pic_buffering_minus1[] : ue();
    vps_max_num_reorder_pics[] : ue();
    vps_max_latency_increase_plus1[] : ue();
  }
  vps_max_layer_id : u(6) [0 .. 62];
  vps_num_layer_sets_minus1 : ue() [0 .. 1023];
  for (i = 1; i <= vps_num_layer_sets_minus1; i++) {
    layer_id_included_flag[] = inner();
    for (j = 0; j <= vps_max_layer_id; j++) layer_id_included_flag[i - 1][] : u(1);
  }
  vps_timing_info_present_flag : u(1);
  if (vps_timing_info_present_flag) {
    vps_num_units_in_tick : u(32);
    vps_time_scale : u(32);
    vps_poc_proportional_to_timing_flag : u(1);
    if (vps_poc_proportional_to_timing_flag) vps_num_ticks_poc_diff_one_minus1 : ue() [0 .. 4294967294];
    vps_num_hrd_parameters : ue() [0 .. vps_num_layer_sets_minus1 + 1];
    for (i = 0; i < vps_num_hrd_parameters; i++) {
      inv i == 0 || !null(hrd_parameters);
      hrd_layer_set_idx[] : ue();
      if (i > 0) cprms_present_flag[] : u(1);
      else cprms_present_flag[] = 1;
      hrd_parameters = call hrd_parameters(cprms_present_flag[i], vps_max_sub_layers_minus1);
    }
  }
  ensure vps_num_hrd_parameters == 0 || !null(hrd_parameters);
  vps_extension_flag : u(1);
  if (vps_extension_flag)
    while (more_rbsp_data()) vps_extension_data_flag : u(1);
  trailing_bits_opt();
}
