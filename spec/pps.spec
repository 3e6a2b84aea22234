# F.7.3.2.3.4 (colour mapping tables are not supported by the library)
syntax pps_multilayer_extension() cpp "h265nal::H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(h265nal::BitBuffer*" file "h265_pps_multilayer_extension_parser"
  state "h265nal::H265PpsMultilayerExtensionParser::PpsMultilayerExtensionState" {
  poc_reset_info_present_flag : u(1);
  pps_infer_scaling_list_flag : u(1);
  if (pps_infer_scaling_list_flag) pps_scaling_list_ref_layer_id : u(6);
  num_ref_loc_offsets : ue();
  for (i = 0; i < num_ref_loc_offsets; i++) {
    ref_loc_offset_layer_id[] : u(6);
    scaled_ref_layer_offset_present_flag[] : u(1);
    if (scaled_ref_layer_offset_present_flag[i]) {
      scaled_ref_layer_left_offset[] : se();
      scaled_ref_layer_top_offset[] : se();
      scaled_ref_layer_right_offset[] : se();
      scaled_ref_layer_bottom_offset[] : se();
    }
    ref_region_offset_present_flag[] : u(1);
    if (ref_region_offset_present_flag[i]) {
      ref_region_left_offset[] : se();
      ref_region_top_offset[] : se();
      ref_region_right_offset[] : se();
      ref_region_bottom_offset[] : se();
    }
    resample_phase_set_present_flag[] : u(1);
    if (resample_phase_set_present_flag[i]) {
      phase_hor_luma[] : ue();
      phase_ver_luma[] : ue();
      phase_hor_chroma_plus8[] : ue();
      phase_ver_chroma_plus8[] : ue();
    }
  }
  colour_mapping_enabled_flag : u(1);
  reject if colour_mapping_enabled_flag;
}

# 7.3.2.3.3
syntax pps_scc_extension() cpp "h265nal::H265PpsSccExtensionParser::ParsePpsSccExtension(h265nal::BitBuffer*" file "h265_pps_scc_extension_parser"
  state "h265nal::H265PpsSccExtensionParser::PpsSccExtensionState" {
  pps_curr_pic_ref_enabled_flag : u(1);
  residual_adaptive_colour_transform_enabled_flag : u(1);
  if (residual_adaptive_colour_transform_enabled_flag) {
    pps_slice_act_qp_offsets_present_flag : u(1);
    pps_act_y_qp_offset_plus5 : se();
    pps_act_cb_qp_offset_plus5 : se();
    pps_act_cr_qp_offset_plus3 : se();
  }
  pps_palette_predictor_initializer_present_flag : u(1);
  if (pps_palette_predictor_initializer_present_flag) {
    pps_num_palette_predictor_initializer : ue();
    if (pps_num_palette_predictor_initializer > 0) {
      monochrome_palette_flag : u(1);
      luma_bit_depth_entry_minus8 : ue();
      if (!monochrome_palette_flag) chroma_bit_depth_entry_minus8 : ue();
      let numComps = monochrome_palette_flag ? 1 : 3;
      for (comp = 0; comp < numComps; comp++) {
        pps_palette_predictor_initializers[] = inner();
        for (i = 0; i < pps_num_palette_predictor_initializer; i++) {
          let depth = u32(8 + (comp == 0 ? luma_bit_depth_entry_minus8 : chroma_bit_depth_entry_minus8));
          reject if depth == 0 || depth > 32;
          pps_palette_predictor_initializers[comp][] : u(depth);
        }
      }
    }
  }
}

# 7.3.2.3.1 (range and 3D extensions are not supported by the library)
syntax pps() cpp "h265nal::H265PpsParser::ParsePps(h265nal::BitBuffer*" file "h265_pps_parser" state "h265nal::H265PpsParser::PpsState" {
  pps_pic_parameter_set_id : ue();
  pps_seq_parameter_set_id : ue();
  dependent_slice_segments_enabled_flag : u(1);
  output_flag_present_flag : u(1);
  num_extra_slice_header_bits : u(3);
  sign_data_hiding_enabled_flag : u(1);
  cabac_init_present_flag : u(1);
  ensure num_ref_idx_l0_default_active_minus1 < 0xffffffff;
  ensure tiles_enabled_flag <= 1 && entropy_coding_sync_enabled_flag <= 1;
  num_ref_idx_l0_default_active_minus1 : ue();
  num_ref_idx_l1_default_active_minus1 : ue();
  init_qp_minus26 : se();
  constrained_intra_pred_flag : u(1);
  transform_skip_enabled_flag : u(1);
  cu_qp_delta_enabled_flag : u(1);
  if (cu_qp_delta_enabled_flag) diff_cu_qp_delta_depth : ue();
  pps_cb_qp_offset : se();
  pps_cr_qp_offset : se();
  pps_slice_chroma_qp_offsets_present_flag : u(1);
  weighted_pred_flag : u(1);
  weighted_bipred_flag : u(1);
  transquant_bypass_enabled_flag : u(1);
  tiles_enabled_flag : u(1);
  entropy_coding_sync_enabled_flag : u(1);
  if (tiles_enabled_flag) {
    num_tile_columns_minus1 : ue();
    num_tile_rows_minus1 : ue();
    uniform_spacing_flag : u(1);
    if (!uniform_spacing_flag) {
      for (i = 0; i < num_tile_columns_minus1; i++) column_width_minus1[] : ue();
      for (i = 0; i < num_tile_rows_minus1; i++) row_height_minus1[] : ue();
    }
    loop_filter_across_tiles_enabled_flag : u(1);
  }
  pps_loop_filter_across_slices_enabled_flag : u(1);
  deblocking_filter_control_present_flag : u(1);
  if (deblocking_filter_control_present_flag) {
    deblocking_filter_override_enabled_flag : u(1);
    pps_deblocking_filter_disabled_flag : u(1);
    if (!pps_deblocking_filter_disabled_flag) {
      pps_beta_offset_div2 : se();
      pps_tc_offset_div2 : se();
    }
  }
  pps_scaling_list_data_present_flag : u(1);
  if (pps_scaling_list_data_present_flag) scaling_list_data = call scaling_list_data();
  lists_modification_present_flag : u(1);
  log2_parallel_merge_level_minus2 : ue();
  slice_segment_header_extension_present_flag : u(1);
  pps_extension_present_flag : u(1);
  if (pps_extension_present_flag) {
    pps_range_extension_flag : u(1);
    pps_multilayer_extension_flag : u(1);
    pps_3d_extension_flag : u(1);
    pps_scc_extension_flag : u(1);
    pps_extension_4bits : u(4);
  }
  reject if pps_range_extension_flag;
  if (pps_multilayer_extension_flag) pps_multilayer_extension = call pps_multilayer_extension();
  reject if pps_3d_extension_flag;
  if (pps_scc_extension_flag) pps_scc_extension = call pps_scc_extension();
  if (pps_extension_4bits)
    while (more_rbsp_data()) pps_extension_data_flag : u(1);
  trailing_bits_opt();
  ensure !pps_scc_extension_flag || !null(pps_scc_extension);
}
