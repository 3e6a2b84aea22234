# 7.3.6.1, semantics 7.4.7.1
def Ctb(s) = 1 << (s.log2_min_luma_coding_block_size_minus3 + 3 + s.log2_diff_max_min_luma_coding_block_size);
def PicWidthInCtbsY(s) = ceil_div(s.pic_width_in_luma_samples, Ctb(s));
def PicHeightInCtbsY(s) = ceil_div(s.pic_height_in_luma_samples, Ctb(s));

syntax slice_segment_header(nal_unit_type_: uint, bps: world "h265nal::H265BitstreamParserState")
  cpp "h265nal::H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(h265nal::BitBuffer*" file "h265_slice_parser"
  state "h265nal::H265SliceSegmentHeaderParser::SliceSegmentHeaderState" args "nal_unit_type_=0..63" hints "nal_unit_type_=0|1|19|20|21|16|8 slice_type=0|1|2|0|1 num_entry_point_offsets=0|1|2|3" {
  require wf_world(bps);
  default collocated_from_l0_flag = 1;
  nal_unit_type = nal_unit_type_;
  first_slice_segment_in_pic_flag : u(1);
  if (nal_unit_type >= 16 && nal_unit_type <= 23) no_output_of_prior_pics_flag : u(1);
  slice_pic_parameter_set_id : ue();
  reject if !has(bps.pps, slice_pic_parameter_set_id);
  let pps = bps.pps[slice_pic_parameter_set_id];
  reject if !has(bps.sps, pps.pps_seq_parameter_set_id);
  let sps = bps.sps[pps.pps_seq_parameter_set_id];
  if (!first_slice_segment_in_pic_flag) {
    dependent_slice_segments_enabled_flag = pps.dependent_slice_segments_enabled_flag;
    if (dependent_slice_segments_enabled_flag) dependent_slice_segment_flag : u(1);
    let PicSizeInCtbsY = u32(mul(PicWidthInCtbsY(sps), PicHeightInCtbsY(sps)));
    reject if PicSizeInCtbsY <= 1;
    slice_segment_address : u(ceil_log2(PicSizeInCtbsY));
  }
  if (!dependent_slice_segment_flag) {
    num_extra_slice_header_bits = pps.num_extra_slice_header_bits;
    for (i = 0; i < num_extra_slice_header_bits; i++) slice_reserved_flag[] : u(1);
    slice_type : ue();
    output_flag_present_flag = pps.output_flag_present_flag;
    pic_output_flag = 1;
    if (output_flag_present_flag) pic_output_flag : u(1);
    separate_colour_plane_flag = sps.separate_colour_plane_flag;
    if (separate_colour_plane_flag == 1) colour_plane_id : u(2);
    if (nal_unit_type != 19 && nal_unit_type != 20) {
      log2_max_pic_order_cnt_lsb_minus4 = sps.log2_max_pic_order_cnt_lsb_minus4;
      slice_pic_order_cnt_lsb : u(log2_max_pic_order_cnt_lsb_minus4 + 4);
      short_term_ref_pic_set_sps_flag : u(1);
      num_short_term_ref_pic_sets = sps.num_short_term_ref_pic_sets;
      if (!short_term_ref_pic_set_sps_flag)
        st_ref_pic_set = call st_ref_pic_set(num_short_term_ref_pic_sets, num_short_term_ref_pic_sets, sps.st_ref_pic_set, 15);
      else if (num_short_term_ref_pic_sets > 1)
        short_term_ref_pic_set_idx : u(ceil_log2(num_short_term_ref_pic_sets));
      long_term_ref_pics_present_flag = sps.long_term_ref_pics_present_flag;
      if (long_term_ref_pics_present_flag) {
        num_long_term_ref_pics_sps = sps.num_long_term_ref_pics_sps;
        if (num_long_term_ref_pics_sps > 0) num_long_term_sps : ue();
        num_long_term_pics : ue();
        for (i = 0; i < num_long_term_sps + num_long_term_pics; i++) {
          inv i > 0 || len(delta_poc_msb_present_flag) == 0 && len(delta_poc_msb_cycle_lt) == 0;
          inv len(lt_idx_sps) == 0 || (i > 0 && num_long_term_sps > 0 && num_long_term_ref_pics_sps > 1);
          inv (len(poc_lsb_lt) == 0 && len(used_by_curr_pic_lt_flag) == 0) || i > num_long_term_sps;
          if (i < num_long_term_sps) {
            if (num_long_term_ref_pics_sps > 1) lt_idx_sps[] : u(ceil_log2(num_long_term_ref_pics_sps));
          } else {
            poc_lsb_lt[] : u(log2_max_pic_order_cnt_lsb_minus4 + 4);
            used_by_curr_pic_lt_flag[] : u(1);
          }
          delta_poc_msb_present_flag[] : u(1);
          if (delta_poc_msb_present_flag[i]) delta_poc_msb_cycle_lt[] : ue();
        }
      }
      sps_temporal_mvp_enabled_flag = sps.sps_temporal_mvp_enabled_flag;
      if (sps_temporal_mvp_enabled_flag) slice_temporal_mvp_enabled_flag : u(1);
    }
    ChromaArrayType = (separate_colour_plane_flag == 0 ? sps.chroma_format_idc : 0);
    sample_adaptive_offset_enabled_flag = sps.sample_adaptive_offset_enabled_flag;
    if (sample_adaptive_offset_enabled_flag) {
      slice_sao_luma_flag : u(1);
      if (ChromaArrayType != 0) slice_sao_chroma_flag : u(1);
    }
    if (slice_type == 1 || slice_type == 0) {
      num_ref_idx_active_override_flag : u(1);
      if (num_ref_idx_active_override_flag) {
        num_ref_idx_l0_active_minus1 : ue();
        if (slice_type == 0) num_ref_idx_l1_active_minus1 : ue();
      } else {
        num_ref_idx_l0_active_minus1 = pps.num_ref_idx_l0_default_active_minus1;
        if (slice_type == 0) num_ref_idx_l1_active_minus1 = pps.num_ref_idx_l1_default_active_minus1;
      }
      lists_modification_present_flag = pps.lists_modification_present_flag;
      if (slice_type == 0) mvd_l1_zero_flag : u(1);
      cabac_init_present_flag = pps.cabac_init_present_flag;
      if (cabac_init_present_flag) cabac_init_flag : u(1);
      if (slice_temporal_mvp_enabled_flag) {
        if (slice_type == 0) collocated_from_l0_flag : u(1);
        if ((collocated_from_l0_flag && num_ref_idx_l0_active_minus1 > 0) || (!collocated_from_l0_flag && num_ref_idx_l1_active_minus1 > 0))
          collocated_ref_idx : ue();
      }
      weighted_pred_flag = pps.weighted_pred_flag;
      weighted_bipred_flag = pps.weighted_bipred_flag;
      if ((weighted_pred_flag && slice_type == 1) || (weighted_bipred_flag && slice_type == 0))
        pred_weight_table = call pred_weight_table(ChromaArrayType, num_ref_idx_l0_active_minus1, slice_type == 0 ? u32(num_ref_idx_l1_active_minus1 + 1) : 0);
      five_minus_max_num_merge_cand : ue();
      if (sps.sps_scc_extension_flag) motion_vector_resolution_control_idc = sps.sps_scc_extension.motion_vector_resolution_control_idc;
      if (motion_vector_resolution_control_idc == 2) use_integer_mv_flag : u(1);
      else use_integer_mv_flag = motion_vector_resolution_control_idc;
    }
    slice_qp_delta : se();
    pps_slice_chroma_qp_offsets_present_flag = pps.pps_slice_chroma_qp_offsets_present_flag;
    if (pps_slice_chroma_qp_offsets_present_flag) {
      slice_cb_qp_offset : se();
      slice_cr_qp_offset : se();
    }
    if (pps.pps_scc_extension_flag) pps_slice_act_qp_offsets_present_flag = pps.pps_scc_extension.pps_slice_act_qp_offsets_present_flag;
    if (pps_slice_act_qp_offsets_present_flag) {
      slice_act_y_qp_offset : se();
      slice_act_cb_qp_offset : se();
      slice_act_cr_qp_offset : se();
    }
    deblocking_filter_override_enabled_flag = pps.deblocking_filter_override_enabled_flag;
    if (deblocking_filter_override_enabled_flag) deblocking_filter_override_flag : u(1);
    slice_deblocking_filter_disabled_flag = pps.pps_deblocking_filter_disabled_flag;
    slice_beta_offset_div2 = pps.pps_beta_offset_div2;
    slice_tc_offset_div2 = pps.pps_tc_offset_div2;
    if (deblocking_filter_override_flag) {
      slice_deblocking_filter_disabled_flag : u(1);
      if (!slice_deblocking_filter_disabled_flag) {
        slice_beta_offset_div2 : se();
        slice_tc_offset_div2 : se();
      }
    }
    pps_loop_filter_across_slices_enabled_flag = pps.pps_loop_filter_across_slices_enabled_flag;
    slice_loop_filter_across_slices_enabled_flag = pps_loop_filter_across_slices_enabled_flag;
    if (pps_loop_filter_across_slices_enabled_flag && (slice_sao_luma_flag || slice_sao_chroma_flag || !slice_deblocking_filter_disabled_flag))
      slice_loop_filter_across_slices_enabled_flag : u(1);
  }
  tiles_enabled_flag = pps.tiles_enabled_flag;
  entropy_coding_sync_enabled_flag = pps.entropy_coding_sync_enabled_flag;
  if (tiles_enabled_flag || entropy_coding_sync_enabled_flag) {
    num_entry_point_offsets : ue();
    let tiles = (tiles_enabled_flag ? u32(pps.num_tile_columns_minus1 + 1) : 1);
    let rows = (entropy_coding_sync_enabled_flag ? PicHeightInCtbsY(sps) : u32(pps.num_tile_rows_minus1 + 1));
    reject if num_entry_point_offsets > u32(u32(mul(tiles, rows)) - 1);
    if (num_entry_point_offsets > 0) {
      offset_len_minus1 : ue() [0 .. 31];
      for (i = 0; i < num_entry_point_offsets; i++) entry_point_offset_minus1[] : u(offset_len_minus1 + 1);
    }
  }
  slice_segment_header_extension_present_flag = pps.slice_segment_header_extension_present_flag;
  if (slice_segment_header_extension_present_flag) {
    slice_segment_header_extension_length : ue();
    for (i = 0; i < slice_segment_header_extension_length; i++) slice_segment_header_extension_data_byte[] : u(8);
  }
}

# 7.3.2.9 (slice_segment_data is not decoded)
syntax slice_segment_layer(nal_unit_type_: uint, bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265SliceSegmentLayerParser::ParseSliceSegmentLayer(h265nal::BitBuffer*" file "h265_slice_parser"
  state "h265nal::H265SliceSegmentLayerParser::SliceSegmentLayerState" args "nal_unit_type_=0..63" hints "nal_unit_type_=0|1|19|20|21|16|8" {
  require wf_world(bps);
  nal_unit_type = nal_unit_type_;
  slice_segment_header = call slice_segment_header(nal_unit_type_, bps);
}
