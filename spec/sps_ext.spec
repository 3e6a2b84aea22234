# H.265 7.3.2.2.1 / F.7.3.2.2.4, H.7.3.2.2.5, I.7.3.2.2.6
syntax sps_multilayer_extension() cpp "h265nal::H265SpsMultilayerExtensionParser::ParseSpsMultilayerExtension(h265nal::BitBuffer*" file "h265_sps_multilayer_extension_parser"
  state "h265nal::H265SpsMultilayerExtensionParser::SpsMultilayerExtensionState" {
  inter_view_mv_vert_constraint_flag : u(1);
}

syntax sps_3d_extension() cpp "h265nal::H265Sps3dExtensionParser::ParseSps3dExtension(h265nal::BitBuffer*" file "h265_sps_3d_extension_parser"
  state "h265nal::H265Sps3dExtensionParser::Sps3dExtensionState" {
  for (d = 0; d <= 1; d++) {
    iv_di_mc_enabled_flag[] : u(1);
    iv_mv_scal_enabled_flag[] : u(1);
    if (d == 0) {
      log2_ivmc_sub_pb_size_minus3 : ue();
      iv_res_pred_enabled_flag : u(1);
      depth_ref_enabled_flag : u(1);
      vsp_mc_enabled_flag : u(1);
      dbbp_enabled_flag : u(1);
    } else {
      tex_mc_enabled_flag : u(1);
      log2_texmc_sub_pb_size_minus3 : ue();
      intra_contour_enabled_flag : u(1);
      intra_dc_only_wedge_enabled_flag : u(1);
      cqt_cu_part_pred_enabled_flag : u(1);
      inter_dc_only_enabled_flag : u(1);
      skip_intra_enabled_flag : u(1);
    }
  }
}

# 7.3.2.2.3
syntax sps_scc_extension(chroma_format_idc: uint, bit_depth_luma_minus8: uint, bit_depth_chroma_minus8: uint)
  cpp "h265nal::H265SpsSccExtensionParser::ParseSpsSccExtension(h265nal::BitBuffer*" file "h265_sps_scc_extension_parser"
  state "h265nal::H265SpsSccExtensionParser::SpsSccExtensionState" args "chroma_format_idc=0..3,bit_depth_luma_minus8=0..8,bit_depth_chroma_minus8=0..8" {
  require bit_depth_luma_minus8 <= 8;
  require bit_depth_chroma_minus8 <= 8;
  sps_curr_pic_ref_enabled_flag : u(1);
  palette_mode_enabled_flag : u(1);
  if (palette_mode_enabled_flag) {
    palette_max_size : ue() [0 .. 64];
    delta_palette_max_predictor_size : ue() [0 .. 128];
    sps_palette_predictor_initializers_present_flag : u(1);
    if (sps_palette_predictor_initializers_present_flag) {
      sps_num_palette_predictor_initializers_minus1 : ue() [0 .. 127];
      let numComps = chroma_format_idc == 0 ? 1 : 3;
      for (comp = 0; comp < numComps; comp++) {
        sps_palette_predictor_initializers[] = inner();
        for (i = 0; i <= sps_num_palette_predictor_initializers_minus1; i++)
          sps_palette_predictor_initializers[comp][] : u(8 + (comp == 0 ? bit_depth_luma_minus8 : bit_depth_chroma_minus8));
      }
    }
  }
  motion_vector_resolution_control_idc : u(2);
  intra_boundary_filtering_disabled_flag : u(1);
}
