# 7.3.5, Annex D.2: the first SEI message of the RBSP.  A payload that does not parse is reported as absent.
syntax sei() cpp "h265nal::H265SeiMessageParser::ParseSei(h265nal::BitBuffer*" file "h265_sei_parser" state "h265nal::H265SeiMessageParser::SeiMessageState" hints "ff_byte=0|1|4|5|16|17|24|137|141|142|144|147|148|149|165|255" {
  let ff_byte = 255; let t = 0; let n = 0;
  while (ff_byte == 255) {
    let ff_byte : u(8);
    reject if t + ff_byte > 4294967295;
    let t = t + ff_byte;
  }
  payload_type = t;
  let ff_byte = 255;
  while (ff_byte == 255) {
    let ff_byte : u(8);
    reject if n + ff_byte > 4294967295;
    let n = n + ff_byte;
  }
  payload_size = n;
  if (t == 4) payload_state ?= call sei_user_data_registered_itu_t_t35(n);
  else if (t == 5) payload_state ?= call sei_user_data_unregistered(n);
  else if (t == 137) payload_state ?= call sei_mastering_display_colour_volume(n);
  else if (t == 141) payload_state ?= call sei_knee_function_info(n);
  else if (t == 142) payload_state ?= call sei_colour_remapping_info(n);
  else if (t == 144) payload_state ?= call sei_content_light_level_info(n);
  else if (t == 147) payload_state ?= call sei_alternative_transfer_characteristics(n);
  else if (t == 148) payload_state ?= call sei_ambient_viewing_environment(n);
  else if (t == 149) payload_state ?= call sei_content_colour_volume(n);
  else if (t == 165) payload_state ?= call sei_alpha_channel_info(n);
  else payload_state ?= call sei_unknown(n);
}

# D.2.6
syntax sei_user_data_registered_itu_t_t35(payload_size: uint) cpp "h265nal::H265SeiUserDataRegisteredItuTT35Parser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiUserDataRegisteredItuTT35Parser::H265SeiUserDataRegisteredItuTT35State" method "1" hints "itu_t_t35_country_code=255|1" args "payload_size=0..20" {
  reject if payload_size == 0;
  itu_t_t35_country_code : u(8);
  let n = payload_size - 1;
  if (itu_t_t35_country_code == 255) {
    reject if n == 0;
    itu_t_t35_country_code_extension_byte : u(8);
    let n = n - 1;
  }
  payload = filled(n, 0);
  for (i = 0; i < n; i++) payload[i] : u(8);
}

# D.2.7
syntax sei_user_data_unregistered(payload_size: uint) cpp "h265nal::H265SeiUserDataUnregisteredParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiUserDataUnregisteredParser::H265SeiUserDataUnregisteredState" method "1" args "payload_size=10..30" {
  reject if payload_size < 16;
  let a : u(32); let b : u(32);
  uuid_iso_iec_11578_1 = (a << 32) | b;
  let c : u(32); let d : u(32);
  uuid_iso_iec_11578_2 = (c << 32) | d;
  payload = filled(payload_size - 16, 0);
  for (i = 0; i < payload_size - 16; i++) payload[i] : u(8);
}

# F.14.2.8
syntax sei_alpha_channel_info(payload_size: uint) cpp "h265nal::H265SeiAlphaChannelInfoParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiAlphaChannelInfoParser::H265SeiAlphaChannelInfoState" method "1" {
  alpha_channel_cancel_flag : u(1);
  if (!alpha_channel_cancel_flag) {
    alpha_channel_use_idc : u(3);
    alpha_channel_bit_depth_minus8 : u(3);
    alpha_transparent_value : u(alpha_channel_bit_depth_minus8 + 9);
    alpha_opaque_value : u(alpha_channel_bit_depth_minus8 + 9);
    alpha_channel_incr_flag : u(1);
    alpha_channel_clip_flag : u(1);
    if (alpha_channel_clip_flag) alpha_channel_clip_type_flag : u(1);
  }
}

# D.2.28
syntax sei_mastering_display_colour_volume(payload_size: uint) cpp "h265nal::H265SeiMasteringDisplayColourVolumeParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiMasteringDisplayColourVolumeParser::H265SeiMasteringDisplayColourVolumeState" method "1" {
  for (c = 0; c < 3; c++) {
    display_primaries_x[c] : u(16);
    display_primaries_y[c] : u(16);
  }
  white_point_x : u(16);
  white_point_y : u(16);
  max_display_mastering_luminance : u(32);
  min_display_mastering_luminance : u(32);
}

# D.2.35
syntax sei_content_light_level_info(payload_size: uint) cpp "h265nal::H265SeiContentLightLevelInfoParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiContentLightLevelInfoParser::H265SeiContentLightLevelInfoState" method "1" {
  max_content_light_level : u(16);
  max_pic_average_light_level : u(16);
}

# D.2.30
syntax sei_knee_function_info(payload_size: uint) cpp "h265nal::H265SeiKneeFunctionInfoParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiKneeFunctionInfoParser::H265SeiKneeFunctionInfoState" method "1" hints "num_knee_points_minus1=0|1|2|5" {
  knee_function_id : ue();
  knee_function_cancel_flag : u(1);
  if (!knee_function_cancel_flag) {
    knee_function_persistence_flag : u(1);
    input_d_range : u(32);
    input_disp_luminance : u(32);
    output_d_range : u(32);
    output_disp_luminance : u(32);
    num_knee_points_minus1 : ue();
    for (i = 0; i <= num_knee_points_minus1; i++) {
      input_knee_point[] : u(10);
      output_knee_point[] : u(10);
    }
  }
}

# D.2.31, D.3.31.  Value widths are those of the semantics: whole bytes covering the input (output) bit depth.
def bytes_width(d) = ((d + 7) >> 3) << 3;
syntax sei_colour_remapping_info(payload_size: uint) cpp "h265nal::H265SeiColourRemappingInfoParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState" method "1" hints "colour_remap_input_bit_depth=8|10|16|17|32 colour_remap_output_bit_depth=8|10|16|24|31 pre_lut_num_val_minus1=0|1|2|32 post_lut_num_val_minus1=0|1|3" {
  colour_remap_id : ue();
  colour_remap_cancel_flag : u(1);
  if (!colour_remap_cancel_flag) {
    colour_remap_persistence_flag : u(1);
    colour_remap_video_signal_info_present_flag : u(1);
    if (colour_remap_video_signal_info_present_flag) {
      colour_remap_full_range_flag : u(1);
      colour_remap_primaries : u(8);
      colour_remap_transfer_function : u(8);
      colour_remap_matrix_coefficients : u(8);
    }
    colour_remap_input_bit_depth : u(8);
    colour_remap_output_bit_depth : u(8);
    reject if colour_remap_input_bit_depth == 0 || colour_remap_output_bit_depth == 0;
    for (k = 0; k < 3; k++) { pre_lut_coded_value[] = inner(); pre_lut_target_value[] = inner(); }
    for (c = 0; c < 3; c++) {
      pre_lut_num_val_minus1[c] : u(8);
      if (pre_lut_num_val_minus1[c] > 0)
        for (i = 0; i <= pre_lut_num_val_minus1[c]; i++) {
          pre_lut_coded_value[c][] : u(bytes_width(colour_remap_input_bit_depth));
          pre_lut_target_value[c][] : u(bytes_width(colour_remap_output_bit_depth));
        }
    }
    colour_remap_matrix_present_flag : u(1);
    if (colour_remap_matrix_present_flag) {
      log2_matrix_denom : u(4);
      for (c = 0; c < 3; c++) colour_remap_coeffs[] = inner();
      for (c = 0; c < 3; c++) for (i = 0; i < 3; i++) colour_remap_coeffs[c][] : se();
    }
    for (k = 0; k < 3; k++) { post_lut_coded_value[] = inner(); post_lut_target_value[] = inner(); }
    for (c = 0; c < 3; c++) {
      post_lut_num_val_minus1[c] : u(8);
      if (post_lut_num_val_minus1[c] > 0)
        for (i = 0; i <= post_lut_num_val_minus1[c]; i++) {
          post_lut_coded_value[c][] : u(bytes_width(colour_remap_output_bit_depth));
          post_lut_target_value[c][] : u(bytes_width(colour_remap_output_bit_depth));
        }
    }
  }
}

# D.2.40
syntax sei_content_colour_volume(payload_size: uint) cpp "h265nal::H265SeiContentColourVolumeParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiContentColourVolumeParser::H265SeiContentColourVolumeState" method "1" {
  ccv_cancel_flag : u(1);
  if (!ccv_cancel_flag) {
    ccv_persistence_flag : u(1);
    ccv_primaries_present_flag : u(1);
    ccv_min_luminance_value_present_flag : u(1);
    ccv_max_luminance_value_present_flag : u(1);
    ccv_avg_luminance_value_present_flag : u(1);
    ccv_reserved_zero_2bits : u(2);
    if (ccv_primaries_present_flag)
      for (c = 0; c < 3; c++) {
        ccv_primaries_x[c] : u(32);
        ccv_primaries_y[c] : u(32);
      }
    if (ccv_min_luminance_value_present_flag) ccv_min_luminance_value : u(32);
    if (ccv_max_luminance_value_present_flag) ccv_max_luminance_value : u(32);
    if (ccv_avg_luminance_value_present_flag) ccv_avg_luminance_value : u(32);
  }
}

# D.2.38
syntax sei_alternative_transfer_characteristics(payload_size: uint) cpp "h265nal::H265SeiAlternativeTransferCharacteristicsParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiAlternativeTransferCharacteristicsParser::H265SeiAlternativeTransferCharacteristicsState" method "1" {
  preferred_transfer_characteristics : u(8);
}

# D.2.39
syntax sei_ambient_viewing_environment(payload_size: uint) cpp "h265nal::H265SeiAmbientViewingEnvironmentParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiAmbientViewingEnvironmentParser::H265SeiAmbientViewingEnvironmentState" method "1" {
  ambient_illuminance : u(32);
  ambient_light_x : u(16);
  ambient_light_y : u(16);
}

# any other payload type: the bytes
syntax sei_unknown(payload_size: uint) cpp "h265nal::H265SeiUnknownParser::parse_payload(h265nal::BitBuffer*" file "h265_sei_parser"
  state "h265nal::H265SeiUnknownParser::H265SeiUnknownState" method "1" args "payload_size=0..20" {
  reject if payload_size == 0;
  payload = filled(payload_size, 0);
  for (i = 0; i < payload_size; i++) payload[i] : u(8);
}
