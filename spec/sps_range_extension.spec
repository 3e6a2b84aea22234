syntax sps_range_extension() cpp "h265nal::H265SpsRangeExtensionParser::ParseSpsRangeExtension(h265nal::BitBuffer*" file "h265_sps_range_extension_parser" state "h265nal::H265SpsRangeExtensionParser::SpsRangeExtensionState" {
  transform_skip_rotation_enabled_flag : u(1);
  transform_skip_context_enabled_flag : u(1);
  implicit_rdpcm_enabled_flag : u(1);
  explicit_rdpcm_enabled_flag : u(1);
  extended_precision_processing_flag : u(1);
  intra_smoothing_disabled_flag : u(1);
  high_precision_offsets_enabled_flag : u(1);
  persistent_rice_adaptation_enabled_flag : u(1);
  cabac_bypass_alignment_enabled_flag : u(1);
}
