# Picture geometry of an accepted SPS: 6.2 (Table 6-1), 7.4.3.2.1 (7-10 .. 7-22).  The domain is what the SPS syntax accepts.
def geo_domain() = pic_width_in_luma_samples >= 1 && pic_width_in_luma_samples <= 16888 && pic_height_in_luma_samples >= 1 && pic_height_in_luma_samples <= 16888
  && log2_min_luma_coding_block_size_minus3 <= 3 && log2_diff_max_min_luma_coding_block_size <= 3 && chroma_format_idc <= 3 && separate_colour_plane_flag <= 1
  && (separate_colour_plane_flag == 0 || chroma_format_idc == 3)
  && conf_win_left_offset <= pic_width_in_luma_samples && conf_win_right_offset <= pic_width_in_luma_samples && conf_win_top_offset <= pic_height_in_luma_samples && conf_win_bottom_offset <= pic_height_in_luma_samples;
def g_mincb() = 1 << (log2_min_luma_coding_block_size_minus3 + 3);
def g_ctb() = 1 << (log2_min_luma_coding_block_size_minus3 + 3 + log2_diff_max_min_luma_coding_block_size);
def g_subw() = chroma_format_idc == 1 || chroma_format_idc == 2 ? 2 : 1;
def g_subh() = chroma_format_idc == 1 ? 2 : 1;
function getMinCbLog2SizeY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getMinCbLog2SizeY(" file "h265_sps_parser" {
  require geo_domain;
  result = log2_min_luma_coding_block_size_minus3 + 3;
}
function getCtbLog2SizeY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getCtbLog2SizeY(" file "h265_sps_parser" {
  require geo_domain;
  result = log2_min_luma_coding_block_size_minus3 + 3 + log2_diff_max_min_luma_coding_block_size;
}
function getMinCbSizeY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getMinCbSizeY(" file "h265_sps_parser" {
  require geo_domain;
  result = g_mincb;
}
function getCtbSizeY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getCtbSizeY(" file "h265_sps_parser" {
  require geo_domain;
  result = g_ctb;
}
function getPicWidthInMinCbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicWidthInMinCbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = udiv(pic_width_in_luma_samples, g_mincb);
}
function getPicHeightInMinCbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicHeightInMinCbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = udiv(pic_height_in_luma_samples, g_mincb);
}
function getPicWidthInCtbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicWidthInCtbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = ceil_div(pic_width_in_luma_samples, g_ctb);
}
function getPicHeightInCtbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicHeightInCtbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = ceil_div(pic_height_in_luma_samples, g_ctb);
}
function getPicSizeInMinCbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicSizeInMinCbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = udiv(pic_width_in_luma_samples, g_mincb) * udiv(pic_height_in_luma_samples, g_mincb);
}
function getPicSizeInCtbsY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicSizeInCtbsY(" file "h265_sps_parser" {
  require geo_domain;
  result = ceil_div(pic_width_in_luma_samples, g_ctb) * ceil_div(pic_height_in_luma_samples, g_ctb);
}
function getPicSizeInSamplesY(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getPicSizeInSamplesY(" file "h265_sps_parser" {
  require geo_domain;
  result = pic_width_in_luma_samples * pic_height_in_luma_samples;
}
function getSubWidthC(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getSubWidthC(" file "h265_sps_parser" ret "sint" {
  require geo_domain;
  result = g_subw;
}
function getSubHeightC(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getSubHeightC(" file "h265_sps_parser" ret "sint" {
  require geo_domain;
  result = g_subh;
}
function getResolution(this: state "h265nal::H265SpsParser::SpsState") cpp "h265nal::H265SpsParser::SpsState::getResolution(" file "h265_sps_parser" ret "sint" outs "width:int height:int" {
  require geo_domain;
  result = 0;
  width = pic_width_in_luma_samples - g_subw * (conf_win_left_offset + conf_win_right_offset);
  height = pic_height_in_luma_samples - g_subh * (conf_win_top_offset + conf_win_bottom_offset);
}
