import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
ALL = []
def S(*a, **k): ALL.append((a, k))
SL = r'''
  H265BitstreamParserState st;
  auto sps = std::make_shared<H265SpsParser::SpsState>(); sps->chroma_format_idc = 1; sps->log2_max_pic_order_cnt_lsb_minus4 = 0;
  sps->num_short_term_ref_pic_sets = 0; sps->pic_width_in_luma_samples = 64; sps->pic_height_in_luma_samples = 64; st.sps[0] = sps;
  auto pps = std::make_shared<H265PpsParser::PpsState>(); st.pps[0] = pps;
  W w; w.u(1, 1).u(0, 1).ue(0).ue(2).u(3, 4).u(0, 1).ue(0).ue(0).se(5).trail();
'''
S("layer63_header", "P08",
 [("src/h265_nal_unit_header_parser.cc", "  return nal_unit_header;\n}\n", "  // value 63 is reserved\n  if (nal_unit_header->nuh_layer_id == 63) {\n    return nullptr;\n  }\n\n  return nal_unit_header;\n}\n")],
 r'''
  W w; w.u(0, 1).u(1, 6).u(63, 6).u(1, 3); BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265NalUnitHeaderParser::ParseNalUnitHeader(&bb); EXPECT(r != nullptr); if (r) EXPECT(r->nuh_layer_id == 63);''',
 "a header with nuh_layer_id 63", "the header is rejected although 16 bits are there", ("h265_nal_unit_header_parser.h",))
S("bla_n_lp_reserved", "P09",
 [("src/h265_nal_unit_payload_parser.cc", "    case BLA_N_LP:\n    case IDR_W_RADL:\n    case IDR_N_LP:\n    case CRA_NUT: {\n      // slice_segment_layer_rbsp()\n      nal_unit_payload", "    case IDR_W_RADL:\n    case IDR_N_LP:\n    case CRA_NUT: {\n      // slice_segment_layer_rbsp()\n      nal_unit_payload"),
  ("src/h265_nal_unit_payload_parser.cc", "    case RSV_IRAP_VCL22:\n    case RSV_IRAP_VCL23:\n      // reserved, IRAP pictures\n      break;\n    case RSV_VCL24:\n    case RSV_VCL25:\n    case RSV_VCL26:\n    case RSV_VCL27:\n    case RSV_VCL28:\n    case RSV_VCL29:\n    case RSV_VCL30:\n    case RSV_VCL31:\n      // reserved, non-IRAP pictures\n      break;\n    case VPS_NUT: {\n      // video_parameter_set_rbsp()\n      nal_unit_payload->vps = ", "    case BLA_N_LP:\n    case RSV_IRAP_VCL22:\n    case RSV_IRAP_VCL23:\n      // reserved, IRAP pictures\n      break;\n    case RSV_VCL24:\n    case RSV_VCL25:\n    case RSV_VCL26:\n    case RSV_VCL27:\n    case RSV_VCL28:\n    case RSV_VCL29:\n    case RSV_VCL30:\n    case RSV_VCL31:\n      // reserved, non-IRAP pictures\n      break;\n    case VPS_NUT: {\n      // video_parameter_set_rbsp()\n      nal_unit_payload->vps = ")],
 SL + r'''
  for (uint32_t t : {16u, 17u, 18u, 21u}) { BitBuffer bb(w.b.data(), w.b.size());
    auto r = H265NalUnitPayloadParser::ParseNalUnitPayload(&bb, t, &st); EXPECT(r && r->slice_segment_layer != nullptr); }''',
 "a BLA picture without leading pictures (type 18)", "its slices are not parsed", ("h265_nal_unit_payload_parser.h",))
S("forbidden_bit_unit", "P11",
 [("src/h265_nal_unit_parser.cc", "  // nal_unit_payload()\n  nal_unit->nal_unit_payload = ", "  if (nal_unit->nal_unit_header->forbidden_zero_bit != 0 &&\n      nal_unit->nal_unit_header->nuh_layer_id != 0) {\n    return nullptr;\n  }\n\n  // nal_unit_payload()\n  nal_unit->nal_unit_payload = ")],
 r'''
  W w; w.u(1, 1).u(50, 6).u(2, 6).u(1, 3).u(7, 8); BitBuffer bb(w.b.data(), w.b.size()); H265BitstreamParserState st; ParsingOptions o;
  auto r = H265NalUnitParser::ParseNalUnit(&bb, &st, o); EXPECT(r != nullptr);''',
 "a unit of an enhancement layer whose forbidden_zero_bit is set", "the unit is not reported although its header is complete", ("h265_nal_unit_parser.h",))
S("deblock_override_disabled", "P14",
 [("src/h265_pps_parser.cc", "    if (!pps->pps_deblocking_filter_disabled_flag) {\n      // pps_beta", "    if (!pps->pps_deblocking_filter_disabled_flag ||\n        pps->deblocking_filter_override_enabled_flag) {\n      // pps_beta")],
 r"""
  W w; w.ue(0).ue(0).u(0, 1).u(0, 1).u(0, 3).u(0, 1).u(0, 1).ue(0).ue(0).se(0).u(0, 1).u(0, 1).u(0, 1).se(0).se(0).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1);
  w.u(1, 1).u(1, 1).u(1, 1).u(1, 1).u(0, 1).u(0, 1).ue(2).u(0, 1).u(0, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265PpsParser::ParsePps(&bb); EXPECT(r != nullptr);
  if (r) { EXPECT(r->pps_deblocking_filter_disabled_flag == 1); EXPECT(r->log2_parallel_merge_level_minus2 == 2); }""",
 "a PPS that disables the deblocking filter and allows slices to override it", "offsets are read that are not there", ("h265_pps_parser.h",))
S("scaling_dc_16x16", "P21",
 [("src/h265_scaling_list_data_parser.cc", "          nextCoef = static_cast<uint32_t>(\n                         scaling_list_data\n                             ->scaling_list_dc_coef_minus8[sizeId - 2]\n                                                          [matrixId]) +\n                     8;", "          nextCoef = static_cast<uint32_t>(\n                         scaling_list_data\n                             ->scaling_list_dc_coef_minus8[0][matrixId]) +\n                     8;")],
 r'''
  W w; for (int i = 0; i < 18; i++) w.u(0, 1).ue(0);
  w.u(1, 1).se(20); for (int i = 0; i < 64; i++) w.se(0);
  w.u(0, 1).ue(0); w.trail();
  // 32x32 list 0 has its own DC (28), 16x16 list 0 was predicted
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265ScalingListDataParser::ParseScalingListData(&bb); EXPECT(r != nullptr);
  if (r) { EXPECT(r->ScalingList[3][0].size() == 64 && r->ScalingList[3][0][0] == 28); }''',
 "an explicitly coded 32x32 list", "its coefficients start from the DC value of the 16x16 list", ("h265_scaling_list_data_parser.h",))
S("region_flag_first_layer", "P24",
 [("src/h265_pps_multilayer_extension_parser.cc", "    if (pps_multilayer_extension->ref_region_offset_present_flag.back()) {", "    if (pps_multilayer_extension->ref_region_offset_present_flag.front()) {")],
 r'''
  W w; w.u(0, 1).u(0, 1).ue(2);
  w.u(1, 6).u(0, 1).u(0, 1).u(0, 1);
  w.u(2, 6).u(0, 1).u(1, 1).se(1).se(2).se(3).se(4).u(0, 1);
  w.u(0, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265PpsMultilayerExtensionParser::ParsePpsMultilayerExtension(&bb); EXPECT(r != nullptr);
  if (r) { EXPECT(r->ref_region_left_offset.size() == 1 && r->ref_region_bottom_offset.size() == 1); if (r->ref_region_bottom_offset.size() == 1) EXPECT(r->ref_region_bottom_offset[0] == 4); }''',
 "two reference layers, only the second with region offsets", "presence of the offsets is decided by the first layer", ("h265_pps_multilayer_extension_parser.h",))
S("trailing_zero_unchecked", "P25",
 [("src/h265_common.cc", "    if (bits_tmp != 0) {\n      return false;\n    }\n  }\n  return true;", "    (void)bits_tmp;\n  }\n  return true;")],
 r"""
  uint8_t d[] = {0xa8, 0xa4}; BitBuffer bb(d, 2); uint32_t v = 0; EXPECT(bb.ReadBits(3, v)); EXPECT(!rbsp_trailing_bits(&bb));
  uint8_t e[] = {0xb4}; BitBuffer b2(e, 1); EXPECT(b2.ReadBits(2, v)); EXPECT(!rbsp_trailing_bits(&b2));""",
 "a 1 bit after the stop bit", "trailing bits that are not zero are accepted", ("h265_common.h",))
S("rtp_single_layers", "P28",
 [("src/h265_rtp_single_parser.cc", "  // nal_unit_payload()\n  rtp_single->nal_unit_payload = H265NalUnitPayloadParser::ParseNalUnitPayload(\n      bit_buffer, rtp_single->nal_unit_header->nal_unit_type,\n      bitstream_parser_state);", "  // nal_unit_payload()\n  H265BitstreamParserState layer_state;\n  rtp_single->nal_unit_payload = H265NalUnitPayloadParser::ParseNalUnitPayload(\n      bit_buffer, rtp_single->nal_unit_header->nal_unit_type,\n      rtp_single->nal_unit_header->nuh_layer_id > 0 ? &layer_state\n                                                    : bitstream_parser_state);")],
 SL + r'''
  W h; h.u(0, 1).u(1, 6).u(1, 6).u(1, 3); std::vector<uint8_t> d = h.b; d.insert(d.end(), w.b.begin(), w.b.end());
  { BitBuffer bb(d.data(), d.size()); d[1] = d[1]; }
  // trailing picture slice: no no_output_of_prior_pics_flag
  W s; s.u(1, 1).ue(0).ue(2).u(3, 4).u(0, 1).ue(0).ue(0).se(5).trail(); d = h.b; d.insert(d.end(), s.b.begin(), s.b.end());
  BitBuffer bb(d.data(), d.size()); auto r = H265RtpSingleParser::ParseRtpSingle(&bb, &st); EXPECT(r != nullptr);
  if (r) EXPECT(r->nal_unit_payload && r->nal_unit_payload->slice_segment_layer != nullptr);''',
 "a packet of an enhancement layer that refers to stored parameter sets", "its payload is parsed without them", ("h265_rtp_single_parser.h",))
S("fu_start_and_end", "P30",
 [("src/h265_rtp_fu_parser.cc", "  if (rtp_fu->s_bit == 0) {\n    // not the start", "  if (rtp_fu->s_bit == rtp_fu->e_bit || rtp_fu->e_bit == 1) {\n    // not the start")],
 r'''
  H265BitstreamParserState st; W w; w.u(0, 1).u(49, 6).u(0, 6).u(1, 3).u(1, 1).u(1, 1).u(35, 6).u(2, 3).trail();
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265RtpFuParser::ParseRtpFu(&bb, &st); EXPECT(r != nullptr);
  if (r) EXPECT(r->nal_unit_payload != nullptr && r->nal_unit_payload->aud != nullptr);''',
 "a fragment with both the start and the end bit set", "its payload is not parsed", ("h265_rtp_fu_parser.h",))
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: seed(*s[0], **s[1]) if not want or s[0][0] in want else None, ALL))
