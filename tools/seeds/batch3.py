import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
ALL = []
def S(*a, **k): ALL.append((a, k))
S("missing_sps_range_only", "P35",
 [("src/h265_slice_parser.cc", "  if (bitstream_parser_state->sps.find(sps_id) ==\n      bitstream_parser_state->sps.end()) {", "  if (sps_id > 15) {")],
 r'''
  // a PPS that refers to an SPS which was never received
  H265BitstreamParserState st; auto pps = std::make_shared<H265PpsParser::PpsState>(); pps->pps_seq_parameter_set_id = 5; st.pps[0] = pps;
  W w; w.u(1, 1).u(0, 1).ue(0).ue(2).trail(); for (int i = 0; i < 8; i++) w.b.push_back(0xa5);
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&bb, IDR_W_RADL, &st); EXPECT(r == nullptr);''',
 "a slice whose PPS refers to an SPS that is not stored", "null pointer access when the SPS is missing", ("h265_slice_parser.h", "h265_pps_parser.h"))
S("rps_zero_delta", "P20",
 [("src/h265_st_ref_pic_set_parser.cc", "    d_poc = ref_delta_poc_s0[j] + delta_rps;\n    if (d_poc < 0 && use_delta_flag[static_cast<size_t>(j)]) {", "    d_poc = ref_delta_poc_s0[j] + delta_rps;\n    if (d_poc <= 0 && use_delta_flag[static_cast<size_t>(j)]) {")],
 r'''
  std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
  { W w; w.ue(2).ue(0).ue(0).u(1, 1).ue(0).u(1, 1).trail(); BitBuffer bb(w.b.data(), w.b.size());   // -1 -2
    auto r = H265StRefPicSetParser::ParseStRefPicSet(&bb, 0, 3, &v, 16); EXPECT(r != nullptr); v.push_back(std::move(r)); }
  { W w; w.u(1, 1).u(0, 1).ue(0).u(1, 1).u(1, 1).u(1, 1).trail(); BitBuffer bb(w.b.data(), w.b.size());  // deltaRps = +1
    auto r = H265StRefPicSetParser::ParseStRefPicSet(&bb, 1, 3, &v, 16); EXPECT(r != nullptr);
    if (r) { EXPECT(r->num_negative_pics == 1); EXPECT(r->num_positive_pics == 1); v.push_back(std::move(r)); } }''',
 "inter prediction where a reference delta plus deltaRps is exactly 0", "the current picture is added to its own negative list", ("h265_st_ref_pic_set_parser.h",))
S("rps_print_s1", "P36",
 [("src/h265_st_ref_pic_set_parser.cc", '    fprintf(outfp, "used_by_curr_pic_s1_flag {");\n    for (const uint32_t& v : used_by_curr_pic_s1_flag) {', '    fprintf(outfp, "used_by_curr_pic_s1_flag {");\n    for (const uint32_t& v : used_by_curr_pic_s0_flag) {')],
 r'''
  std::vector<std::unique_ptr<H265StRefPicSetParser::StRefPicSetState>> v;
  W w; w.ue(1).ue(2).ue(0).u(1, 1).ue(0).u(0, 1).ue(0).u(1, 1).trail(); BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265StRefPicSetParser::ParseStRefPicSet(&bb, 0, 3, &v, 16); EXPECT(r != nullptr);
  char* p = nullptr; size_t n = 0; FILE* f = open_memstream(&p, &n); if (r) r->fdump(f, -1); fclose(f);
  EXPECT(strstr(p, "used_by_curr_pic_s1_flag { 0 1 }")); EXPECT(strstr(p, "used_by_curr_pic_s0_flag { 1 }")); free(p);''',
 "an explicit set with positive pictures whose used flags differ from those of the negative pictures", "the flags of the wrong list are printed", ("h265_st_ref_pic_set_parser.h",))
S("post_lut_pre_count", "P16",
 [("src/h265_sei_parser.cc", "        for (uint32_t i = 0; i <= payload_state->post_lut_num_val_minus1[c];\n             i++) {", "        for (uint32_t i = 0; i <= payload_state->post_lut_num_val_minus1[0];\n             i++) {")],
 r'''
  W w; w.ue(1).u(0, 1).u(1, 1).u(0, 1).u(8, 8).u(8, 8);
  for (int c = 0; c < 3; c++) w.u(0, 8);
  w.u(0, 1);
  w.u(0, 8); w.u(0, 8); w.u(1, 8).u(0x10, 8).u(0x20, 8).u(0x30, 8).u(0x40, 8);
  w.trail(); BitBuffer bb(w.b.data(), w.b.size());
  H265SeiColourRemappingInfoParser p; auto r = p.parse_payload(&bb, w.b.size()); EXPECT(r != nullptr);
  auto s = static_cast<H265SeiColourRemappingInfoParser::H265SeiColourRemappingInfoState*>(r.get());
  if (s) { EXPECT(s->post_lut_target_value[2].size() == 2 && s->post_lut_target_value[2][1] == 0x40); }''',
 "a colour remapping message whose output tables have different sizes", "every output table is read with the size of the first", ("h265_sei_parser.h",))
S("pic_size_in_ctbs", "P26",
 [("src/h265_sps_parser.cc", "  return getPicWidthInCtbsY() * getPicHeightInCtbsY();", "  return static_cast<uint32_t>(std::ceil(\n      1.0 * getPicSizeInSamplesY() / getCtbSizeY() / getCtbSizeY()));")],
 r'''
  H265SpsParser::SpsState s; s.pic_width_in_luma_samples = 72; s.pic_height_in_luma_samples = 72; s.log2_min_luma_coding_block_size_minus3 = 0; s.log2_diff_max_min_luma_coding_block_size = 3;
  EXPECT(s.getPicSizeInCtbsY() == 4);
  s.pic_width_in_luma_samples = 128; s.pic_height_in_luma_samples = 64; EXPECT(s.getPicSizeInCtbsY() == 2);''',
 "a picture that is not a multiple of the CTB size", "partial CTBs are not counted one by one", ("h265_sps_parser.h",))
S("profile_space_2bits", "P27",
 [("src/h265_profile_tier_level_parser.cc", "  if (profile_space != 0) {\n    return ProfileType::UNSPECIFIED;", "  if (profile_space > 1) {\n    return ProfileType::UNSPECIFIED;")],
 r'''
  H265ProfileInfoParser::ProfileInfoState s; s.profile_space = 1; s.profile_idc = 1; EXPECT(s.GetProfileType() == ProfileType::UNSPECIFIED);
  s.profile_space = 0; EXPECT(s.GetProfileType() == ProfileType::MAIN);''',
 "general_profile_space equal to 1", "a profile of another profile space is reported", ("h265_profile_tier_level_parser.h",))
S("collocated_ref_list", "P15",
 [("src/h265_slice_parser.cc", "            (!slice_segment_header->collocated_from_l0_flag &&\n             slice_segment_header->num_ref_idx_l1_active_minus1 > 0)) {", "            (!slice_segment_header->collocated_from_l0_flag &&\n             slice_segment_header->num_ref_idx_l0_active_minus1 > 0)) {")],
 r'''
  H265BitstreamParserState st;
  auto sps = std::make_shared<H265SpsParser::SpsState>(); sps->chroma_format_idc = 1; sps->sps_temporal_mvp_enabled_flag = 1; sps->log2_max_pic_order_cnt_lsb_minus4 = 0;
  sps->num_short_term_ref_pic_sets = 0; sps->pic_width_in_luma_samples = 64; sps->pic_height_in_luma_samples = 64; st.sps[0] = sps;
  auto pps = std::make_shared<H265PpsParser::PpsState>(); st.pps[0] = pps;
  W w; w.u(1, 1).ue(0).ue(0).u(3, 4).u(0, 1).ue(0).ue(0);   // first slice, pps 0, B, poc lsb, explicit empty set
  w.u(1, 1).u(1, 1).ue(0).ue(2).u(0, 1).u(0, 1).ue(1).ue(3).se(5).trail();
  BitBuffer bb(w.b.data(), w.b.size());
  auto r = H265SliceSegmentHeaderParser::ParseSliceSegmentHeader(&bb, TRAIL_R, &st); EXPECT(r != nullptr);
  if (r) { EXPECT(r->num_ref_idx_l1_active_minus1 == 2); EXPECT(r->collocated_ref_idx == 1); EXPECT(r->slice_qp_delta == 5); }''',
 "a B slice whose collocated picture comes from list 1 and whose lists have different lengths (only one of them a single entry)", "presence of collocated_ref_idx is decided by list 0", ("h265_slice_parser.h", "h265_sps_parser.h", "h265_pps_parser.h"))
S("conf_win_top_width", "P13",
 [("src/h265_sps_parser.cc", "    if (sps->conf_win_top_offset > sps->pic_height_in_luma_samples) {", "    if (sps->conf_win_top_offset > sps->pic_width_in_luma_samples) {")],
 r'''
  W w; w.u(0, 4).u(0, 3).u(1, 1).u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(0, 4).u(0, 43).u(0, 1).u(93, 8);
  w.ue(0).ue(1).ue(64).ue(8).u(1, 1).ue(0).ue(0).ue(40).ue(0);     // top offset beyond the height, within the width
  w.ue(0).ue(0).ue(4).u(1, 1).ue(4).ue(0).ue(0).ue(0).ue(3).ue(0).ue(3).ue(0).ue(0).u(0, 1).u(0, 1).u(0, 1).u(0, 1).ue(0).u(0, 1).u(0, 1).u(0, 1).u(0, 1).u(0, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265SpsParser::ParseSps(&bb); EXPECT(r == nullptr);''',
 "a picture wider than high with a window offset between its height and its width", "an out of range vertical window offset is accepted", ("h265_sps_parser.h",))
S("vps_cprms_second", "P12",
 [("src/h265_vps_parser.cc", "      if (i > 0) {\n        // cprms_present_flag[i]  u(1)", "      if (i > 1) {\n        // cprms_present_flag[i]  u(1)")],
 r'''
  W w; w.u(3, 4).u(3, 2).u(0, 6).u(0, 3).u(1, 1).u(0xffff, 16);
  w.u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(0, 4).u(0, 43).u(0, 1).u(93, 8);
  w.u(1, 1).ue(4).ue(0).ue(0).u(1, 6).ue(1).u(1, 1).u(1, 1);
  w.u(1, 1).u(1000, 32).u(60000, 32).u(0, 1).ue(2);
  w.ue(0).u(0, 2).u(1, 1).ue(0).ue(0);              // hrd 0: no NAL/VCL HRD, fixed rate general
  w.ue(1).u(0, 1).u(1, 1).ue(0).ue(0);              // hrd 1: cprms_present_flag 0
  w.u(0, 1).trail();
  BitBuffer bb(w.b.data(), w.b.size()); auto r = H265VpsParser::ParseVps(&bb); EXPECT(r != nullptr);
  if (r) { EXPECT(r->cprms_present_flag.size() == 2 && r->cprms_present_flag[1] == 0); }''',
 "a VPS with two HRD structures", "cprms_present_flag of the second HRD is not read", ("h265_vps_parser.h",))
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: seed(*s[0], **s[1]) if not want or s[0][0] in want else None, ALL))
