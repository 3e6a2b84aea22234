import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
ALL = []
def S(*a, **k): ALL.append((a, k))
S("signed_golomb_large", "P02",
 [("src/rtc_common.cc", "    val = -static_cast<int32_t>(unsigned_val / 2);", "    val = -static_cast<int32_t>(unsigned_val) / 2;")],
 r'''
  { W w; w.ue(6).trail(); BitBuffer bb(w.b.data(), w.b.size()); int32_t v = 0; EXPECT(bb.ReadSignedExponentialGolomb(v) && v == -3); }
  { W w; w.ue(0xc0000000u).trail(); BitBuffer bb(w.b.data(), w.b.size()); int32_t v = 0; EXPECT(bb.ReadSignedExponentialGolomb(v)); EXPECT(v == -0x60000000); }''',
 "a negative signed code with 31 leading zeros", "the sign of large negative Exp-Golomb values is lost")
S("consume_bytes_wrap", "P01",
 [("src/rtc_common.cc", "  if (byte_count > SIZE_MAX / 8) {", "  if (byte_count > SIZE_MAX / 4) {")],
 r'''
  uint8_t d[4] = {1, 2, 3, 4}; BitBuffer bb(d, 4);
  EXPECT(!bb.ConsumeBytes((size_t(1) << 61) + 1)); size_t a = 9, b = 9; bb.GetCurrentOffset(&a, &b); EXPECT(a == 0 && b == 0);
  EXPECT(!bb.ConsumeBytes(5)); EXPECT(bb.ConsumeBytes(4));''',
 "skipping a number of bytes whose bit count wraps around 2^64", "a skip past the end succeeds because the bit count wraps")
S("write_clobbers_tail", "P03",
 [("src/rtc_common.cc", "    *bytes = WritePartialByte(HighestByte(val), bit_count, *bytes, 0);", "    *bytes = WritePartialByte(HighestByte(val), bit_count, 0, 0);")],
 r'''
  uint8_t d[4] = {0xff, 0xff, 0xff, 0xff}; BitBufferWriter w(d, 4);
  EXPECT(w.WriteBits(0x123, 12)); EXPECT(d[0] == 0x12 && (d[1] >> 4) == 3); EXPECT((d[1] & 15) == 15); EXPECT(d[2] == 0xff && d[3] == 0xff);''',
 "a write that ends inside a byte which already holds data", "bits after the written ones are zeroed")
S("unescape_at_end", "P04",
 [("src/h265_common.cc", "    if (length - i >= 3 && data[i] == 0x00 && data[i + 1] == 0x00 &&", "    if (length - i > 3 && data[i] == 0x00 && data[i + 1] == 0x00 &&")],
 r'''
  uint8_t d[] = {7, 0, 0, 3}; auto o = UnescapeRbsp(d, 4); EXPECT(o.size() == 3);
  uint8_t e[] = {0, 0, 3, 1}; o = UnescapeRbsp(e, 4); EXPECT(o.size() == 3 && o[2] == 1);''',
 "an emulation prevention byte that is the last byte of the NAL unit", "a final emulation prevention byte is kept")
S("annexb_adjacent_start", "P05",
 [("src/h265_bitstream_parser.cc", "      sequences.push_back(index);\n\n      i += 3;", "      sequences.push_back(index);\n\n      // a NAL unit has at least one byte\n      i += 4;")],
 r'''
  uint8_t d[] = {0, 0, 1, 0, 0, 1, 0x46, 1}; auto v = H265BitstreamParser::FindNaluIndices(d, sizeof(d));
  EXPECT(v.size() == 2); if (v.size() == 2) EXPECT(v[1].payload_start_offset == 6 && v[1].payload_size == 2);
  uint8_t e[] = {0, 0, 1, 9, 9, 0, 0, 1, 8}; v = H265BitstreamParser::FindNaluIndices(e, sizeof(e)); EXPECT(v.size() == 2);''',
 "two start codes with nothing between them", "the second of two adjacent start codes is missed", ("h265_bitstream_parser.h",))
S("framing_empty_last", "P06",
 [("src/h265_bitstream_parser.cc", "    if (i + 4 > length) {", "    if (i + 4 >= length) {")],
 r'''
  uint8_t d[] = {0, 0, 0, 1, 9, 0, 0, 0, 0}; auto v = H265BitstreamParser::FindNaluIndicesExplicitFraming(d, sizeof(d));
  EXPECT(v.size() == 2); if (v.size() == 2) EXPECT(v[1].payload_start_offset == 9 && v[1].payload_size == 0);''',
 "an empty NAL unit at the very end of the data", "the last, empty, announced unit is dropped", ("h265_bitstream_parser.h",))
S("length_field_low32", "P06",
 [("src/h265_bitstream_parser.cc", "    *nalu_length = (*nalu_length << 8) + data[i];", "    *nalu_length = static_cast<uint32_t>(*nalu_length << 8) + data[i];")],
 r'''
  uint8_t d[] = {0, 0, 0, 1, 0, 0, 0, 3, 0x46, 1, 0x50, 0, 0, 0, 0, 0, 0, 0, 3, 0x46, 1, 0x50};
  ParsingOptions o; auto b = H265BitstreamParser::ParseBitstreamNALULength(d, sizeof(d), 8, o);
  EXPECT(b && b->nal_units.size() == 0);
  b = H265BitstreamParser::ParseBitstreamNALULength(d + 11, 11, 8, o); EXPECT(b && b->nal_units.size() == 1);''',
 "8-byte length fields announcing 4 GiB or more", "the upper half of long length fields is ignored, so a unit that does not fit is reported", ("h265_bitstream_parser.h",))
S("vps_first_wins", "P10",
 [("src/h265_nal_unit_payload_parser.cc", "        bitstream_parser_state->vps[vps_id] = nal_unit_payload->vps;", "        bitstream_parser_state->vps.emplace(vps_id, nal_unit_payload->vps);")],
 r'''
  auto mk = [](int layers) { W w; w.u(32, 7).u(0, 6).u(1, 3); w.u(3, 4).u(3, 2).u(layers, 6).u(0, 3).u(1, 1).u(0xffff, 16);
    w.u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(0, 4).u(0, 43).u(0, 1).u(93, 8);
    w.u(1, 1).ue(4).ue(0).ue(0).u(0, 6).ue(0).u(0, 1).u(0, 1).trail(); return w; };
  H265BitstreamParserState st; ParsingOptions o;
  W a = mk(1), b = mk(2);
  BitBuffer ba(a.b.data(), a.b.size()); auto x = H265NalUnitParser::ParseNalUnit(&ba, &st, o); EXPECT(x && x->nal_unit_payload->vps);
  BitBuffer bb(b.b.data(), b.b.size()); auto y = H265NalUnitParser::ParseNalUnit(&bb, &st, o); EXPECT(y && y->nal_unit_payload->vps);
  EXPECT(st.GetVps(3) && st.GetVps(3)->vps_max_layers_minus1 == 2);''',
 "a second VPS with the id of a stored one and different content", "a stored VPS is never replaced", ("h265_nal_unit_parser.h", "h265_vps_parser.h"))
S("qp_base_layer_only", "P33",
 [("src/h265_utils.cc", "    uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;\n    auto& payload", "    uint32_t nal_unit_type = nal_unit->nal_unit_header->nal_unit_type;\n    // only slices of the lowest layer of the access unit\n    if (nal_unit->nal_unit_header->nuh_layer_id > 1) continue;\n    auto& payload")],
 open("/verif/tools/seeds/qp_demo.inc").read(),
 "slices of enhancement layers", "no QP is reported for slices with nuh_layer_id > 1", ("h265_utils.h", "h265_sps_parser.h", "h265_pps_parser.h"))
S("rtp_ap_odd_tail", "P29",
 [("src/h265_rtp_ap_parser.cc", "  while (bit_buffer->RemainingBitCount() > 0) {", "  while (bit_buffer->RemainingBitCount() >= 16) {")],
 r'''
  H265BitstreamParserState st;
  uint8_t d[] = {0x60, 1, 0, 3, 0x46, 1, 0x50, 0x77};
  auto r = H265RtpApParser::ParseRtpAp(d, 7, &st); EXPECT(r && r->nal_unit_sizes.size() == 1);
  r = H265RtpApParser::ParseRtpAp(d, 8, &st); EXPECT(r == nullptr);''',
 "an aggregation packet with one stray byte at its end", "a cut-off size field is silently accepted", ("h265_rtp_ap_parser.h",))
S("hvcc_numnalus_first", "P31",
 [("src/h265_configuration_box_parser.cc", "    for (uint32_t i = 0; i < configuration_box->numNalus.back(); i++) {", "    for (uint32_t i = 0; i < configuration_box->numNalus.front(); i++) {")],
 r'''
  W w; w.u(1, 8).u(0, 2).u(0, 1).u(1, 5).u(0x60000000, 32).u(0, 48).u(93, 8).u(15, 4).u(0, 12).u(63, 6).u(0, 2).u(63, 6).u(1, 2).u(31, 5).u(0, 3).u(31, 5).u(0, 3);
  w.u(0, 16).u(0, 2).u(1, 3).u(1, 1).u(3, 2).u(2, 8);
  w.u(1, 1).u(0, 1).u(35, 6).u(1, 16).u(3, 16).u(0x460150, 24);
  w.u(1, 1).u(0, 1).u(35, 6).u(2, 16).u(3, 16).u(0x460150, 24).u(3, 16).u(0x460130, 24);
  H265BitstreamParserState st; ParsingOptions o;
  auto r = H265ConfigurationBoxParser::ParseConfigurationBox(w.b.data(), w.b.size(), &st, o);
  EXPECT(r && r->nalUnit.size() == 2); if (r) EXPECT(r->nalUnit[1].size() == 2 && r->nalUnit[0].size() == 1);''',
 "two arrays with different numbers of NAL units", "every array is read with the NAL unit count of the first", ("h265_configuration_box_parser.h",))
S("name_nvcl46", "P34",
 [("src/h265_common.cc", '      return "rsv_nvcl46";', '      return "rsv_nvcl45";')],
 r'''EXPECT(NalUnitTypeToString(46) == "rsv_nvcl46"); EXPECT(NalUnitTypeToString(45) == "rsv_nvcl45");''',
 "type 46", "a reserved type is printed under another type's name")
S("more_data_last_byte", "P25",
 [("src/h265_common.cc", "  if (remaining_bitcount > 8) {", "  if (remaining_bitcount >= 8) {")],
 r'''uint8_t d[] = {0xaa, 0x80}; BitBuffer bb(d, 2); EXPECT(more_rbsp_data(&bb)); bb.ConsumeBits(8); EXPECT(!more_rbsp_data(&bb));''',
 "an RBSP whose data ends on a byte boundary", "a whole trailing byte 0x80 counts as data")
S("checksum_second_carry", "P32",
 [("src/h265_common.cc", "  // add carry\n  sum += (sum >> 32);\n", "")], r'''
  uint8_t d[] = {255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0, 1}; BitBuffer bb(d, sizeof(d));
  auto c = NaluChecksum::GetNaluChecksum(&bb); EXPECT(c->GetPrintableChecksum() == "fffffffe");
  uint8_t e[] = {0, 0, 0, 5}; BitBuffer be(e, 4); c = NaluChecksum::GetNaluChecksum(&be); EXPECT(c->GetPrintableChecksum() == "fffffffa");''',
 "a sum whose folding produces another carry", "the second end-around carry is dropped")
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: seed(*s[0], **s[1]) if not want or s[0][0] in want else None, ALL))
