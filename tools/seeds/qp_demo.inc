
  // an IDR slice of layer 0 followed by the same slice in layer 2
  std::vector<uint8_t> d = {0, 0, 0, 1, 0x26, 0x01, 0xaf, 0x09, 0x40, 0xfb, 0x27, 0x5b, 0xfd, 0x5d, 0xc2, 0x4d, 0xe8, 0xb2, 0x0f, 0xcd};
  std::vector<uint8_t> e = d; e[5] = 0x11; d.insert(d.end(), e.begin(), e.end());
  H265BitstreamParserState st;
  auto sps = std::make_shared<H265SpsParser::SpsState>(); sps->sample_adaptive_offset_enabled_flag = 1; sps->chroma_format_idc = 1; st.sps[0] = sps;
  auto pps = std::make_shared<H265PpsParser::PpsState>(); pps->init_qp_minus26 = 0; st.pps[0] = pps; st.vps[0] = std::make_shared<H265VpsParser::VpsState>();
  auto v = H265Utils::GetSliceQpY(d.data(), d.size(), &st);
  EXPECT(v.size() == 2); if (v.size() == 2) EXPECT(v[0] == 35 && v[1] == 35);
