// hand-written operations on the real code for the parts that are not "parse a structure" calls
static void jo(Out& o, const char* k, unsigned long long v) { if (o.back() != '{') o += ","; o += std::string("\"") + k + "\":" + std::to_string(v); }
static void jhex(Out& o, const uint8_t* p, size_t n) { char b[4]; o += "\""; for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", p[i]); o += b; } o += "\""; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
static bool call_extra(const std::string& f, In& in, Out& o) {
  if (f == "ops" || f == "wops") {     // ops HEX startbit op op ...   ->  list of [ok, value, position]
    auto data = in.hex(); size_t start = in.u(); Buf buf(data);
    std::unique_ptr<BitBuffer> bbp; BitBufferWriter* w = nullptr;
    if (f == "ops") bbp.reset(new BitBuffer(buf.p, buf.n)); else { w = new BitBufferWriter(buf.p, buf.n); bbp.reset(w); }
    BitBuffer& bb = *bbp; if (!bb.Seek(start / 8, start % 8)) { o += "{\"noseek\":1}"; return true; }
    o += "{\"r\":["; bool first = true;
    while (in.i < in.t.size()) {
      auto a = split(in.next(), ':'); const std::string& n = a[0]; unsigned long long x = a.size() > 1 ? strtoull(a[1].c_str(), nullptr, 10) : 0, y = a.size() > 2 ? strtoull(a[2].c_str(), nullptr, 10) : 0;
      bool ok = false; std::string v = "0"; uint32_t v32 = 0xdeadbeef; uint64_t v64 = 0xdeadbeefdeadbeefull;
      if (n == "r") { ok = bb.ReadBits(x, v32); v = std::to_string(v32); }
      else if (n == "R") { ok = bb.ReadBits(x, v64); v = std::to_string(v64); }
      else if (n == "p") { ok = bb.PeekBits(x, v32); v = std::to_string(v32); }
      else if (n == "P") { ok = bb.PeekBits(x, v64); v = std::to_string(v64); }
      else if (n == "u8") { uint8_t t = 0; ok = bb.ReadUInt8(t); v = std::to_string(t); }
      else if (n == "u16") { uint16_t t = 0; ok = bb.ReadUInt16(t); v = std::to_string(t); }
      else if (n == "u32") { ok = bb.ReadUInt32(v32); v = std::to_string(v32); }
      else if (n == "ue") { ok = bb.ReadExponentialGolomb(v32); v = std::to_string(v32); }
      else if (n == "se") { int32_t t = 0; ok = bb.ReadSignedExponentialGolomb(t); v = std::to_string(t); }
      else if (n == "ns") { ok = bb.ReadNonSymmetric((uint32_t)x, v32); v = std::to_string(v32); }
      else if (n == "c") ok = bb.ConsumeBits(x);
      else if (n == "C") ok = bb.ConsumeBytes(x);
      else if (n == "s") ok = bb.Seek(x, y);
      else if (n == "rem") { ok = true; v = std::to_string(bb.RemainingBitCount()); }
      else if (n == "b") { Buf t(std::vector<uint8_t>(x, 0xa5)); ok = bb.ReadBytes(x, t.p); v = ""; jhex(v, t.p, ok ? x : 0); }
      else if (n == "more") { ok = true; v = std::to_string((int)more_rbsp_data(&bb)); }
      else if (n == "trail") ok = rbsp_trailing_bits(&bb);
      else if (n == "ali") { ok = true; v = std::to_string((int)byte_aligned(&bb)); }
      else if (n == "off") { ok = true; v = std::to_string(get_current_offset(&bb)); }
      else if (n == "sum") { auto s = NaluChecksum::GetNaluChecksum(&bb); ok = s != nullptr; v = ""; if (s) { jhex(v, (const uint8_t*)s->GetChecksum(), s->GetLength()); v.pop_back(); v += "|" + s->GetPrintableChecksum() + "|"; char t[9]; memset(t, 'x', 9); s->fdump(t, 9); t[8] = 0; v += t; v += "\""; } }
      else if (n == "w" && w) ok = w->WriteBits(x, y);
      else if (n == "w8" && w) ok = w->WriteUInt8((uint8_t)x);
      else if (n == "w16" && w) ok = w->WriteUInt16((uint16_t)x);
      else if (n == "w32" && w) ok = w->WriteUInt32((uint32_t)x);
      else if (n == "wue" && w) ok = w->WriteExponentialGolomb((uint32_t)x);
      else if (n == "wse" && w) ok = w->WriteSignedExponentialGolomb((int32_t)strtoll(a[1].c_str(), nullptr, 10));
      else if (n == "wns" && w) ok = w->WriteNonSymmetric((uint32_t)x, (uint32_t)y);
      else if (n == "nsz") { ok = true; v = std::to_string(BitBufferWriter::SizeNonSymmetricBits((uint32_t)x, (uint32_t)y)); }
      if (!first) o += ","; first = false;
      o += "[" + std::to_string((int)ok) + "," + v + "," + std::to_string(bitpos(bb)) + "]";
    }
    o += "],\"buf\":"; jhex(o, buf.p, buf.n); o += "}"; return true;
  }
  if (f == "unescape") { auto data = in.hex(); Buf buf(data); auto r = UnescapeRbsp(buf.p, buf.n); o += "{\"r\":"; jhex(o, r.data(), r.size()); o += "}"; return true; }
  if (f == "find") {
    auto data = in.hex(); Buf buf(data); auto r = H265BitstreamParser::FindNaluIndices(buf.p, buf.n); o += "{\"r\":[";
    for (size_t i = 0; i < r.size(); i++) o += (i ? ",[" : "[") + std::to_string(r[i].start_offset) + "," + std::to_string(r[i].payload_start_offset) + "," + std::to_string(r[i].payload_size) + "]";
    o += "]}"; return true; }
  if (f == "findx") {
    auto data = in.hex(); Buf buf(data); auto r = H265BitstreamParser::FindNaluIndicesExplicitFraming(buf.p, buf.n); o += "{\"r\":[";
    for (size_t i = 0; i < r.size(); i++) o += (i ? ",[" : "[") + std::to_string(r[i].start_offset) + "," + std::to_string(r[i].payload_start_offset) + "," + std::to_string(r[i].payload_size) + "]";
    o += "]}"; return true; }
  if (f == "stream" || f == "lstream") {   // whole streams: offset, length, header fields of every reported unit, the stored ids, the QPs
    auto data = in.hex(); size_t nb = f == "lstream" ? in.u() : 0; unsigned long long op = in.u(); Buf buf(data);
    H265BitstreamParserState st, st2; ParsingOptions po; bool* fl[] = {&po.add_offset, &po.add_length, &po.add_parsed_length, &po.add_checksum, &po.add_resolution}; for (int k = 0; k < 5; k++) *fl[k] = (op >> k) & 1;
    auto r = f == "stream" ? H265BitstreamParser::ParseBitstream(buf.p, buf.n, &st, po) : H265BitstreamParser::ParseBitstreamNALULength(buf.p, buf.n, nb, &st, po);
    auto rn = f == "stream" ? H265BitstreamParser::ParseBitstream(buf.p, buf.n, po) : H265BitstreamParser::ParseBitstreamNALULength(buf.p, buf.n, nb, po);
    o += "{\"r\":"; dump(o, r->nal_units); o += ",\"same\":"; Out a, b; dump(a, r->nal_units); dump(b, rn->nal_units); o += a == b ? "1" : "0";
    print_all(o, r); if (!r->nal_units.empty()) { g_po = po; for (auto& u : r->nal_units) { Out t; print_all(t, u); } }
    o += ",\"world\":"; dump(o, st);
    o += ",\"qp\":["; if (f == "stream") { auto q = H265Utils::GetSliceQpY(buf.p, buf.n, &st2); for (size_t i = 0; i < q.size(); i++) o += (i ? "," : "") + std::to_string(q[i]); }
    o += "]}"; return true; }
  if (f == "hvccrec") {
    auto data = in.hex(); unsigned long long op = in.u(); Buf buf(data); H265BitstreamParserState st;
    ParsingOptions po; bool* fl[] = {&po.add_offset, &po.add_length, &po.add_parsed_length, &po.add_checksum, &po.add_resolution}; for (int k = 0; k < 5; k++) *fl[k] = (op >> k) & 1;
    auto r = H265ConfigurationBoxParser::ParseConfigurationBox(buf.p, buf.n, &st, po); g_po = po;
    o += "{\"r\":"; dump(o, r); print_all(o, r); o += ",\"world\":"; dump(o, st); o += "}"; return true; }
  if (f == "rtpqp") {   // RTP packets in sequence sharing one state: the QP reported for each ("x" when none)
    size_t n = in.u(); H265BitstreamParserState st; o += "{\"r\":[";
    for (size_t i = 0; i < n; i++) { auto data = in.hex(); Buf buf(data); auto r = H265RtpParser::ParseRtp(buf.p, buf.n, &st); if (i) o += ",";
      if (!r) { o += "\"rejected\""; continue; } auto q = H265Utils::GetSliceQpY(r, &st); if (!q) o += "\"none\""; else o += std::to_string(*q); }
    o += "]}"; return true; }
  if (f == "pname") { uint32_t t = (uint32_t)in.u(); static const ProfileType e_[] = {ProfileType::UNSPECIFIED, ProfileType::MAIN, ProfileType::MAIN_10, ProfileType::MAIN_STILL_PICTURE, ProfileType::FREXT, ProfileType::HIGH_THROUGHPUT, ProfileType::MULTIVIEW_MAIN, ProfileType::SCALABLE, ProfileType::_3D_MAIN, ProfileType::SCREEN_EXTENDED, ProfileType::MULTILAYER, ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT, ProfileType::MULTIVIEW_EXTENDED, ProfileType::MULTIVIEW_EXTENDED_10, ProfileType::MAIN_10_STILL_PICTURE, ProfileType::MONOCHROME, ProfileType::MONOCHROME_10, ProfileType::MONOCHROME_12, ProfileType::MONOCHROME_16, ProfileType::MAIN_12, ProfileType::MAIN_422_10, ProfileType::MAIN_422_12, ProfileType::MAIN_444, ProfileType::MAIN_444_10, ProfileType::MAIN_444_12, ProfileType::MAIN_INTRA, ProfileType::MAIN_10_INTRA, ProfileType::MAIN_12_INTRA, ProfileType::MAIN_422_10_INTRA, ProfileType::MAIN_422_12_INTRA, ProfileType::MAIN_444_INTRA, ProfileType::MAIN_444_10_INTRA, ProfileType::MAIN_444_12_INTRA, ProfileType::MAIN_444_16_INTRA, ProfileType::MAIN_444_STILL_PICTURE, ProfileType::MAIN_444_16_STILL_PICTURE, ProfileType::HIGH_THROUGHPUT_444, ProfileType::HIGH_THROUGHPUT_444_10, ProfileType::HIGH_THROUGHPUT_444_14, ProfileType::HIGH_THROUGHPUT_444_16_INTRA, ProfileType::SCALABLE_MAIN, ProfileType::SCALABLE_MAIN_10, ProfileType::SCREEN_EXTENDED_MAIN, ProfileType::SCREEN_EXTENDED_MAIN_10, ProfileType::SCREEN_EXTENDED_MAIN_444, ProfileType::SCREEN_EXTENDED_MAIN_444_10, ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444, ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10, ProfileType::SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14, ProfileType::MONOCHROME_STILL_PICTURE, ProfileType::MONOCHROME_10_STILL_PICTURE, ProfileType::MAIN_444_10_STILL_PICTURE};
    static const char* n_[] = {"UNSPECIFIED", "MAIN", "MAIN_10", "MAIN_STILL_PICTURE", "FREXT", "HIGH_THROUGHPUT", "MULTIVIEW_MAIN", "SCALABLE", "_3D_MAIN", "SCREEN_EXTENDED", "MULTILAYER", "SCREEN_EXTENDED_HIGH_THROUGHPUT", "MULTIVIEW_EXTENDED", "MULTIVIEW_EXTENDED_10", "MAIN_10_STILL_PICTURE", "MONOCHROME", "MONOCHROME_10", "MONOCHROME_12", "MONOCHROME_16", "MAIN_12", "MAIN_422_10", "MAIN_422_12", "MAIN_444", "MAIN_444_10", "MAIN_444_12", "MAIN_INTRA", "MAIN_10_INTRA", "MAIN_12_INTRA", "MAIN_422_10_INTRA", "MAIN_422_12_INTRA", "MAIN_444_INTRA", "MAIN_444_10_INTRA", "MAIN_444_12_INTRA", "MAIN_444_16_INTRA", "MAIN_444_STILL_PICTURE", "MAIN_444_16_STILL_PICTURE", "HIGH_THROUGHPUT_444", "HIGH_THROUGHPUT_444_10", "HIGH_THROUGHPUT_444_14", "HIGH_THROUGHPUT_444_16_INTRA", "SCALABLE_MAIN", "SCALABLE_MAIN_10", "SCREEN_EXTENDED_MAIN", "SCREEN_EXTENDED_MAIN_10", "SCREEN_EXTENDED_MAIN_444", "SCREEN_EXTENDED_MAIN_444_10", "SCREEN_EXTENDED_HIGH_THROUGHPUT_444", "SCREEN_EXTENDED_HIGH_THROUGHPUT_444_10", "SCREEN_EXTENDED_HIGH_THROUGHPUT_444_14", "MONOCHROME_STILL_PICTURE", "MONOCHROME_10_STILL_PICTURE", "MAIN_444_10_STILL_PICTURE"};
    ProfileType p_ = (ProfileType)(uint8_t)t; std::string n = "?", s; for (size_t i = 0; i < sizeof(n_) / sizeof(*n_); i++) if (e_[i] == p_) n = n_[i];
    profileTypeToString(p_, s); o += "{\"type\":\"" + n + "\",\"name\":\"" + s + "\"}"; return true; }
  if (f == "gnt") { auto data = in.hex(); Buf buf(data); NalUnitType t = (NalUnitType)99; bool ok = H265NalUnitHeaderParser::GetNalUnitType(buf.p, buf.n, t); o += "{"; jo(o, "ok", ok); jo(o, "type", (int)t); o += "}"; return true; }
  if (f == "cls") { uint32_t t = (uint32_t)in.u(); o += "{"; jo(o, "slice", IsSliceSegment(t)); jo(o, "vcl", IsNalUnitTypeVcl(t)); jo(o, "nonvcl", IsNalUnitTypeNonVcl(t)); jo(o, "unspec", IsNalUnitTypeUnspecified(t)); o += ",\"name\":\"" + NalUnitTypeToString(t) + "\"}"; return true; }
  if (f == "pname") { std::string s = "zzz"; profileTypeToString((ProfileType)in.s(), s); o += "{\"r\":\"" + s + "\"}"; return true; }
  if (f == "geo") {
    H265SpsParser::SpsState s{};
    s.chroma_format_idc = in.u(); s.separate_colour_plane_flag = in.u(); s.pic_width_in_luma_samples = in.u(); s.pic_height_in_luma_samples = in.u();
    s.log2_min_luma_coding_block_size_minus3 = in.u(); s.log2_diff_max_min_luma_coding_block_size = in.u();
    s.conformance_window_flag = in.u(); s.conf_win_left_offset = in.u(); s.conf_win_right_offset = in.u(); s.conf_win_top_offset = in.u(); s.conf_win_bottom_offset = in.u();
    o += "{"; jo(o, "MinCbLog2SizeY", s.getMinCbLog2SizeY()); jo(o, "CtbLog2SizeY", s.getCtbLog2SizeY()); jo(o, "MinCbSizeY", s.getMinCbSizeY()); jo(o, "CtbSizeY", s.getCtbSizeY());
    jo(o, "PicWidthInMinCbsY", s.getPicWidthInMinCbsY()); jo(o, "PicHeightInMinCbsY", s.getPicHeightInMinCbsY()); jo(o, "PicWidthInCtbsY", s.getPicWidthInCtbsY()); jo(o, "PicHeightInCtbsY", s.getPicHeightInCtbsY());
    jo(o, "PicSizeInMinCbsY", s.getPicSizeInMinCbsY()); jo(o, "PicSizeInCtbsY", s.getPicSizeInCtbsY()); jo(o, "PicSizeInSamplesY", s.getPicSizeInSamplesY());
    o += ",\"SubWidthC\":" + std::to_string(s.getSubWidthC()) + ",\"SubHeightC\":" + std::to_string(s.getSubHeightC());
    int w = -7, h = -7; int rc = s.getResolution(&w, &h); o += ",\"rc\":" + std::to_string(rc) + ",\"w\":" + std::to_string(w) + ",\"h\":" + std::to_string(h);
    o += ",\"rcn\":" + std::to_string(s.getResolution(nullptr, &h)) + ",\"rcm\":" + std::to_string(s.getResolution(&w, nullptr)); o += "}"; return true; }
  if (f == "getps") { H265BitstreamParserState st{}; load(in, st); uint32_t id = (uint32_t)in.u(); auto v = st.GetVps(id); auto s = st.GetSps(id); auto p = st.GetPps(id); o += "{\"vps\":"; dump(o, v); o += ",\"sps\":"; dump(o, s); o += ",\"pps\":"; dump(o, p); o += "}"; return true; }
  return false;
}
