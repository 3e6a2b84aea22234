import sys; sys.path.insert(0, "/verif/tools")
from seedlib import *
ALL = []
def S(*a, **k): ALL.append((a, k))
S("type_lookup_reserved", "P08",
 [("src/h265_nal_unit_header_parser.cc", "  if (!naluHeader) {", "  if (!naluHeader || naluHeader->nuh_temporal_id_plus1 == 0) {")],
 r"""
  const uint8_t d[2] = {0x42, 0x00}; NalUnitType t = NalUnitType::TRAIL_N;
  bool ok = H265NalUnitHeaderParser::GetNalUnitType(d, 2, t); EXPECT(ok); EXPECT(t == NalUnitType::SPS_NUT);""",
 "a header whose nuh_temporal_id_plus1 is 0", "the type lookup fails although the header can be read", ("h265_nal_unit_header_parser.h",))
S("name_444_16_still", "P27",
 [("src/h265_common.cc", "Main 4:4:4 16 Still Picture", "Main 4:4:4 Still Picture")],
 r"""
  std::string a, b; profileTypeToString(ProfileType::MAIN_444_16_STILL_PICTURE, a); profileTypeToString(ProfileType::MAIN_444_STILL_PICTURE, b);
  EXPECT(a != b);""",
 "a stream of the Main 4:4:4 16 Still Picture profile", "it is reported under the name of another profile", ("h265_common.h",))
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    want = sys.argv[1:]
    with ThreadPoolExecutor(4) as ex: list(ex.map(lambda s: seed(*s[0], **s[1]) if not want or s[0][0] in want else None, ALL))
