WHY = GENERIC
p("P01", "Fixed-length bit reads return exactly the next bits",
  "Reading or peeking n bits (1 <= n <= 32, or <= 64 for the wide variant) from a bit buffer yields the unsigned value of the next n bits, most significant first; a read advances the position by exactly n and a peek by 0. A request for more bits than remain, or wider than the destination, fails and leaves the position unchanged. Skipping, seeking and the remaining-bit count are exact in the same sense, for every buffer, position and bit offset.",
  "for every buffer content and length, every byte/bit position and every requested width",
  "Tests read a few aligned and unaligned fields from one 8-byte array; the shift/mask code has 8 offsets x 64 widths x end-of-buffer cases, and an error may show only for one of them.",
  [S + "rtc_common.cc", I + "rtc_common.h"], [("PeekBits/ReadBits", S + "rtc_common.cc"), ("ConsumeBits/ConsumeBytes/Seek/RemainingBitCount", S + "rtc_common.cc")])
p("P02", "Exp-Golomb codes decode to the standard's value or fail cleanly",
  "Decoding an unsigned Exp-Golomb code with k <= 31 leading zero bits returns 2^k - 1 + (the k bits after the first 1) and advances by 2k+1 bits; the signed form maps code number n to (-1)^(n+1)*ceil(n/2). If the stream ends inside the code, or it has more than 31 leading zeros, the call fails and restores the position.",
  "for every bit string at every position, including all-zero tails and the largest 32-bit codes",
  "Tests decode short codes; the 31/32-zero boundary, codes cut at the last bit, and the position restored on failure are not reached by recorded streams.",
  [S + "rtc_common.cc"], [("ReadExponentialGolomb", S + "rtc_common.cc"), ("ReadSignedExponentialGolomb", S + "rtc_common.cc")])
p("P03", "The bit writer is the inverse of the bit reader",
  "Writing n bits (or an Exp-Golomb or non-symmetric code) at any bit position changes exactly the written bits and advances the position by the code length; reading at the same position with the matching read operation returns the value written. A write that does not fit fails and changes nothing.",
  "for every value, width, bit position and previous buffer content",
  "Round trips are tested for a few values at two offsets; neighbouring-bit preservation and failing writes near the end of the buffer are not.",
  [S + "rtc_common.cc"], [("WriteBits/WriteExponentialGolomb/WriteNonSymmetric", S + "rtc_common.cc")])
p("P04", "Emulation prevention bytes are removed, and nothing else",
  "Unescaping a NAL unit drops exactly each 0x03 byte that follows two zero bytes of the escaped data (the two zeros counted afresh after each removal) and keeps all other bytes in order. The output is therefore never longer than the input and equals it when it contains no 00 00 03.",
  "for every byte string, including overlapping and trailing escape patterns and lengths 0 to 3",
  "A few fixed arrays are tested; adjacent escapes, an escape in the last bytes and runs of zeros are the error-prone cases.",
  [S + "h265_common.cc"], [("UnescapeRbsp", S + "h265_common.cc")])
p("P05", "Annex-B splitting finds exactly the NAL units between start codes",
  "Splitting a byte stream at its 00 00 01 start codes yields one entry per start code, in order: its start (including a preceding zero byte that belongs to a 4-byte start code), its payload offset just after the 01, and a payload length reaching to the next entry's start or the end of the stream. The payloads are disjoint, lie inside the buffer, and no start code is missed or invented.",
  "for every byte string, with any number, spacing and form of start codes",
  "Tests use one hand-made buffer; the scan skips up to three bytes at a time, so a wrong stride only fails for particular byte alignments.",
  [S + "h265_bitstream_parser.cc"], [("FindNaluIndices", S + "h265_bitstream_parser.cc")])
p("P06", "Length-prefixed framing is followed exactly",
  "With explicit framing of 1, 2, 4 or 8 length bytes, the NAL units returned are exactly those announced by successive big-endian length fields; a length field or payload that does not fit in the remaining data ends the scan or is rejected, and no returned unit reaches outside the buffer.",
  "for every buffer, every supported length-field size and every announced length up to the largest encodable",
  "Tests use a well-formed 4-byte example; huge lengths (where offset + length wraps), truncated tails and zero lengths are never tried.",
  [S + "h265_bitstream_parser.cc"], [("FindNaluIndicesExplicitFraming, read_nalu_length", S + "h265_bitstream_parser.cc"), ("ParseBitstreamNALULength", S + "h265_bitstream_parser.cc")])
p("P08", "The NAL unit header is decoded per the standard and validated",
  "Parsing a NAL unit header consumes exactly 16 bits as forbidden_zero_bit u(1), nal_unit_type u(6), nuh_layer_id u(6), nuh_temporal_id_plus1 u(3), and reports those values. It is rejected exactly when fewer than 16 bits remain. The type looked up directly from a NAL unit's bytes is that of its header.",
  "for every 16-bit header and every truncation",
  "Tests decode a handful of headers.",
  [S + "h265_nal_unit_header_parser.cc"], [("ParseNalUnitHeader", S + "h265_nal_unit_header_parser.cc")])
p("P09", "Each NAL unit type is dispatched to exactly its own payload syntax",
  "For every nal_unit_type, the payload is parsed with exactly the RBSP syntax Table 7-1 assigns to it (VPS, SPS, PPS, AUD, prefix/suffix SEI, slice segments), that result alone is present in the parsed payload, and types without a supported syntax yield a payload with no content. A slice segment is parsed with its own NAL unit type and the current parameter sets.",
  "for every NAL unit type 0..63, every payload and every set of stored parameter sets",
  "Tests cover five or six types out of 64, each in isolation.",
  [S + "h265_nal_unit_payload_parser.cc"], [("ParseNalUnitPayload", S + "h265_nal_unit_payload_parser.cc")])
p("P10", "Parameter sets are stored under their own id and replaced only when valid",
  "After a VPS, SPS or PPS NAL unit parses successfully, looking up its id returns exactly that parsed set and the lookups for every other id are unchanged; a parameter set that fails to parse changes no stored set. Lookup of an id never stored returns nothing.",
  "for every history of parameter-set NAL units, including re-sent ids and failed ones",
  "It is a property of histories: tests send each id once.",
  [S + "h265_bitstream_parser_state.cc", S + "h265_nal_unit_payload_parser.cc"], [("GetVps/GetSps/GetPps", S + "h265_bitstream_parser_state.cc"), ("store updates", S + "h265_nal_unit_payload_parser.cc")], over=("inputs", "histories"))
p("P11", "A NAL unit is its header plus the payload of its type",
  "Parsing a NAL unit yields the parsed header, the payload parsed according to that header's type, and, when requested, its parsed length and checksum. A NAL unit whose 16-bit header is cut off is rejected and not reported; one whose payload does not parse is reported with its header and an absent payload content. Unescaped and raw entry points agree whenever the data contains no emulation prevention byte, and parsing a stream reports each unit in order with its offset and length.",
  "for every NAL unit, every parsing option and every parser state",
  "Tests run complete recorded units with one option set each.",
  [S + "h265_nal_unit_parser.cc", S + "h265_bitstream_parser.cc"], [("ParseNalUnit, ParseNalUnitUnescaped", S + "h265_nal_unit_parser.cc"), ("ParseBitstream", S + "h265_bitstream_parser.cc")])
p("P12", "Video parameter sets are decoded per 7.3.2.1 or rejected",
  "For every bit string, parsing a VPS yields every syntax element with the value, presence condition, loop count and inferred value given by clause 7.3.2.1, including the per-layer inclusion flags, timing and HRD information (of several HRD structures, the last is kept). It is rejected exactly when it is truncated or an element is outside its permitted range.",
  "for every bit string", WHY, [S + "h265_vps_parser.cc"], [("ParseVps", S + "h265_vps_parser.cc")])
p("P13", "Sequence parameter sets are decoded per 7.3.2.2 or rejected",
  "For every bit string, parsing an SPS yields every syntax element with the value, presence condition, loop count and inferred value of clause 7.3.2.2, including conformance window, scaling list, PCM, long- and short-term reference sets, VUI and extension flags. It is rejected exactly when it is truncated, an element is outside its permitted range, a substructure is invalid, or the picture size is not a multiple of the minimum coding block size.",
  "for every bit string", WHY, [S + "h265_sps_parser.cc"], [("ParseSps", S + "h265_sps_parser.cc")])
p("P14", "Picture parameter sets are decoded per 7.3.2.3 or rejected",
  "For every bit string, parsing a PPS yields every syntax element with the value, presence condition, loop count and inferred value of clause 7.3.2.3, including tiles, deblocking control, scaling list and extension flags. It is rejected exactly when it is truncated, an element is outside its permitted range, or a substructure is invalid.",
  "for every bit string", WHY, [S + "h265_pps_parser.cc"], [("ParsePps", S + "h265_pps_parser.cc")])
p("P15", "Slice segment headers are decoded per 7.3.6 or rejected",
  "For every bit string and every set of stored parameter sets, parsing a slice segment header yields the syntax elements selected by the referenced PPS and SPS and the NAL unit type, with element widths, presence and defaults of clause 7.3.6.1. It is rejected when the referenced PPS or SPS is missing, the data is truncated, a short-term reference picture set or prediction weight table inside it is invalid, or its entry-point count or offset length is out of range. (Elements of ref_pic_lists_modification and chroma_qp_offset_list syntax, which the library documents as unimplemented, are outside this property.)",
  "for every bit string, NAL unit type and combination of stored parameter sets", WHY + " Slice headers depend on three objects at once, so the number of combinations is out of reach of fixed vectors.",
  [S + "h265_slice_parser.cc"], [("ParseSliceSegmentHeader, ParseSliceSegmentLayer", S + "h265_slice_parser.cc")], over=("inputs", "histories"))
p("P16", "SEI messages are framed by their type and size and decoded per Annex D",
  "For every SEI RBSP, the payload type and size are the sums of their 0xFF-extended bytes, and the payload is decoded with the syntax of its type with each element's width and presence. Unknown types keep their raw payload bytes. A message whose type or size is cut off is rejected; a payload that is truncated or malformed is reported as absent, with the message's type and size kept.",
  "for every SEI message byte string", WHY, [S + "h265_sei_parser.cc"], [("ParseSei and payload parsers", S + "h265_sei_parser.cc")])
p("P17", "VUI parameters are decoded per E.2.1 or rejected",
  "For every bit string, parsing VUI parameters yields every element with the value, presence condition and inferred default of clause E.2.1 (aspect ratio, video signal type, chroma location, display window, timing, HRD, bitstream restriction). They are rejected exactly when truncated, out of range, or when the HRD part is invalid.",
  "for every bit string and sub-layer count", WHY, [S + "h265_vui_parameters_parser.cc"], [("ParseVuiParameters", S + "h265_vui_parameters_parser.cc")])
p("P18", "HRD parameters are decoded per E.2.2/E.2.3 for every sub-layer and CPB",
  "For every bit string, parsing HRD parameters yields, for each sub-layer and each CPB, the elements and inferred values of clauses E.2.2 and E.2.3 in order, with the NAL and VCL parts present as signalled. They are rejected exactly when truncated or out of range.",
  "for every bit string and sub-layer count", WHY, [S + "h265_hrd_parameters_parser.cc", S + "h265_sub_layer_hrd_parameters_parser.cc"], [("ParseHrdParameters", S + "h265_hrd_parameters_parser.cc"), ("ParseSubLayerHrdParameters", S + "h265_sub_layer_hrd_parameters_parser.cc")])
p("P19", "Profile, tier and level are decoded per 7.3.3 for all profiles and sub-layers",
  "For every bit string, parsing profile_tier_level yields the general and per-sub-layer profile flags, compatibility flags, constraint flags (as selected by the profile) and levels of clause 7.3.3, reading 88 bits per profile and 8 per level where present. It is rejected exactly when truncated or when a sub-layer count is out of range.",
  "for every bit string and sub-layer count", WHY + " The constraint flags present depend on 32 compatibility flags.", [S + "h265_profile_tier_level_parser.cc"], [("ParseProfileTierLevel, ParseProfileInfo", S + "h265_profile_tier_level_parser.cc")])
p("P20", "Short-term reference picture sets are decoded and predicted per 7.3.7/7.4.8",
  "For every bit string and list of earlier sets, parsing a short-term reference picture set yields its explicitly coded deltas, or for inter prediction the delta lists and used flags derived by equations 7-61/7-62 from the referenced set, in order. It is rejected when truncated, out of range, or when more pictures result than allowed.",
  "for every bit string, index and list of earlier sets", WHY + " Inter prediction composes sets, so errors appear only for particular chains.", [S + "h265_st_ref_pic_set_parser.cc"], [("ParseStRefPicSet, DeriveValues", S + "h265_st_ref_pic_set_parser.cc")], over=("inputs", "histories"))
p("P21", "Scaling lists are decoded per 7.3.4 with prediction and DC values",
  "For every bit string, parsing scaling list data yields for each of the sizes and matrices the prediction mode and reference delta, the DC coefficient and the coefficients obtained by accumulating the coded deltas modulo 256. It is rejected exactly when truncated or out of range.",
  "for every bit string", WHY, [S + "h265_scaling_list_data_parser.cc"], [("ParseScalingListData", S + "h265_scaling_list_data_parser.cc")])
p("P22", "Prediction weight tables are decoded per 7.3.6.3 for every chroma format",
  "For every bit string, chroma format and number of active references, the prediction weight table yields the log2 denominators and, for list 0 and (in B slices) then list 1, the luma flags, the chroma flags when there is chroma, and for each flagged reference its weights and offsets, in that order. It is rejected exactly when truncated or out of range.",
  "for every bit string, chroma format and reference count", WHY, [S + "h265_pred_weight_table_parser.cc"], [("ParsePredWeightTable", S + "h265_pred_weight_table_parser.cc")])
p("P23", "SPS extensions are decoded per their annexes",
  "For every bit string, the SPS range, multilayer, 3D and screen-content extensions yield exactly the elements of clauses 7.3.2.2.2, F.7.3.2.2.4, I.7.3.2.2.5 and 7.3.2.2.3, including palette predictor initialisers sized by bit depth and chroma format. They are rejected exactly when truncated or out of range.",
  "for every bit string, chroma format and bit depth", WHY + " Recorded streams do not use these extensions.", [S + "h265_sps_range_extension_parser.cc", S + "h265_sps_multilayer_extension_parser.cc", S + "h265_sps_3d_extension_parser.cc", S + "h265_sps_scc_extension_parser.cc"], [("ParseSpsRangeExtension", S + "h265_sps_range_extension_parser.cc"), ("ParseSpsSccExtension", S + "h265_sps_scc_extension_parser.cc"), ("ParseSps3dExtension", S + "h265_sps_3d_extension_parser.cc")])
p("P24", "PPS extensions are decoded per their annexes",
  "For every bit string, the PPS multilayer and screen-content extensions yield exactly the elements of clauses F.7.3.2.3.4 and 7.3.2.3.3, including reference location offsets, colour mapping presence and palette predictor initialisers. They are rejected exactly when truncated or out of range.",
  "for every bit string", WHY + " Recorded streams do not use these extensions.", [S + "h265_pps_multilayer_extension_parser.cc", S + "h265_pps_scc_extension_parser.cc"], [("ParsePpsMultilayerExtension", S + "h265_pps_multilayer_extension_parser.cc"), ("ParsePpsSccExtension", S + "h265_pps_scc_extension_parser.cc")])
p("P25", "Payload end detection follows 7.2 and access unit delimiters decode exactly",
  "There is no more RBSP data exactly when no bits remain, or at most eight remain and they are a 1 followed by zeros; trailing bits are accepted exactly when a 1 bit is followed by zeros up to the byte boundary. An access unit delimiter yields its 3-bit picture type and is rejected when truncated.",
  "for every buffer and every bit position", "The answer depends on the position inside the last byte and on its contents: 8 x 256 cases plus all longer tails, of which tests try a few.",
  [S + "h265_common.cc", S + "h265_aud_parser.cc"], [("more_rbsp_data, rbsp_trailing_bits, byte_aligned", S + "h265_common.cc"), ("ParseAud", S + "h265_aud_parser.cc")])
p("P26", "Picture geometry derived from an SPS follows the standard's equations",
  "From every accepted SPS, the minimum coding block and CTB sizes, picture sizes in those units (rounded up for CTBs), chroma subsampling factors, and the displayed resolution after the conformance window equal equations 7-10 to 7-22. The slice segment address read with the derived width and the entry-point bound derived from the picture size agree with the standard.",
  "for every sequence parameter set", "The tests check one resolution; rounding up at non-multiples and unusual CTB sizes are not covered.",
  [S + "h265_sps_parser.cc"], [("getters of the SPS state, getResolution", S + "h265_sps_parser.cc")])
p("P27", "The profile name is the most specific one the flags establish",
  "For every combination of profile indication, compatibility flags and constraint flags, the reported profile is the entry of tables A.2/A.3 and clause A.3 whose conditions hold, or unspecified when none does; every profile is printed under its own name, which no other profile shares.",
  "for every combination of profile idc, compatibility and constraint flags", "There are 2^42 combinations and over 40 outcomes; tests check a dozen.",
  [S + "h265_profile_tier_level_parser.cc"], [("GetProfileType", S + "h265_profile_tier_level_parser.cc")])
p("P28", "A single-NAL RTP packet is parsed as that NAL unit",
  "Parsing an RTP payload that carries a single NAL unit yields its header and the payload of its type (absent content when the payload does not parse); it is rejected when the header is cut off.",
  "for every packet and every set of stored parameter sets", WHY, [S + "h265_rtp_single_parser.cc"], [("ParseRtpSingle", S + "h265_rtp_single_parser.cc")], over=("inputs", "histories"))
p("P29", "An RTP aggregation packet yields each aggregated NAL unit in order",
  "Parsing an aggregation packet yields its payload header and then, for each aggregated unit in order, its 16-bit size field, the NAL unit header that follows it and the payload parsed with that header's type. It is rejected when a size field, a header or the announced data is cut off; a contained payload that does not parse is reported with absent content.",
  "for every packet", WHY, [S + "h265_rtp_ap_parser.cc"], [("ParseRtpAp", S + "h265_rtp_ap_parser.cc")], over=("inputs", "histories"))
p("P30", "RTP fragmentation units and packet dispatch follow RFC 7798",
  "An RTP payload is treated as a single NAL unit for types 0..47, an aggregation packet for 48 and a fragmentation unit for 49, with only that part filled in. A fragmentation unit yields its start and end bits and inner type, and parses the inner payload only for the starting fragment.",
  "for every packet and every set of stored parameter sets", WHY, [S + "h265_rtp_parser.cc", S + "h265_rtp_fu_parser.cc"], [("ParseRtp", S + "h265_rtp_parser.cc"), ("ParseRtpFu", S + "h265_rtp_fu_parser.cc")], over=("inputs", "histories"))
p("P31", "The HEVC configuration record is decoded per ISO/IEC 14496-15",
  "For every byte string, parsing a configuration record yields its profile, tier, level, format and framing fields and, for every array and NAL unit in it, the declared type, length and the parsed unit, in order; it is rejected when truncated, when its version is not 1 or when a reserved field has a wrong value.",
  "for every byte string", WHY, [S + "h265_configuration_box_parser.cc"], [("ParseConfigurationBox", S + "h265_configuration_box_parser.cc")], over=("inputs", "histories"))
p("P32", "The NAL unit checksum depends only on the bytes, and on all of them",
  "The checksum of a NAL unit is the ones' complement of the 32-bit ones' complement sum (end-around carry) of its bytes taken as big-endian 32-bit words (the tail zero-padded), always four bytes long, and computing it does not move the read position.",
  "for every byte string of every length modulo 4", "Tests check one value.",
  [S + "h265_common.cc"], [("GetNaluChecksum", S + "h265_common.cc")])
p("P33", "Slice QP values are computed from the right parameter set",
  "The reported luma QP of a slice is 26 plus the initial QP of the picture parameter set it references plus its own delta; one value is reported for each slice whose header and parameter sets are available, in stream order, and none otherwise.",
  "for every bitstream and RTP packet and every set of stored parameter sets", "Needs particular combinations of several PPS and slices; tests use one PPS.",
  [S + "h265_utils.cc"], [("GetSliceQpY", S + "h265_utils.cc")], over=("inputs", "histories"))
p("P34", "NAL unit types are classified per Table 7-1",
  "For every NAL unit type value, the slice-segment, VCL, non-VCL and unspecified classifications and the printed name are those of Table 7-1; every type is either VCL or non-VCL and unspecified types are exactly 48..63.",
  "for every 32-bit type value", "64 values times four predicates; tests check a few.",
  [S + "h265_common.cc"], [("IsSliceSegment, IsNalUnitTypeVcl, IsNalUnitTypeNonVcl, IsNalUnitTypeUnspecified", S + "h265_common.cc")])
p("P35", "No input makes a parser access memory it does not own",
  "For every input, parsing terminates normally: no read or write outside the input buffer or an allocated object, no null or dangling access, no failed internal assertion, no undefined shift or signed overflow. Invalid or truncated data is reported by returning no result.",
  "for every byte string at every parser entry point, after every history", "Absence of a bad access on all inputs cannot be sampled; the tests run well-formed streams without sanitizers.",
  [S + "rtc_common.cc", S + "h265_slice_parser.cc", S + "h265_sps_parser.cc", S + "h265_pps_parser.cc", S + "h265_vps_parser.cc"], [("all Parse* entry points", S)], over=("inputs", "histories"))
p("P36", "Every parsed structure can be printed",
  "For every structure any parser returns, printing it at any indentation terminates without touching missing parts. The text is the same up to white space for every indentation, names each syntax element read from the stream that the structure stores with its value, and prints under a stored element's name only stored values.",
  "for every accepted input of every parser", "Optional parts are printed under conditions that differ from those under which they are parsed; tests print two streams.",
  [S + "h265_sps_parser.cc", S + "h265_nal_unit_payload_parser.cc", S + "h265_slice_parser.cc"], [("fdump methods", S)])
