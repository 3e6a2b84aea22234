# 7.3.1.2
syntax nal_unit_header() cpp "h265nal::H265NalUnitHeaderParser::ParseNalUnitHeader(h265nal::BitBuffer*" file "h265_nal_unit_header_parser" state "h265nal::H265NalUnitHeaderParser::NalUnitHeaderState" {
  forbidden_zero_bit : u(1);
  nal_unit_type : u(6);
  nuh_layer_id : u(6);
  nuh_temporal_id_plus1 : u(3);
}

# 7.3.2.5
syntax aud() cpp "h265nal::H265AudParser::ParseAud(h265nal::BitBuffer*" file "h265_aud_parser" state "h265nal::H265AudParser::AudState" {
  pic_type : u(3);
  trailing_bits_opt();
}

# placeholder until 7.3.6 is specified
def is_slice_type(t) = t <= 9 || (t >= 16 && t <= 21);

# 7.3.1.1, Table 7-1: payload of each NAL unit type; parameter sets are stored under their id
syntax nal_unit_payload(nal_unit_type: uint, bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265NalUnitPayloadParser::ParseNalUnitPayload(h265nal::BitBuffer*" file "h265_nal_unit_payload_parser"
  state "h265nal::H265NalUnitPayloadParser::NalUnitPayloadState" mutates "bps" args "nal_unit_type=0..64" hints "nal_unit_type=0|1|19|20|21|32|33|34|35|39|40|48|49|63" {
  require wf_world(bps);
  ensure wf_world(bps);
  if (is_slice_type(nal_unit_type)) slice_segment_layer ?= call slice_segment_layer(nal_unit_type, bps);
  else if (nal_unit_type == 32) {
    vps ?= call vps();
    if (!null(vps)) bps.vps[vps.vps_video_parameter_set_id] = vps;
  } else if (nal_unit_type == 33) {
    sps ?= call sps();
    if (!null(sps)) bps.sps[sps.sps_seq_parameter_set_id] = sps;
  } else if (nal_unit_type == 34) {
    pps ?= call pps();
    if (!null(pps)) bps.pps[pps.pps_pic_parameter_set_id] = pps;
  } else if (nal_unit_type == 35) aud ?= call aud();
  else if (nal_unit_type == 39 || nal_unit_type == 40) sei ?= call sei();
}

# parsing options, one byte each
def opt_checksum(o) = (o >> 24) & 1;

# 7.3.1.1 (unescaped data): header, payload of its type; the checksum is over the whole unit
syntax nal_unit(bps: world "h265nal::H265BitstreamParserState", options: opts "h265nal::ParsingOptions") cpp "h265nal::H265NalUnitParser::ParseNalUnit(h265nal::BitBuffer*, h265nal::H265BitstreamParserState*, h265nal::ParsingOptions)"
  file "h265_nal_unit_parser" state "h265nal::H265NalUnitParser::NalUnitState" mutates "bps" start "0" {
  require wf_world(bps);
  ensure wf_world(bps);
  if (opt_checksum(options)) checksum = checksum();
  nal_unit_header = call nal_unit_header();
  nal_unit_payload = call nal_unit_payload(nal_unit_header.nal_unit_type, bps);
  parsed_length = (pos() + 7) >> 3;
}
