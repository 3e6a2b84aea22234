# RFC 7798 4.4.1
syntax rtp_single(bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265RtpSingleParser::ParseRtpSingle(h265nal::BitBuffer*" file "h265_rtp_single_parser" state "h265nal::H265RtpSingleParser::RtpSingleState" mutates "bps" {
  require wf_world(bps);
  ensure wf_world(bps);
  nal_unit_header = call nal_unit_header();
  nal_unit_payload = call nal_unit_payload(nal_unit_header.nal_unit_type, bps);
}

# RFC 7798 4.4.2
syntax rtp_ap(bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265RtpApParser::ParseRtpAp(h265nal::BitBuffer*" file "h265_rtp_ap_parser" state "h265nal::H265RtpApParser::RtpApState" mutates "bps" hints "size=2|3|4|5|6|8" {
  require wf_world(bps);
  ensure wf_world(bps);
  header = call nal_unit_header();
  while (more_data()) {
    let size : u(16);
    reject if size * 8 > remaining();
    nal_unit_sizes[] = size;
    let h = call nal_unit_header();
    nal_unit_headers[] = h;
    let p = call nal_unit_payload(h.nal_unit_type, bps);
    nal_unit_payloads[] = p;
  }
  ensure wf_each(nal_unit_headers);
  ensure wf_each(nal_unit_payloads);
  ensure len(nal_unit_headers) == len(nal_unit_sizes) && len(nal_unit_payloads) == len(nal_unit_sizes);
}

# RFC 7798 4.4.3
syntax rtp_fu(bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265RtpFuParser::ParseRtpFu(h265nal::BitBuffer*" file "h265_rtp_fu_parser" state "h265nal::H265RtpFuParser::RtpFuState" mutates "bps" hints "fu_type=0|1|19|32|33|34|35" {
  require wf_world(bps);
  ensure wf_world(bps);
  header = call nal_unit_header();
  s_bit : u(1);
  e_bit : u(1);
  fu_type : u(6);
  if (s_bit) nal_unit_payload = call nal_unit_payload(fu_type, bps);
}

# RFC 7798 4: the packet is re-read from its start with the structure its type selects
syntax rtp(bps: world "h265nal::H265BitstreamParserState") cpp "h265nal::H265RtpParser::ParseRtp(h265nal::BitBuffer*" file "h265_rtp_parser" state "h265nal::H265RtpParser::RtpState" mutates "bps" start "0" hints "nal_unit_type=32|33|34|35|48|48|49|49|50|1|19" {
  require pos() == 0;
  require wf_world(bps);
  ensure wf_world(bps);
  nal_unit_header = call nal_unit_header();
  seek(0);
  if (nal_unit_header.nal_unit_type <= 47) rtp_single = call rtp_single(bps);
  else if (nal_unit_header.nal_unit_type == 48) rtp_ap = call rtp_ap(bps);
  else if (nal_unit_header.nal_unit_type == 49) rtp_fu = call rtp_fu(bps);
}
