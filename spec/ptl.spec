# profile identification: A.3.2-A.3.7 (Tables A.2, A.3, A.5, A.7), H.11.1.1
def frext_profile() =
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 101 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 102 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 103 :
    (!max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 104 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 105 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 106 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 107 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 108 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 109 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 110 :
        (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 111 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 112 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 113 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 115 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 114 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 116 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 117 :
    (max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 118 :
    (!max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 119 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 120 :
    (!max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 121 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 150 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 151 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 3 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 100 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && one_picture_only_constraint_flag) ? 152 :
    4;
def high_throughput_profile() =
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 122 :
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 123 :
    (max_14bit_constraint_flag && !max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 124 :
        (!max_14bit_constraint_flag && !max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && intra_constraint_flag && !one_picture_only_constraint_flag) ? 125 :
    5;
def scalable_profile() =
    (max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 126 :
    (max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 127 :
    7;
def screen_extended_profile() =
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 128 :
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && max_422chroma_constraint_flag && max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 129 :
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 130 :
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 131 :
    9;
def screen_extended_high_throughput_profile() =
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 132 :
    (max_14bit_constraint_flag && max_12bit_constraint_flag && max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 133 :
    (max_14bit_constraint_flag && !max_12bit_constraint_flag && !max_10bit_constraint_flag && !max_8bit_constraint_flag && !max_422chroma_constraint_flag && !max_420chroma_constraint_flag && !max_monochrome_constraint_flag && !intra_constraint_flag && !one_picture_only_constraint_flag && lower_bit_rate_constraint_flag) ? 134 :
    11;
def profile_type_of() = profile_space != 0 ? 0 :
  profile_idc == 1 ? 1 :
  profile_idc == 2 ? (one_picture_only_constraint_flag ? 100 : 2) :
  profile_idc == 3 ? 3 :
  profile_idc == 4 ? frext_profile :
  profile_idc == 5 ? high_throughput_profile :
  profile_idc == 6 ? 6 :
  profile_idc == 7 ? scalable_profile :
  profile_idc == 8 ? 8 :
  profile_idc == 9 ? screen_extended_profile :
  profile_idc == 10 ? 10 :
  profile_idc == 11 ? screen_extended_high_throughput_profile :
  profile_idc == 12 ? 12 : profile_idc == 13 ? 13 : 0;

# syntax element value 1 means "set"; the tables only accept flags equal to 0 or 1 (requires below)
function GetProfileType(this: state "h265nal::H265ProfileInfoParser::ProfileInfoState") cpp "h265nal::H265ProfileInfoParser::ProfileInfoState::GetProfileType(" file "h265_profile_tier_level_parser" {
  require max_14bit_constraint_flag <= 1 && max_12bit_constraint_flag <= 1 && max_10bit_constraint_flag <= 1 && max_8bit_constraint_flag <= 1 && max_422chroma_constraint_flag <= 1 && max_420chroma_constraint_flag <= 1 && max_monochrome_constraint_flag <= 1 && intra_constraint_flag <= 1 && one_picture_only_constraint_flag <= 1 && lower_bit_rate_constraint_flag <= 1;
  result = profile_type_of;
}

def is_profile(n) = profile_idc == n || profile_compatibility_flag[n] == 1;

# 7.3.3 (profile part)
syntax profile_info() cpp "h265nal::H265ProfileInfoParser::ParseProfileInfo(h265nal::BitBuffer*" file "h265_profile_tier_level_parser"
  state "h265nal::H265ProfileInfoParser::ProfileInfoState" {
  profile_space : u(2);
  tier_flag : u(1);
  profile_idc : u(5);
  for (j = 0; j < 32; j++) profile_compatibility_flag[j] : u(1);
  progressive_source_flag : u(1);
  interlaced_source_flag : u(1);
  non_packed_constraint_flag : u(1);
  frame_only_constraint_flag : u(1);
  if (is_profile(4) || is_profile(5) || is_profile(6) || is_profile(7) || is_profile(8) || is_profile(9) || is_profile(10) || is_profile(11)) {
    max_12bit_constraint_flag : u(1);
    max_10bit_constraint_flag : u(1);
    max_8bit_constraint_flag : u(1);
    max_422chroma_constraint_flag : u(1);
    max_420chroma_constraint_flag : u(1);
    max_monochrome_constraint_flag : u(1);
    intra_constraint_flag : u(1);
    one_picture_only_constraint_flag : u(1);
    lower_bit_rate_constraint_flag : u(1);
    if (is_profile(5) || is_profile(9) || is_profile(10) || is_profile(11)) {
      max_14bit_constraint_flag : u(1);
      let r_hi : u(1); let r_lo : u(32);
      reserved_zero_33bits = r_hi << 32 | r_lo;
    } else {
      let r_hi : u(2); let r_lo : u(32);
      reserved_zero_34bits = r_hi << 32 | r_lo;
    }
  } else if (is_profile(2)) {
    reserved_zero_7bits : u(7);
    one_picture_only_constraint_flag : u(1);
    let r_hi : u(3); let r_lo : u(32);
    reserved_zero_35bits = r_hi << 32 | r_lo;
  } else {
    let r_hi : u(11); let r_lo : u(32);
    reserved_zero_43bits = r_hi << 32 | r_lo;
  }
  if (is_profile(1) || is_profile(2) || is_profile(3) || is_profile(4) || is_profile(5) || is_profile(9) || is_profile(11)) inbld_flag : u(1);
  else reserved_zero_bit : u(1);
  profile_type = profile_type_of;
}

# 7.3.3
syntax profile_tier_level(profilePresentFlag: bool, maxNumSubLayersMinus1: uint)
  cpp "h265nal::H265ProfileTierLevelParser::ParseProfileTierLevel(h265nal::BitBuffer*" file "h265_profile_tier_level_parser"
  state "h265nal::H265ProfileTierLevelParser::ProfileTierLevelState" args "maxNumSubLayersMinus1=0..7" {
  if (profilePresentFlag) general = call profile_info();
  general_level_idc : u(8);
  for (i = 0; i < maxNumSubLayersMinus1; i++) {
    sub_layer_profile_present_flag[] : u(1);
    sub_layer_level_present_flag[] : u(1);
  }
  if (maxNumSubLayersMinus1 > 0)
    for (i = maxNumSubLayersMinus1; i < 8; i++) reserved_zero_2bits[] : u(2);
  for (i = 0; i < maxNumSubLayersMinus1; i++) {
    if (sub_layer_profile_present_flag[i]) sub_layer[] = call profile_info();
    if (sub_layer_level_present_flag[i]) sub_layer_level_idc[] : u(8);
  }
  ensure !profilePresentFlag || !null(general);
  ensure wf_each(sub_layer);
}
