# Table 7-1: classification of NAL unit types
function IsSliceSegment(nal_unit_type: uint) cpp "h265nal::IsSliceSegment(unsigned int)" file "h265_common" {
  result = nal_unit_type <= 9 || (nal_unit_type >= 16 && nal_unit_type <= 21);
}
function IsNalUnitTypeVcl(nal_unit_type: uint) cpp "h265nal::IsNalUnitTypeVcl(unsigned int)" file "h265_common" {
  result = nal_unit_type <= 31;
}
function IsNalUnitTypeNonVcl(nal_unit_type: uint) cpp "h265nal::IsNalUnitTypeNonVcl(unsigned int)" file "h265_common" {
  result = nal_unit_type >= 32 && nal_unit_type <= 63;
}
function IsNalUnitTypeUnspecified(nal_unit_type: uint) cpp "h265nal::IsNalUnitTypeUnspecified(unsigned int)" file "h265_common" {
  result = nal_unit_type >= 48 && nal_unit_type <= 63;
}
