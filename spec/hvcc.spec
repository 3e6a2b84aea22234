# ISO/IEC 14496-15, 8.3.2.1.2: HEVCDecoderConfigurationRecord
syntax hvcc(bps: world "h265nal::H265BitstreamParserState", options: opts "h265nal::ParsingOptions") cpp "h265nal::H265ConfigurationBoxParser::ParseConfigurationBox(h265nal::BitBuffer*"
  file "h265_configuration_box_parser" state "h265nal::H265ConfigurationBoxParser::ConfigurationBoxState" mutates "bps" hints "numOfArrays=0|1|2|3" {
  require wf_world(bps);
  ensure wf_world(bps);
  configurationVersion : u(8) [1 .. 1];
  general_profile_space : u(2);
  general_tier_flag : u(1);
  general_profile_idc : u(5);
  for (j = 0; j < 32; j++) general_profile_compatibility_flags[j] : u(1);
  general_constraint_indicator_flags : u(48);
  general_level_idc : u(8);
  reserved1 : u(4) [15 .. 15];
  min_spatial_segmentation_idc : u(12);
  reserved2 : u(6) [63 .. 63];
  parallelismType : u(2);
  reserved3 : u(6) [63 .. 63];
  chroma_format_idc : u(2);
  reserved4 : u(5) [31 .. 31];
  bit_depth_luma_minus8 : u(3);
  reserved5 : u(5) [31 .. 31];
  bit_depth_chroma_minus8 : u(3);
  avgFrameRate : u(16);
  constantFrameRate : u(2);
  numTemporalLayers : u(3);
  temporalIdNested : u(1);
  lengthSizeMinusOne : u(2);
  numOfArrays : u(8);
  for (j = 0; j < numOfArrays; j++) {
    inv len(numNalus) == j && len(nalUnitLength) == j && len(nalUnit) == j;
    inv any_index >= j || (len(nalUnitLength[any_index]) == numNalus[any_index] && len(nalUnit[any_index]) == numNalus[any_index]);
    array_completeness[] : u(1);
    reserved6[] : u(1) [0 .. 0];
    NAL_unit_type[] : u(6);
    let count : u(16);
    numNalus[] = count;
    nalUnitLength[] = inner();
    nalUnit[] = inner();
    for (i = 0; i < count; i++) {
      inv any_index >= j || (len(nalUnitLength[any_index]) == numNalus[any_index] && len(nalUnit[any_index]) == numNalus[any_index]);
      inv len(nalUnitLength[j]) == i && len(nalUnit[j]) == i;
      let size : u(16);
      nalUnitLength[j][] = size;
      nalUnit[j][] ?= call nal_unit(bps, options) on bytes(size);
    }
  }
  ensure len(array_completeness) == numOfArrays && len(reserved6) == numOfArrays && len(NAL_unit_type) == numOfArrays && len(numNalus) == numOfArrays && len(nalUnitLength) == numOfArrays && len(nalUnit) == numOfArrays;
  ensure any_index >= numOfArrays || (len(nalUnitLength[any_index]) == numNalus[any_index] && len(nalUnit[any_index]) == numNalus[any_index]);
}
