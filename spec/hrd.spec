# H.265 E.2.3
syntax sub_layer_hrd_parameters(subLayerId: uint, CpbCnt: uint, sub_pic_hrd_params_present_flag: uint)
  cpp "h265nal::H265SubLayerHrdParametersParser::ParseSubLayerHrdParameters(h265nal::BitBuffer*" file "h265_sub_layer_hrd_parameters_parser"
  state "h265nal::H265SubLayerHrdParametersParser::SubLayerHrdParametersState" {
  for (i = 0; i < CpbCnt; i++) {
    bit_rate_value_minus1[] : ue();
    cpb_size_value_minus1[] : ue();
    if (sub_pic_hrd_params_present_flag) {
      cpb_size_du_value_minus1[] : ue();
      bit_rate_du_value_minus1[] : ue();
    } else {
      cpb_size_du_value_minus1[] = 0;
      bit_rate_du_value_minus1[] = 0;
    }
    cbr_flag[] : u(1);
  }
}

# H.265 E.2.2
syntax hrd_parameters(commonInfPresentFlag: uint, maxNumSubLayersMinus1: uint)
  cpp "h265nal::H265HrdParametersParser::ParseHrdParameters(h265nal::BitBuffer*" file "h265_hrd_parameters_parser"
  state "h265nal::H265HrdParametersParser::HrdParametersState" {
  require maxNumSubLayersMinus1 < 0xffffffff;
  if (commonInfPresentFlag) {
    nal_hrd_parameters_present_flag : u(1);
    vcl_hrd_parameters_present_flag : u(1);
    if (nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag) {
      sub_pic_hrd_params_present_flag : u(1);
      if (sub_pic_hrd_params_present_flag) {
        tick_divisor_minus2 : u(8);
        du_cpb_removal_delay_increment_length_minus1 : u(5);
        sub_pic_cpb_params_in_pic_timing_sei_flag : u(1);
        dpb_output_delay_du_length_minus1 : u(5);
      }
      bit_rate_scale : u(4);
      cpb_size_scale : u(4);
      if (sub_pic_hrd_params_present_flag) cpb_size_du_scale : u(4);
      initial_cpb_removal_delay_length_minus1 : u(5);
      au_cpb_removal_delay_length_minus1 : u(5);
      dpb_output_delay_length_minus1 : u(5);
    }
  }
  for (i = 0; i <= maxNumSubLayersMinus1; i++) {
    inv nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag || len(sub_layer_hrd_parameters_vector) == 0;
    fixed_pic_rate_general_flag[] : u(1);
    if (!fixed_pic_rate_general_flag[i]) fixed_pic_rate_within_cvs_flag[] : u(1);
    else fixed_pic_rate_within_cvs_flag[] = 1;
    if (fixed_pic_rate_within_cvs_flag[i]) {
      elemental_duration_in_tc_minus1[] : ue();
      low_delay_hrd_flag[] = 0;
    } else {
      elemental_duration_in_tc_minus1[] = 0;
      low_delay_hrd_flag[] : u(1);
    }
    if (!low_delay_hrd_flag[i]) cpb_cnt_minus1[] : ue();
    else cpb_cnt_minus1[] = 0;
    if (nal_hrd_parameters_present_flag)
      sub_layer_hrd_parameters_vector[] = call sub_layer_hrd_parameters(i, cpb_cnt_minus1[i] + 1, sub_pic_hrd_params_present_flag);
    if (vcl_hrd_parameters_present_flag)
      sub_layer_hrd_parameters_vector[] = call sub_layer_hrd_parameters(i, cpb_cnt_minus1[i] + 1, sub_pic_hrd_params_present_flag);
  }
  ensure wf_each(sub_layer_hrd_parameters_vector);
  ensure nal_hrd_parameters_present_flag || vcl_hrd_parameters_present_flag || len(sub_layer_hrd_parameters_vector) == 0;
}
