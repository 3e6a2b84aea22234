# 7.3.4
syntax scaling_list_data() cpp "h265nal::H265ScalingListDataParser::ParseScalingListData(h265nal::BitBuffer*" file "h265_scaling_list_data_parser"
  state "h265nal::H265ScalingListDataParser::ScalingListDataState" {
  for (sizeId = 0; sizeId < 4; sizeId++) {
    scaling_list_pred_mode_flag[] = filled(6, 0);
    scaling_list_pred_matrix_id_delta[] = filled(6, 0);
    scaling_list_dc_coef_minus8[] = filled(6, 0);
    ScalingList[] = inner();
    for (matrixId = 0; matrixId < 6; matrixId++) ScalingList[sizeId][] = inner();
  }
  for (sizeId = 0; sizeId < 4; sizeId++)
    for (matrixId = 0; matrixId < 6; matrixId = matrixId + (sizeId == 3 ? 3 : 1)) {
      scaling_list_pred_mode_flag[sizeId][matrixId] : u(1);
      if (!scaling_list_pred_mode_flag[sizeId][matrixId])
        scaling_list_pred_matrix_id_delta[sizeId][matrixId] : ue();
      else {
        let nextCoef = 8;
        let coefNum = min(64, 1 << (4 + (sizeId << 1)));
        if (sizeId > 1) {
          scaling_list_dc_coef_minus8[sizeId - 2][matrixId] : se();
          nextCoef = u32(scaling_list_dc_coef_minus8[sizeId - 2][matrixId] + 8);
        }
        for (i = 0; i < coefNum; i++) {
          let scaling_list_delta_coef : se();
          nextCoef = u32(nextCoef + scaling_list_delta_coef + 256) % 256;
          ScalingList[sizeId][matrixId][] = nextCoef;
        }
      }
    }
}
