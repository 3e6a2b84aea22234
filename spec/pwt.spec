# 7.3.6.3; num_ref_idx_l1_active is 0 unless the slice is a B slice
syntax pred_weight_table(ChromaArrayType: uint, num_ref_idx_l0_active_minus1: uint, num_ref_idx_l1_active: uint)
  cpp "h265nal::H265PredWeightTableParser::ParsePredWeightTable(h265nal::BitBuffer*" file "h265_pred_weight_table_parser"
  state "h265nal::H265PredWeightTableParser::PredWeightTableState" args "ChromaArrayType=0..3,num_ref_idx_l0_active_minus1=0..15,num_ref_idx_l1_active=0..15" {
  require num_ref_idx_l0_active_minus1 < 0xffffffff;
  luma_log2_weight_denom : ue();
  if (ChromaArrayType != 0) delta_chroma_log2_weight_denom : se();
  for (i = 0; i <= num_ref_idx_l0_active_minus1; i++) luma_weight_l0_flag[] : u(1);
  if (ChromaArrayType != 0)
    for (i = 0; i <= num_ref_idx_l0_active_minus1; i++) chroma_weight_l0_flag[] : u(1);
  for (i = 0; i <= num_ref_idx_l0_active_minus1; i++) {
    inv ChromaArrayType != 0 || (len(delta_chroma_weight_l0) == 0 && len(delta_chroma_offset_l0) == 0);
    if (luma_weight_l0_flag[i]) {
      delta_luma_weight_l0[] : se();
      luma_offset_l0[] : se();
    }
    if (ChromaArrayType != 0 && chroma_weight_l0_flag[i]) {
      delta_chroma_weight_l0[] = inner();
      delta_chroma_offset_l0[] = inner();
      for (j = 0; j < 2; j++) {
        delta_chroma_weight_l0[len(delta_chroma_weight_l0) - 1][] : se();
        delta_chroma_offset_l0[len(delta_chroma_offset_l0) - 1][] : se();
      }
    }
  }
  for (i = 0; i < num_ref_idx_l1_active; i++) luma_weight_l1_flag[] : u(1);
  if (ChromaArrayType != 0)
    for (i = 0; i < num_ref_idx_l1_active; i++) chroma_weight_l1_flag[] : u(1);
  for (i = 0; i < num_ref_idx_l1_active; i++) {
    inv ChromaArrayType != 0 || (len(delta_chroma_weight_l1) == 0 && len(delta_chroma_offset_l1) == 0);
    if (luma_weight_l1_flag[i]) {
      delta_luma_weight_l1[] : se();
      luma_offset_l1[] : se();
    }
    if (ChromaArrayType != 0 && chroma_weight_l1_flag[i]) {
      delta_chroma_weight_l1[] = inner();
      delta_chroma_offset_l1[] = inner();
      for (j = 0; j < 2; j++) {
        delta_chroma_weight_l1[len(delta_chroma_weight_l1) - 1][] : se();
        delta_chroma_offset_l1[len(delta_chroma_offset_l1) - 1][] : se();
      }
    }
  }
  ensure ChromaArrayType != 0 || (len(delta_chroma_weight_l0) == 0 && len(delta_chroma_offset_l0) == 0);
  ensure ChromaArrayType != 0 || (len(delta_chroma_weight_l1) == 0 && len(delta_chroma_offset_l1) == 0);
}
