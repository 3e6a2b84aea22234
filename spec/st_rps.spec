# 7.3.7 and the derivation (7-61), (7-62)
syntax st_ref_pic_set(stRpsIdx: uint, num_short_term_ref_pic_sets: uint, sets: vec "std::vector<std::unique_ptr<h265nal::H265StRefPicSetParser::StRefPicSetState>>*", max_num_pics: uint)
  cpp "h265nal::H265StRefPicSetParser::ParseStRefPicSet(h265nal::BitBuffer*" file "h265_st_ref_pic_set_parser"
  state "h265nal::H265StRefPicSetParser::StRefPicSetState" {
  require wf_each(sets);
  require max_num_pics <= 16;
  require num_short_term_ref_pic_sets > 64 || (stRpsIdx <= len(sets) && stRpsIdx <= num_short_term_ref_pic_sets);
  reject if num_short_term_ref_pic_sets > 64;
  if (stRpsIdx != 0) inter_ref_pic_set_prediction_flag : u(1);
  if (inter_ref_pic_set_prediction_flag) {
    if (stRpsIdx == num_short_term_ref_pic_sets) delta_idx_minus1 : ue() [0 .. stRpsIdx - 1];
    delta_rps_sign : u(1);
    abs_delta_rps_minus1 : ue() [0 .. 32767];
    let RefRpsIdx = stRpsIdx - (delta_idx_minus1 + 1);
    let ref = sets[RefRpsIdx];
    let NumDeltaPocs = ref.num_negative_pics + ref.num_positive_pics;
    reject if NumDeltaPocs >= 16;
    for (j = 0; j <= NumDeltaPocs; j++) {
      used_by_curr_pic_flag[] : u(1);
      if (!used_by_curr_pic_flag[j]) use_delta_flag[] : u(1);
      else use_delta_flag[] = 1;
    }
    let deltaRps = (1 - 2 * delta_rps_sign) * (abs_delta_rps_minus1 + 1);
    let refS0 = local(-4, 16, 0);
    let refS1 = local(-4, 16, 0);
    let dS0 = local(-4, 16, 0);
    let dS1 = local(-4, 16, 0);
    let uS0 = local(1, 16, 0);
    let uS1 = local(1, 16, 0);
    let dPoc = 0;
    for (i = 0; i < ref.num_negative_pics; i++) {
      reject if i >= 16;
      dPoc = s32(dPoc - s32(ref.delta_poc_s0_minus1[i]) - 1);
      refS0[i] = dPoc;
    }
    dPoc = 0;
    for (i = 0; i < ref.num_positive_pics; i++) {
      reject if i >= 16;
      dPoc = s32(dPoc + s32(ref.delta_poc_s1_minus1[i]) + 1);
      refS1[i] = dPoc;
    }
    # (7-61)
    let i = 0;
    for (j = ref.num_positive_pics - 1; j >= 0; j = j - 1) {
      inv i >= 0 && i <= 16 && j >= 0 - 1 && j < ref.num_positive_pics;
      dPoc = s32(refS1[j] + deltaRps);
      if (dPoc < 0 && use_delta_flag[ref.num_negative_pics + j]) {
        reject if i >= 16;
        dS0[i] = dPoc;
        uS0[i] = used_by_curr_pic_flag[ref.num_negative_pics + j];
        i = i + 1;
      }
    }
    if (deltaRps < 0 && use_delta_flag[NumDeltaPocs]) {
      reject if i >= 16;
      dS0[i] = deltaRps;
      uS0[i] = used_by_curr_pic_flag[NumDeltaPocs];
      i = i + 1;
    }
    for (j = 0; j < ref.num_negative_pics; j++) {
      inv i >= 0 && i <= 16 && j >= 0 && j <= ref.num_negative_pics;
      dPoc = s32(refS0[j] + deltaRps);
      if (dPoc < 0 && use_delta_flag[j]) {
        reject if i >= 16;
        dS0[i] = dPoc;
        uS0[i] = used_by_curr_pic_flag[j];
        i = i + 1;
      }
    }
    num_negative_pics = i;
    for (i = 0; i < num_negative_pics; i++) {
      delta_poc_s0_minus1[] = u32((i == 0 ? 0 : dS0[i - 1]) - dS0[i] - 1);
      used_by_curr_pic_s0_flag[] = uS0[i];
    }
    # (7-62)
    i = 0;
    for (j = ref.num_negative_pics - 1; j >= 0; j = j - 1) {
      inv i >= 0 && i <= 16 && j >= 0 - 1 && j < ref.num_negative_pics;
      dPoc = s32(refS0[j] + deltaRps);
      if (dPoc > 0 && use_delta_flag[j]) {
        reject if i >= 16;
        dS1[i] = dPoc;
        uS1[i] = used_by_curr_pic_flag[j];
        i = i + 1;
      }
    }
    if (deltaRps > 0 && use_delta_flag[NumDeltaPocs]) {
      reject if i >= 16;
      dS1[i] = deltaRps;
      uS1[i] = used_by_curr_pic_flag[NumDeltaPocs];
      i = i + 1;
    }
    for (j = 0; j < ref.num_positive_pics; j++) {
      inv i >= 0 && i <= 16 && j >= 0 && j <= ref.num_positive_pics;
      dPoc = s32(refS1[j] + deltaRps);
      if (dPoc > 0 && use_delta_flag[ref.num_negative_pics + j]) {
        reject if i >= 16;
        dS1[i] = dPoc;
        uS1[i] = used_by_curr_pic_flag[ref.num_negative_pics + j];
        i = i + 1;
      }
    }
    num_positive_pics = i;
    for (i = 0; i < num_positive_pics; i++) {
      delta_poc_s1_minus1[] = u32(dS1[i] - (i == 0 ? 0 : dS1[i - 1]) - 1);
      used_by_curr_pic_s1_flag[] = uS1[i];
    }
  } else {
    num_negative_pics : ue() [0 .. max_num_pics];
    num_positive_pics : ue() [0 .. max_num_pics - num_negative_pics];
    for (i = 0; i < num_negative_pics; i++) {
      delta_poc_s0_minus1[] : ue() [0 .. 32767];
      used_by_curr_pic_s0_flag[] : u(1);
    }
    for (i = 0; i < num_positive_pics; i++) {
      delta_poc_s1_minus1[] : ue() [0 .. 32767];
      used_by_curr_pic_s1_flag[] : u(1);
    }
  }
  ensure num_negative_pics <= 16;
  ensure num_positive_pics <= 16;
  ensure len(delta_poc_s0_minus1) == num_negative_pics;
  ensure len(used_by_curr_pic_s0_flag) == num_negative_pics;
  ensure len(delta_poc_s1_minus1) == num_positive_pics;
  ensure len(used_by_curr_pic_s1_flag) == num_positive_pics;
}
