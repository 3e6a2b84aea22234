"""Names shared by props.py and ops.py."""
PRINTED = ("vps sps pps slice_segment_header slice_segment_layer sei aud nal_unit_header nal_unit_payload nal_unit vui_parameters hrd_parameters sub_layer_hrd_parameters profile_tier_level "
           "profile_info st_ref_pic_set scaling_list_data pred_weight_table sps_range_extension sps_multilayer_extension sps_3d_extension sps_scc_extension pps_multilayer_extension pps_scc_extension "
           "rtp rtp_single rtp_ap rtp_fu").split()
