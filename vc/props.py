"""Which functions decide which property."""
PROPS = {
 "P08": dict(fns=["nal_unit_header"], driver=True),
 "P09": dict(fns=["nal_unit_payload"]),
 "P11": dict(fns=["nal_unit", "nal_unit_header", "nal_unit_payload"]),
 "P12": dict(fns=["vps"]),
 "P13": dict(fns=["sps"], bounded={"sps": 500}),
 "P14": dict(fns=["pps"], bounded={"pps": 500}),
 "P15": dict(fns=["slice_segment_header", "slice_segment_layer"], bounded={"slice_segment_header": 500}, tasks=[("lemmas", "lemmas", "run", [])], deadline=700),
 "P16": dict(fns=["sei", "sei_alpha_channel_info", "sei_alternative_transfer_characteristics", "sei_ambient_viewing_environment", "sei_colour_remapping_info", "sei_content_colour_volume", "sei_content_light_level_info", "sei_knee_function_info", "sei_mastering_display_colour_volume", "sei_unknown", "sei_user_data_registered_itu_t_t35", "sei_user_data_unregistered"]),
 "P17": dict(fns=["vui_parameters"]),
 "P18": dict(fns=["hrd_parameters", "sub_layer_hrd_parameters"]),
 "P19": dict(fns=["profile_info", "profile_tier_level"]),
 "P20": dict(fns=["st_ref_pic_set"], bounded={"st_ref_pic_set": 2500}, not_judged={"st_ref_pic_set": ("overflow",)}, deadline=720,
             assumptions=["the signed 32-bit sums of POC differences in StRefPicSetState::DeriveValues are evaluated modulo 2^32 (as in the contract); that they do not overflow is only looked for by UBSan in the bounded runs"]),
 "P21": dict(fns=["scaling_list_data"]),
 "P22": dict(fns=["pred_weight_table"]),
 "P23": dict(fns=["sps_range_extension", "sps_multilayer_extension", "sps_3d_extension", "sps_scc_extension"]),
 "P24": dict(fns=["pps_multilayer_extension", "pps_scc_extension"]),
 "P27": dict(fns=["GetProfileType"], bounded={"GetProfileType": 3000}, driver=True, tasks=[("names:profileTypeToString", "namesvc", "task", [["profileTypeToString"]]), ("profile_names", "ops", "profile_names", [])]),
 "P28": dict(fns=["rtp_single"]),
 "P29": dict(fns=["rtp_ap"]),
 "P30": dict(fns=["rtp", "rtp_fu"]),
}

GEO = ["getMinCbLog2SizeY", "getCtbLog2SizeY", "getMinCbSizeY", "getCtbSizeY", "getPicWidthInMinCbsY", "getPicHeightInMinCbsY", "getPicWidthInCtbsY", "getPicHeightInCtbsY", "getPicSizeInMinCbsY",
       "getPicSizeInCtbsY", "getPicSizeInSamplesY", "getSubWidthC", "getSubHeightC", "getResolution"]
SYN = ["aud", "hvcc", "hrd_parameters", "nal_unit", "nal_unit_header", "nal_unit_payload", "pps", "pps_multilayer_extension", "pps_scc_extension", "pred_weight_table", "profile_info", "profile_tier_level",
       "rtp", "rtp_ap", "rtp_fu", "rtp_single", "scaling_list_data", "slice_segment_header", "slice_segment_layer", "sps", "sps_3d_extension", "sps_multilayer_extension", "sps_range_extension",
       "sps_scc_extension", "st_ref_pic_set", "sub_layer_hrd_parameters", "vps", "vui_parameters"] + PROPS["P16"]["fns"]
def T(*names): return [(n, "ops", n, []) for n in names]
def chunks(l, n): return [l[i::n] for i in range(n)]
import ops_names
def B(p):
    import bytesvc
    return [("bytes:" + g[0], "bytesvc", "task", [g]) for g in bytesvc.GROUPS[p]]
PRINTING = [["sps"], ["slice_segment_header"], ["pps_multilayer_extension"], ["hrd_parameters"], ["scaling_list_data"], ["pps", "nal_unit", "rtp_ap", "pred_weight_table"], ["hvcc", "nal_unit_payload"], ["vui_parameters", "vps"],
            ["aud", "nal_unit_header", "profile_info", "profile_tier_level", "rtp", "rtp_single", "rtp_fu", "slice_segment_layer", "sps_3d_extension", "sps_multilayer_extension", "sps_range_extension", "sps_scc_extension",
             "st_ref_pic_set", "sub_layer_hrd_parameters", "pps_scc_extension"], PROPS["P16"]["fns"]]
assert sorted(sum(PRINTING, [])) == sorted(SYN)
PROPS.update({
 "P01": dict(fns=[], tasks=B("P01") + T("bit_reads"), driver=True),
 "P02": dict(fns=[], tasks=B("P02") + T("golomb"), driver=True),
 "P03": dict(fns=[], tasks=B("P03") + T("bit_writes"), driver=True),
 "P04": dict(fns=[], tasks=B("P04") + T("unescape"), driver=True),
 "P05": dict(fns=[], tasks=B("P05") + T("split_annexb", "streams"), driver=True),
 "P06": dict(fns=[], tasks=B("P06") + T("length_framing"), driver=True),
 "P10": dict(fns=["nal_unit_payload"], tasks=B("P10") + T("lookup", "streams"), driver=True),
 "P25": dict(fns=["aud"], tasks=B("P25") + T("payload_end"), driver=True),
 "P26": dict(fns=GEO + ["slice_segment_header"], tasks=[], driver=True),
 "P31": dict(fns=["hvcc"], tasks=T("hvcc"), driver=True),
 "P32": dict(fns=[], tasks=B("P32") + T("checksum"), driver=True),
 "P33": dict(fns=[], tasks=B("P33") + T("streams", "rtp_qp"), driver=True),
 "P34": dict(fns=["IsSliceSegment", "IsNalUnitTypeVcl", "IsNalUnitTypeNonVcl", "IsNalUnitTypeUnspecified"], tasks=[("names:NalUnitTypeToString", "namesvc", "task", [["NalUnitTypeToString"]])] + T("classes"), driver=True),
 "P35": dict(fns=SYN, not_judged={"st_ref_pic_set": ("overflow",)}, bounded={"st_ref_pic_set": 1500}, tasks=[("termination", "variant", "task", [])] + B("P33") + B("P11") + B("P08") + T("fuzz", "bit_reads", "bit_writes", "unescape", "split_annexb", "length_framing", "payload_end", "checksum", "streams", "rtp_qp", "hvcc"), driver=True, safety=True, ub=True, deadline=600),
 "P36": dict(fns=[], tasks=[("printing:" + g[0], "printvc", "task", [g]) for g in PRINTING] + [("prints%d" % i, "ops", "prints", [c]) for i, c in enumerate(chunks(ops_names.PRINTED, 6))] + T("print_streams"), driver=True,
             assumptions=["the object printed is one its parser returned: it satisfies the parser's contract (proved under P08 to P31)", "fdump_indent_level prints only white space; NaluChecksum::fdump writes a terminated text; std::string is printed as it is",
                          "lists of lists: that every inner element is printed, and in order, is only looked at by the exploration"]),
})
PROPS["P08"]["tasks"] = B("P08") + T("header_type")
PROPS["P11"]["tasks"] = B("P11") + T("streams")
PROPS["P20"]["bounded"]["st_ref_pic_set"] = 2500
for _p in ("P08", "P09", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P28", "P29", "P30"):
    PROPS[_p]["tasks"] = [("entries", "bytesmore", "entry_task", [PROPS[_p]["fns"]])] + list(PROPS[_p].get("tasks", []))
PROPS["P31"]["tasks"] = [("entries", "bytesmore", "entry_task", [["hvcc"]])] + PROPS["P31"]["tasks"]
PROPS["P04"]["tasks"] = PROPS["P04"]["tasks"] + [("entries", "bytesmore", "entry_task", [["nal_unit", "sps", "pps", "vps"]])]
TECH = "contract-based deductive verification: each function's LLVM IR (regenerated from the current source) is executed symbolically against its contract (7.3.x syntax tables as pre/postconditions, inferred loop invariants) and z3 discharges every obligation; concrete replay on the real code"
SOFT = {}
TRUSTED = ["vc/*.py (verification-condition generator written for this task: LLVM IR semantics, models of std::vector/unique_ptr/shared_ptr/map, loop rule)",
           "clang 18 front end: the verified text is the LLVM IR it emits at -O0 + mem2reg from /repo's sources with the repository's defines",
           "z3", "the contracts of the bit reader, proved under P01, P02 and P25, are used by the other properties' proofs"]
ASSUMPTIONS = ["allocation succeeds (operator new does not throw)",
               "a bit buffer holds fewer than 2^29 bytes",
               "objects passed by pointer do not alias the object under construction",
               "IR add/sub/mul nsw are evaluated as wrapping; signed overflow is looked for by the UBSan cross-check runs",
               "calls of the standard library return (every loop of the functions under contract has a proved variant)",
               "printing to stderr (FPRINT_ERRORS) has no effect on results"]
SAMPLE = "see coverage.bounded_stand_in.per_function"
