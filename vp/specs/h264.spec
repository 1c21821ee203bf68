# Contracts of the parsing functions, written from the syntax tables of
# ITU-T H.264 (7.3, E.1, G.7.3) plus the range limits h264nal documents.

kMaxMbWidth = 1055
kMaxMbHeight = 1055
kMaxWidth = 16880
kMaxHeight = 16880
kMaxMbPicSize = 139264

@impl("H264HrdParametersParser::ParseHrdParameters(BitBuffer*)", "H264HrdParametersParser::HrdParametersState")
def hrd_parameters():
    ue(cpb_cnt_minus1, 0, 31)
    u(4, bit_rate_scale)
    u(4, cpb_size_scale)
    for SchedSelIdx in range(cpb_cnt_minus1 + 1):
        append(bit_rate_value_minus1, ue())
        append(cpb_size_value_minus1, ue())
        append(cbr_flag, u(1))
    u(5, initial_cpb_removal_delay_length_minus1)
    u(5, cpb_removal_delay_length_minus1)
    u(5, dpb_output_delay_length_minus1)
    u(5, time_offset_length)


@impl("H264VuiParametersParser::ParseVuiParameters(BitBuffer*)", "H264VuiParametersParser::VuiParametersState")
def vui_parameters():
    u(1, aspect_ratio_info_present_flag)
    if aspect_ratio_info_present_flag:
        u(8, aspect_ratio_idc)
        if aspect_ratio_idc == 255:
            u(16, sar_width)
            u(16, sar_height)
    u(1, overscan_info_present_flag)
    if overscan_info_present_flag:
        u(1, overscan_appropriate_flag)
    u(1, video_signal_type_present_flag)
    if video_signal_type_present_flag:
        u(3, video_format)
        u(1, video_full_range_flag)
        u(1, colour_description_present_flag)
        if colour_description_present_flag:
            u(8, colour_primaries)
            u(8, transfer_characteristics)
            u(8, matrix_coefficients)
    u(1, chroma_loc_info_present_flag)
    if chroma_loc_info_present_flag:
        ue(chroma_sample_loc_type_top_field, 0, 5)
        ue(chroma_sample_loc_type_bottom_field, 0, 5)
    u(1, timing_info_present_flag)
    if timing_info_present_flag:
        u(32, num_units_in_tick)
        fail_if(num_units_in_tick == 0)
        u(32, time_scale)
        fail_if(time_scale == 0)
        u(1, fixed_frame_rate_flag)
    u(1, nal_hrd_parameters_present_flag)
    if nal_hrd_parameters_present_flag:
        nal_hrd_parameters = hrd_parameters()
    u(1, vcl_hrd_parameters_present_flag)
    if vcl_hrd_parameters_present_flag:
        vcl_hrd_parameters = hrd_parameters()
    if nal_hrd_parameters_present_flag or vcl_hrd_parameters_present_flag:
        u(1, low_delay_hrd_flag)
    u(1, pic_struct_present_flag)
    u(1, bitstream_restriction_flag)
    if bitstream_restriction_flag:
        u(1, motion_vectors_over_pic_boundaries_flag)
        ue(max_bytes_per_pic_denom, 0, 16)
        ue(max_bits_per_mb_denom, 0, 16)
        ue(log2_max_mv_length_horizontal, 0, 16)
        ue(log2_max_mv_length_vertical, 0, 16)
        ue(max_num_reorder_frames, 0, 16)
        ue(max_dec_frame_buffering, 0, 16)


# 7.3.2.1.1.1; one list object per transform size, as h264nal stores them
@macro
def scaling_list(idx, scalingList, size, useDefault):
    lastScale = 8
    nextScale = 8
    for j in range(size):
        if nextScale != 0:
            se(delta_scale, -128, 127)
            nextScale = (lastScale + delta_scale + 256) % 256
            grow(useDefault, idx + 1)
            useDefault[idx] = b2i(j == 0 and nextScale == 0)
        grow(scalingList, j + 1)
        scalingList[j] = lastScale if nextScale == 0 else nextScale
        lastScale = scalingList[j]

SubWidthC = lambda chroma_format_idc, sep: (2 if (chroma_format_idc == 1 or chroma_format_idc == 2) else 1)
SubHeightC = lambda chroma_format_idc, sep: (2 if chroma_format_idc == 1 else 1)
CropUnitX = lambda cfi, sep: (1 if (cfi == 0 or sep == 1) else SubWidthC(cfi, sep))
CropUnitY = lambda cfi, sep, fmo: ((1 if (cfi == 0 or sep == 1) else SubHeightC(cfi, sep)) * (2 - fmo))

profile_of = lambda idc, c1, c3, c4, c5: (
    (2 if c1 == 1 else 1) if idc == 66 else
    3 if idc == 77 else
    4 if idc == 88 else
    (6 if c4 == 1 else 7 if c5 == 1 else 5) if idc == 100 else
    (10 if c3 == 1 else 9 if c4 == 1 else 8) if idc == 110 else
    (12 if c3 == 1 else 11) if idc == 122 else
    (14 if c3 == 1 else 13) if idc == 144 else
    (16 if c3 == 1 else 15) if idc == 244 else
    17 if idc == 44 else 0)


@impl("H264SpsDataParser::ParseSpsData(BitBuffer*)", "H264SpsDataParser::SpsDataState")
def sps_data():
    chroma_format_idc = 1
    u(8, profile_idc)
    u(1, constraint_set0_flag)
    u(1, constraint_set1_flag)
    u(1, constraint_set2_flag)
    u(1, constraint_set3_flag)
    u(1, constraint_set4_flag)
    u(1, constraint_set5_flag)
    u(2, reserved_zero_2bits)
    profile_type = profile_of(profile_idc, constraint_set1_flag, constraint_set3_flag, constraint_set4_flag, constraint_set5_flag)
    u(8, level_idc)
    ue(seq_parameter_set_id, 0, 31)
    if profile_idc in (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135):
        ue(chroma_format_idc, 0, 3)
        if chroma_format_idc == 3:
            u(1, separate_colour_plane_flag)
        ue(bit_depth_luma_minus8, 0, 6)
        ue(bit_depth_chroma_minus8, 0, 6)
        u(1, qpprime_y_zero_transform_bypass_flag)
        u(1, seq_scaling_matrix_present_flag)
        if seq_scaling_matrix_present_flag:
            for i in range(8 if chroma_format_idc != 3 else 12):
                flag = u(1)
                append(seq_scaling_list_present_flag, flag)
                if flag:
                    if i < 6:
                        scaling_list(i, ScalingList4x4, 16, UseDefaultScalingMatrix4x4Flag)
                    else:
                        scaling_list(i - 6, ScalingList8x8, 64, UseDefaultScalingMatrix8x8Flag)
    ue(log2_max_frame_num_minus4, 0, 12)
    ue(pic_order_cnt_type, 0, 2)
    if pic_order_cnt_type == 0:
        ue(log2_max_pic_order_cnt_lsb_minus4, 0, 12)
    elif pic_order_cnt_type == 1:
        u(1, delta_pic_order_always_zero_flag)
        se(offset_for_non_ref_pic)
        se(offset_for_top_to_bottom_field)
        ue(num_ref_frames_in_pic_order_cnt_cycle, 0, 255)
        for i in range(num_ref_frames_in_pic_order_cnt_cycle):
            append(offset_for_ref_frame, se())
    ue(max_num_ref_frames, 0, 16)
    u(1, gaps_in_frame_num_value_allowed_flag)
    ue(pic_width_in_mbs_minus1, 0, kMaxMbWidth)
    ue(pic_height_in_map_units_minus1, 0, kMaxMbHeight)
    u(1, frame_mbs_only_flag)
    if not frame_mbs_only_flag:
        u(1, mb_adaptive_frame_field_flag)
    u(1, direct_8x8_inference_flag)
    u(1, frame_cropping_flag)
    if frame_cropping_flag:
        ue(frame_crop_left_offset, 0, kMaxWidth)
        ue(frame_crop_right_offset, 0, kMaxWidth)
        ue(frame_crop_top_offset, 0, kMaxHeight)
        ue(frame_crop_bottom_offset, 0, kMaxHeight)
        fail_if(CropUnitX(chroma_format_idc, separate_colour_plane_flag) * (frame_crop_left_offset + frame_crop_right_offset)
                >= 16 * (pic_width_in_mbs_minus1 + 1))
        fail_if(CropUnitY(chroma_format_idc, separate_colour_plane_flag, frame_mbs_only_flag) * (frame_crop_top_offset + frame_crop_bottom_offset)
                >= 16 * (2 - frame_mbs_only_flag) * (pic_height_in_map_units_minus1 + 1))
    u(1, vui_parameters_present_flag)
    if vui_parameters_present_flag:
        vui_parameters = vui_parameters()


@impl("H264SpsParser::ParseSps(BitBuffer*)", "H264SpsParser::SpsState")
def sps():
    sps_data = sps_data()
    rbsp_trailing_bits()


@impl("H264PpsParser::ParsePps(BitBuffer*, unsigned int)", "H264PpsParser::PpsState")
def pps(chroma_format_idc: u32):
    ue(pic_parameter_set_id, 0, 255)
    ue(seq_parameter_set_id, 0, 31)
    u(1, entropy_coding_mode_flag)
    u(1, bottom_field_pic_order_in_frame_present_flag)
    ue(num_slice_groups_minus1, 0, 7)
    if num_slice_groups_minus1 > 0:
        ue(slice_group_map_type, 0, 6)
        if slice_group_map_type == 0:
            for iGroup in range(num_slice_groups_minus1 + 1):
                append(run_length_minus1, ue())
        elif slice_group_map_type == 2:
            for iGroup in range(num_slice_groups_minus1):
                append(top_left, ue())
                append(bottom_right, ue())
        elif slice_group_map_type in (3, 4, 5):
            u(1, slice_group_change_direction_flag)
            ue(slice_group_change_rate_minus1)
        elif slice_group_map_type == 6:
            ue(pic_size_in_map_units_minus1, 0, kMaxMbPicSize - 1)
            for i in range(pic_size_in_map_units_minus1 + 1):
                append(slice_group_id, u(clog2(num_slice_groups_minus1 + 1)))
    ue(num_ref_idx_l0_default_active_minus1, 0, 31)
    ue(num_ref_idx_l1_default_active_minus1, 0, 31)
    u(1, weighted_pred_flag)
    u(2, weighted_bipred_idc)
    se(pic_init_qp_minus26)
    se(pic_init_qs_minus26)
    se(chroma_qp_index_offset)
    u(1, deblocking_filter_control_present_flag)
    u(1, constrained_intra_pred_flag)
    u(1, redundant_pic_cnt_present_flag)
    if more_rbsp_data():
        u(1, transform_8x8_mode_flag)
        u(1, pic_scaling_matrix_present_flag)
        if pic_scaling_matrix_present_flag:
            for i in range(6 + (2 if chroma_format_idc != 3 else 6) * transform_8x8_mode_flag):
                flag = u(1)
                append(pic_scaling_list_present_flag, flag)
                if flag:
                    if i < 6:
                        scaling_list(i, ScalingList4x4, 16, UseDefaultScalingMatrix4x4Flag)
                    else:
                        scaling_list(i - 6, ScalingList8x8, 64, UseDefaultScalingMatrix8x8Flag)
        se(second_chroma_qp_index_offset)
    rbsp_trailing_bits()


# ---------------------------------------------------------------- data invariants
# proved on every object its parser returns; assumed of objects reached later
INVARIANTS = {
    "H264SpsParser::SpsState": {"sps_data": {"nonnull": True}},
    "H264SubsetSpsParser::SubsetSpsState": {"seq_parameter_set_data": {"nonnull": True}},
    "H264SpsDataParser::SpsDataState": {
        "seq_parameter_set_id": {"max": 31},
        "chroma_format_idc": {"max": 3},
        "separate_colour_plane_flag": {"max": 1},
        "bit_depth_luma_minus8": {"max": 6},
        "bit_depth_chroma_minus8": {"max": 6},
        "log2_max_frame_num_minus4": {"max": 12},
        "pic_order_cnt_type": {"max": 2},
        "log2_max_pic_order_cnt_lsb_minus4": {"max": 12},
        "pic_width_in_mbs_minus1": {"max": 1055},
        "pic_height_in_map_units_minus1": {"max": 1055},
        "frame_mbs_only_flag": {"max": 1},
        "frame_crop_left_offset": {"max": 16880},
        "frame_crop_right_offset": {"max": 16880},
        "frame_crop_top_offset": {"max": 16880},
        "frame_crop_bottom_offset": {"max": 16880},
    },
    "H264PpsParser::PpsState": {
        "pic_parameter_set_id": {"max": 255},
        "seq_parameter_set_id": {"max": 31},
        "num_slice_groups_minus1": {"max": 7},
        "slice_group_map_type": {"max": 6},
        "slice_group_change_rate_minus1": {"max": 4294967294},
        "num_ref_idx_l0_default_active_minus1": {"max": 31},
        "num_ref_idx_l1_default_active_minus1": {"max": 31},
        "weighted_bipred_idc": {"max": 3},
    },
    "H264SliceHeaderParser::SliceHeaderState": {"slice_type": {"max": 9}, "ref_pic_list_modification": {"nonnull": True}},
    "H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState": {"slice_type": {"max": 9}},
    "H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState": {"slice_header": {"nonnull": True}},
    "H264NalUnitParser::NalUnitState": {"nal_unit_header": {"nonnull": True}, "nal_unit_payload": {"nonnull": True}},
    "H264RtpSingleParser::RtpSingleState": {"nal_unit_header": {"nonnull": True}, "nal_unit_payload": {"nonnull": True}},
    "H264RtpStapAParser::RtpStapAState": {"header": {"nonnull": True}, "nal_unit_sizes": {"lenmax": 4294967295}, "nal_unit_headers": {"elem_nonnull": True}, "nal_unit_payloads": {"elem_nonnull": True}},
    "H264RtpFuAParser::RtpFuAState": {"header": {"nonnull": True}},
    "H264RtpParser::RtpState": {"nal_unit_header": {"nonnull": True}},
    "H264BitstreamParser::BitstreamState": {"nal_units": {"elem_nonnull": True}},
}

# which sub-structures an object that a parser returned has
CONDITIONS = {
    "H264VuiParametersParser::VuiParametersState": [
        "nal_hrd_parameters_present_flag == 0 or nal_hrd_parameters != None",
        "vcl_hrd_parameters_present_flag == 0 or vcl_hrd_parameters != None"],
    "H264SpsDataParser::SpsDataState": ["vui_parameters_present_flag == 0 or vui_parameters != None"],
    "H264SubsetSpsParser::SubsetSpsState": ["not (seq_parameter_set_data.profile_idc in (83, 86)) or seq_parameter_set_svc_extension != None"],
    "H264SliceHeaderParser::SliceHeaderState": [
        "not (weighted_pred_flag and slice_type % 5 in (0, 3) or weighted_bipred_idc == 1 and slice_type % 5 == 1) or pred_weight_table != None",
        "nal_ref_idc == 0 or dec_ref_pic_marking != None"],
    "H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState": [
        "quality_id != 0 or ref_pic_list_modification != None",
        "quality_id != 0 or not (weighted_pred_flag and slice_type % 5 == 0 or weighted_bipred_idc == 1 and slice_type % 5 == 1) or not (no_inter_layer_pred_flag or not base_pred_weight_table_flag) or pred_weight_table != None",
        "quality_id != 0 or nal_ref_idc == 0 or dec_ref_pic_marking != None"],
    "H264SliceLayerExtensionRbspParser::SliceLayerExtensionRbspState": ["svc_extension_flag != 0 or avc_3d_extension_flag != 0 or slice_header != None"],
    "H264RtpStapAParser::RtpStapAState": ["len(nal_unit_headers) == len(nal_unit_sizes)", "len(nal_unit_payloads) == len(nal_unit_sizes)"],
    "H264RtpFuAParser::RtpFuAState": ["s_bit == 0 or nal_unit_payload != None"],
    "H264RtpParser::RtpState": [
        "not (nal_unit_header.nal_unit_type <= 23) or rtp_single != None",
        "nal_unit_header.nal_unit_type != 24 or rtp_stapa != None",
        "nal_unit_header.nal_unit_type != 28 or rtp_fua != None"],
}


@impl("H264SpsExtensionParser::ParseSpsExtension(BitBuffer*)", "H264SpsExtensionParser::SpsExtensionState")
def sps_extension():
    ue(seq_parameter_set_id, 0, 31)
    ue(aux_format_idc)
    if aux_format_idc != 0:
        ue(bit_depth_aux_minus8, 0, 4)
        u(1, alpha_incr_flag)
        u(bit_depth_aux_minus8 + 9, alpha_opaque_value)
        u(bit_depth_aux_minus8 + 9, alpha_transparent_value)
    u(1, additional_extension_flag)
    rbsp_trailing_bits()


@impl("H264SpsSvcExtensionParser::ParseSpsSvcExtension(BitBuffer*, unsigned int)", "H264SpsSvcExtensionParser::SpsSvcExtensionState")
def sps_svc_extension(ChromaArrayType: u32):
    u(1, inter_layer_deblocking_filter_control_present_flag)
    u(2, extended_spatial_scalability_idc)
    if ChromaArrayType == 1 or ChromaArrayType == 2:
        u(1, chroma_phase_x_plus1_flag)
    if ChromaArrayType == 1:
        u(2, chroma_phase_y_plus1)
    if extended_spatial_scalability_idc == 1:
        if ChromaArrayType > 0:
            u(1, seq_ref_layer_chroma_phase_x_plus1_flag)
            u(2, seq_ref_layer_chroma_phase_y_plus1)
        se(seq_scaled_ref_layer_left_offset)
        se(seq_scaled_ref_layer_top_offset)
        se(seq_scaled_ref_layer_right_offset)
        se(seq_scaled_ref_layer_bottom_offset)
    u(1, seq_tcoeff_level_prediction_flag)
    if seq_tcoeff_level_prediction_flag:
        u(1, adaptive_tcoeff_level_prediction_flag)
    u(1, slice_header_restriction_flag)


ChromaArrayTypeOf = lambda sps: (sps.chroma_format_idc if sps.separate_colour_plane_flag == 0 else 0)


# svc/mvc VUI and MVC/MVCD/3D-AVC extension bodies are not parsed by h264nal (known finding)
@impl("H264SubsetSpsParser::ParseSubsetSps(BitBuffer*)", "H264SubsetSpsParser::SubsetSpsState")
def subset_sps():
    seq_parameter_set_data = sps_data()
    if seq_parameter_set_data.profile_idc in (83, 86):
        seq_parameter_set_svc_extension = sps_svc_extension(ChromaArrayTypeOf(seq_parameter_set_data))
        u(1, svc_vui_parameters_present_flag)
    elif seq_parameter_set_data.profile_idc in (118, 128, 134):
        u(1, bit_equal_to_one)
        u(1, mvc_vui_parameters_present_flag)
    elif seq_parameter_set_data.profile_idc in (138, 135, 139):
        u(1, bit_equal_to_one)
    u(1, additional_extension2_flag)
    if additional_extension2_flag == 1:
        while more_rbsp_data():
            u(1, additional_extension2_data_flag)
    rbsp_trailing_bits()


# ---------------------------------------------------------------- slices
@impl("H264RefPicListModificationParser::ParseRefPicListModification(BitBuffer*, unsigned int)", "H264RefPicListModificationParser::RefPicListModificationState")
def ref_pic_list_modification(slice_type: u32):
    if slice_type % 5 != 2 and slice_type % 5 != 4:
        u(1, ref_pic_list_modification_flag_l0)
        if ref_pic_list_modification_flag_l0:
            idc = 0
            while idc != 3:
                idc = ue()
                fail_if(idc > 3)
                append(modification_of_pic_nums_idc, idc)
                if idc == 0 or idc == 1:
                    append(abs_diff_pic_num_minus1, ue())
                elif idc == 2:
                    append(long_term_pic_num, ue())
    if slice_type % 5 == 1:
        u(1, ref_pic_list_modification_flag_l1)
        if ref_pic_list_modification_flag_l1:
            idc = 0
            while idc != 3:
                idc = ue()
                fail_if(idc > 3)
                append(modification_of_pic_nums_idc, idc)
                if idc == 0 or idc == 1:
                    append(abs_diff_pic_num_minus1, ue())
                elif idc == 2:
                    append(long_term_pic_num, ue())


@impl("H264DecRefPicMarkingParser::ParseDecRefPicMarking(BitBuffer*, unsigned int)", "H264DecRefPicMarkingParser::DecRefPicMarkingState")
def dec_ref_pic_marking(IdrPicFlag: u32):
    if IdrPicFlag:
        u(1, no_output_of_prior_pics_flag)
        u(1, long_term_reference_flag)
    else:
        u(1, adaptive_ref_pic_marking_mode_flag)
        if adaptive_ref_pic_marking_mode_flag:
            mmco = 1
            while mmco != 0:
                mmco = ue()
                fail_if(mmco > 6)
                append(memory_management_control_operation, mmco)
                if mmco == 1 or mmco == 3:
                    append(difference_of_pic_nums_minus1, ue())
                if mmco == 2:
                    append(long_term_pic_num, ue())
                if mmco == 3 or mmco == 6:
                    append(long_term_frame_idx, ue())
                if mmco == 4:
                    append(max_long_term_frame_idx_plus1, ue())


@requires("num_ref_idx_l0_active_minus1 <= 31", "num_ref_idx_l1_active_minus1 <= 31")
@impl("H264PredWeightTableParser::ParsePredWeightTable(BitBuffer*, unsigned int, unsigned int, unsigned int, unsigned int)", "H264PredWeightTableParser::PredWeightTableState")
def pred_weight_table(chroma_array_type: u32, slice_type: u32, num_ref_idx_l0_active_minus1: u32, num_ref_idx_l1_active_minus1: u32):
    ue(luma_log2_weight_denom, 0, 7)
    if chroma_array_type != 0:
        ue(chroma_log2_weight_denom, 0, 7)
    for i in range(num_ref_idx_l0_active_minus1 + 1):
        flag = u(1)
        append(luma_weight_l0_flag, flag)
        if flag:
            append(luma_weight_l0, se())
            append(luma_offset_l0, se())
        if chroma_array_type != 0:
            cflag = u(1)
            append(chroma_weight_l0_flag, cflag)
            if cflag:
                append_row(chroma_weight_l0)
                append_row(chroma_offset_l0)
                for j in range(2):
                    append_last(chroma_weight_l0, se())
                    append_last(chroma_offset_l0, se())
    if slice_type in (1, 6):
        for i in range(num_ref_idx_l1_active_minus1 + 1):
            flag = u(1)
            append(luma_weight_l1_flag, flag)
            if flag:
                append(luma_weight_l1, se())
                append(luma_offset_l1, se())
            if chroma_array_type != 0:
                cflag = u(1)
                append(chroma_weight_l1_flag, cflag)
                if cflag:
                    append_row(chroma_weight_l1)
                    append_row(chroma_offset_l1)
                    for j in range(2):
                        append_last(chroma_weight_l1, se())
                        append_last(chroma_offset_l1, se())


PicSizeInMapUnitsOf = lambda sps: ((sps.pic_width_in_mbs_minus1 + 1) * (sps.pic_height_in_map_units_minus1 + 1))


@impl("H264SliceHeaderParser::ParseSliceHeader(BitBuffer*, unsigned int, unsigned int, H264BitstreamParserState*)", "H264SliceHeaderParser::SliceHeaderState")
def slice_header(nal_ref_idc: u32, nal_unit_type: u32, state: "H264BitstreamParserState"):
    ue(first_mb_in_slice, 0, kMaxMbPicSize - 1)
    ue(slice_type, 0, 9)
    ue(pic_parameter_set_id, 0, 255)
    fail_if(pic_parameter_set_id not in state.pps)
    pps = state.pps[pic_parameter_set_id]
    fail_if(pps.seq_parameter_set_id not in state.sps)
    sps = state.sps[pps.seq_parameter_set_id].sps_data
    separate_colour_plane_flag = sps.separate_colour_plane_flag
    if separate_colour_plane_flag == 1:
        u(2, colour_plane_id)
    log2_max_frame_num_minus4 = sps.log2_max_frame_num_minus4
    u(log2_max_frame_num_minus4 + 4, frame_num)
    frame_mbs_only_flag = sps.frame_mbs_only_flag
    if not frame_mbs_only_flag:
        u(1, field_pic_flag)
        if field_pic_flag:
            u(1, bottom_field_flag)
    if nal_unit_type == 5:
        ue(idr_pic_id, 0, 65535)
    pic_order_cnt_type = sps.pic_order_cnt_type
    bottom_field_pic_order_in_frame_present_flag = pps.bottom_field_pic_order_in_frame_present_flag
    if pic_order_cnt_type == 0:
        u(sps.log2_max_pic_order_cnt_lsb_minus4 + 4, pic_order_cnt_lsb)
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            se(delta_pic_order_cnt_bottom)
    delta_pic_order_always_zero_flag = sps.delta_pic_order_always_zero_flag
    if pic_order_cnt_type == 1 and not delta_pic_order_always_zero_flag:
        append(delta_pic_order_cnt, se())
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            append(delta_pic_order_cnt, se())
    redundant_pic_cnt_present_flag = pps.redundant_pic_cnt_present_flag
    if redundant_pic_cnt_present_flag:
        ue(redundant_pic_cnt, 0, 127)
    if slice_type in (1, 6):
        u(1, direct_spatial_mv_pred_flag)
    if slice_type in (0, 5, 3, 8, 1, 6):
        u(1, num_ref_idx_active_override_flag)
        if num_ref_idx_active_override_flag:
            ue(num_ref_idx_l0_active_minus1, 0, 31)
            if slice_type in (1, 6):
                ue(num_ref_idx_l1_active_minus1, 0, 31)
        else:
            num_ref_idx_l0_active_minus1 = pps.num_ref_idx_l0_default_active_minus1
            num_ref_idx_l1_active_minus1 = pps.num_ref_idx_l1_default_active_minus1
    if nal_unit_type == 20 or nal_unit_type == 21:
        unimplemented()
        fail()
    ref_pic_list_modification = ref_pic_list_modification(slice_type)
    weighted_pred_flag = pps.weighted_pred_flag
    weighted_bipred_idc = pps.weighted_bipred_idc
    if (weighted_pred_flag and slice_type in (0, 5, 3, 8)) or (weighted_bipred_idc == 1 and slice_type in (1, 6)):
        pred_weight_table = pred_weight_table(ChromaArrayTypeOf(sps), slice_type, num_ref_idx_l0_active_minus1, num_ref_idx_l1_active_minus1)
    if nal_ref_idc != 0:
        dec_ref_pic_marking = dec_ref_pic_marking(b2i(nal_unit_type == 5))
    entropy_coding_mode_flag = pps.entropy_coding_mode_flag
    if entropy_coding_mode_flag and slice_type not in (2, 7, 4, 9):
        ue(cabac_init_idc, 0, 2)
    se(slice_qp_delta)
    fail_if(slice_qp_delta < -(51 + 6 * sps.bit_depth_luma_minus8) or slice_qp_delta > 51 + 6 * sps.bit_depth_luma_minus8)
    if slice_type in (3, 8, 4, 9):
        if slice_type in (3, 8):
            u(1, sp_for_switch_flag)
        se(slice_qs_delta)
    deblocking_filter_control_present_flag = pps.deblocking_filter_control_present_flag
    if deblocking_filter_control_present_flag:
        ue(disable_deblocking_filter_idc, 0, 2)
        if disable_deblocking_filter_idc != 1:
            se(slice_alpha_c0_offset_div2)
            se(slice_beta_offset_div2)
    num_slice_groups_minus1 = pps.num_slice_groups_minus1
    slice_group_map_type = pps.slice_group_map_type
    if num_slice_groups_minus1 > 0 and slice_group_map_type >= 3 and slice_group_map_type <= 5:
        pic_width_in_mbs_minus1 = sps.pic_width_in_mbs_minus1
        pic_height_in_map_units_minus1 = sps.pic_height_in_map_units_minus1
        slice_group_change_rate_minus1 = pps.slice_group_change_rate_minus1
        u(clog2(PicSizeInMapUnitsOf(sps) + slice_group_change_rate_minus1 + 1, slice_group_change_rate_minus1 + 1), slice_group_change_cycle)


@impl("H264NalUnitHeaderSvcExtensionParser::ParseNalUnitHeaderSvcExtension(BitBuffer*)", "H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState")
def nal_unit_header_svc_extension():
    u(1, idr_flag)
    u(6, priority_id)
    u(1, no_inter_layer_pred_flag)
    u(3, dependency_id)
    u(4, quality_id)
    u(3, temporal_id)
    u(1, use_ref_base_pic_flag)
    u(1, discardable_flag)
    u(1, output_flag)
    u(2, reserved_three_2bits)


@impl("H264NalUnitHeaderParser::ParseNalUnitHeader(BitBuffer*)", "H264NalUnitHeaderParser::NalUnitHeaderState")
def nal_unit_header():
    u(1, forbidden_zero_bit)
    u(2, nal_ref_idc)
    u(5, nal_unit_type)
    if nal_unit_type in (14, 20, 21):
        if nal_unit_type != 21:
            u(1, svc_extension_flag)
        else:
            u(1, avc_3d_extension_flag)
        if svc_extension_flag:
            nal_unit_header_svc_extension = nal_unit_header_svc_extension()
        else:
            unimplemented()
            fail()


# the header is read from the bytes as they are; failure leaves the output alone
@nodrive
@impl("H264NalUnitHeaderParser::GetNalUnitType(unsigned char const*, unsigned long, NalUnitType&)")
def nal_unit_type(naluType: out8):
    bitbuffer(data)
    header = maybe(nal_unit_header())
    if header == None:
        return 0
    naluType = header.nal_unit_type
    return 1


@impl("H264SliceHeaderInScalableExtensionParser::ParseSliceHeaderInScalableExtension(BitBuffer*, H264NalUnitHeaderParser::NalUnitHeaderState&, H264BitstreamParserState*)", "H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState")
def slice_header_in_scalable_extension(nal_unit_header: "H264NalUnitHeaderParser::NalUnitHeaderState", state: "H264BitstreamParserState"):
    nal_ref_idc = nal_unit_header.nal_ref_idc
    nal_unit_type = nal_unit_header.nal_unit_type
    ue(first_mb_in_slice, 0, kMaxMbPicSize - 1)
    ue(slice_type, 0, 9)
    ue(pic_parameter_set_id, 0, 255)
    fail_if(pic_parameter_set_id not in state.pps)
    pps = state.pps[pic_parameter_set_id]
    fail_if(pps.seq_parameter_set_id not in state.subset_sps)
    ssps = state.subset_sps[pps.seq_parameter_set_id]
    sps = ssps.seq_parameter_set_data
    fail_if(ssps.seq_parameter_set_svc_extension == None)
    svc = ssps.seq_parameter_set_svc_extension
    separate_colour_plane_flag = sps.separate_colour_plane_flag
    if separate_colour_plane_flag == 1:
        u(2, colour_plane_id)
    log2_max_frame_num_minus4 = sps.log2_max_frame_num_minus4
    u(log2_max_frame_num_minus4 + 4, frame_num)
    frame_mbs_only_flag = sps.frame_mbs_only_flag
    if not frame_mbs_only_flag:
        u(1, field_pic_flag)
        if field_pic_flag:
            u(1, bottom_field_flag)
    fail_if(nal_unit_header.nal_unit_header_svc_extension == None)
    hsvc = nal_unit_header.nal_unit_header_svc_extension
    idr_flag = hsvc.idr_flag
    if idr_flag:
        ue(idr_pic_id, 0, 65535)
    pic_order_cnt_type = sps.pic_order_cnt_type
    bottom_field_pic_order_in_frame_present_flag = pps.bottom_field_pic_order_in_frame_present_flag
    if pic_order_cnt_type == 0:
        u(sps.log2_max_pic_order_cnt_lsb_minus4 + 4, pic_order_cnt_lsb)
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            se(delta_pic_order_cnt_bottom)
    delta_pic_order_always_zero_flag = sps.delta_pic_order_always_zero_flag
    if pic_order_cnt_type == 1 and not delta_pic_order_always_zero_flag:
        append(delta_pic_order_cnt, se())
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            append(delta_pic_order_cnt, se())
    redundant_pic_cnt_present_flag = pps.redundant_pic_cnt_present_flag
    if redundant_pic_cnt_present_flag:
        ue(redundant_pic_cnt, 0, 127)
    quality_id = hsvc.quality_id
    no_inter_layer_pred_flag = hsvc.no_inter_layer_pred_flag
    slice_header_restriction_flag = svc.slice_header_restriction_flag
    if quality_id == 0:
        if slice_type in (1, 6):
            u(1, direct_spatial_mv_pred_flag)
        if slice_type in (0, 5, 1, 6):
            u(1, num_ref_idx_active_override_flag)
            if num_ref_idx_active_override_flag:
                ue(num_ref_idx_l0_active_minus1, 0, 31)
                if slice_type in (1, 6):
                    ue(num_ref_idx_l1_active_minus1, 0, 31)
            else:
                num_ref_idx_l0_active_minus1 = pps.num_ref_idx_l0_default_active_minus1
                num_ref_idx_l1_active_minus1 = pps.num_ref_idx_l1_default_active_minus1
        ref_pic_list_modification = ref_pic_list_modification(slice_type)
        weighted_pred_flag = pps.weighted_pred_flag
        weighted_bipred_idc = pps.weighted_bipred_idc
        if (weighted_pred_flag and slice_type in (0, 5)) or (weighted_bipred_idc == 1 and slice_type in (1, 6)):
            if not no_inter_layer_pred_flag:
                u(1, base_pred_weight_table_flag)
            if no_inter_layer_pred_flag or not base_pred_weight_table_flag:
                ChromaArrayType = ChromaArrayTypeOf(sps)
                pred_weight_table = pred_weight_table(ChromaArrayType, slice_type, num_ref_idx_l0_active_minus1, num_ref_idx_l1_active_minus1)
        if nal_ref_idc != 0:
            dec_ref_pic_marking = dec_ref_pic_marking(idr_flag)
            if not slice_header_restriction_flag:
                u(1, store_ref_base_pic_flag)
                use_ref_base_pic_flag = hsvc.use_ref_base_pic_flag
                if (use_ref_base_pic_flag or store_ref_base_pic_flag) and not idr_flag:
                    unimplemented()
                    fail()
    entropy_coding_mode_flag = pps.entropy_coding_mode_flag
    if entropy_coding_mode_flag and slice_type not in (2, 7):
        ue(cabac_init_idc, 0, 2)
    se(slice_qp_delta)
    deblocking_filter_control_present_flag = pps.deblocking_filter_control_present_flag
    if deblocking_filter_control_present_flag:
        ue(disable_deblocking_filter_idc, 0, 6)
        if disable_deblocking_filter_idc != 1:
            se(slice_alpha_c0_offset_div2)
            se(slice_beta_offset_div2)
    num_slice_groups_minus1 = pps.num_slice_groups_minus1
    slice_group_map_type = pps.slice_group_map_type
    if num_slice_groups_minus1 > 0 and slice_group_map_type >= 3 and slice_group_map_type <= 5:
        pic_width_in_mbs_minus1 = sps.pic_width_in_mbs_minus1
        pic_height_in_map_units_minus1 = sps.pic_height_in_map_units_minus1
        slice_group_change_rate_minus1 = pps.slice_group_change_rate_minus1
        u(clog2(PicSizeInMapUnitsOf(sps) + slice_group_change_rate_minus1 + 1, slice_group_change_rate_minus1 + 1), slice_group_change_cycle)
    if not no_inter_layer_pred_flag and quality_id == 0:
        ue(ref_layer_dq_id)
        inter_layer_deblocking_filter_control_present_flag = svc.inter_layer_deblocking_filter_control_present_flag
        if inter_layer_deblocking_filter_control_present_flag:
            ue(disable_inter_layer_deblocking_filter_idc)
            if disable_inter_layer_deblocking_filter_idc != 1:
                se(inter_layer_slice_alpha_c0_offset_div2)
                se(inter_layer_slice_beta_offset_div2)
        u(1, constrained_intra_resampling_flag)
        extended_spatial_scalability_idc = svc.extended_spatial_scalability_idc
        if extended_spatial_scalability_idc == 2:
            ChromaArrayType = ChromaArrayTypeOf(sps)
            if ChromaArrayType > 0:
                u(1, ref_layer_chroma_phase_x_plus1_flag)
                u(2, ref_layer_chroma_phase_y_plus1)
            se(scaled_ref_layer_left_offset)
            se(scaled_ref_layer_top_offset)
            se(scaled_ref_layer_right_offset)
            se(scaled_ref_layer_bottom_offset)
    if not no_inter_layer_pred_flag:
        u(1, slice_skip_flag)
        if slice_skip_flag:
            ue(num_mbs_in_slice_minus1)
        else:
            u(1, adaptive_base_mode_flag)
            if not adaptive_base_mode_flag:
                u(1, default_base_mode_flag)
            if not default_base_mode_flag:
                u(1, adaptive_motion_prediction_flag)
                if not adaptive_motion_prediction_flag:
                    u(1, default_motion_prediction_flag)
            u(1, adaptive_residual_prediction_flag)
            if not adaptive_residual_prediction_flag:
                u(1, default_residual_prediction_flag)
        adaptive_tcoeff_level_prediction_flag = svc.adaptive_tcoeff_level_prediction_flag
        if adaptive_tcoeff_level_prediction_flag:
            u(1, tcoeff_level_prediction_flag)
    if not slice_header_restriction_flag and not slice_skip_flag:
        u(4, scan_idx_start)
        u(4, scan_idx_end)


@impl("H264SliceLayerWithoutPartitioningRbspParser::ParseSliceLayerWithoutPartitioningRbsp(BitBuffer*, unsigned int, unsigned int, H264BitstreamParserState*)", "H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState")
def slice_layer_without_partitioning_rbsp(nal_ref_idc: u32, nal_unit_type: u32, state: "H264BitstreamParserState"):
    slice_header = slice_header(nal_ref_idc, nal_unit_type, state)


# a scalable slice header that cannot be parsed leaves the pointer null
@impl("H264SliceLayerExtensionRbspParser::ParseSliceLayerExtensionRbsp(BitBuffer*, H264NalUnitHeaderParser::NalUnitHeaderState&, H264BitstreamParserState*)", "H264SliceLayerExtensionRbspParser::SliceLayerExtensionRbspState")
def slice_layer_extension_rbsp(nal_unit_header: "H264NalUnitHeaderParser::NalUnitHeaderState", state: "H264BitstreamParserState"):
    svc_extension_flag = nal_unit_header.svc_extension_flag
    avc_3d_extension_flag = nal_unit_header.avc_3d_extension_flag
    nal_ref_idc = nal_unit_header.nal_ref_idc
    nal_unit_type = nal_unit_header.nal_unit_type
    if svc_extension_flag:
        slice_header_in_scalable_extension = maybe(slice_header_in_scalable_extension(nal_unit_header, state))
    elif avc_3d_extension_flag:
        pass
    else:
        slice_header = slice_header(nal_ref_idc, nal_unit_type, state)


@impl("H264PrefixNalUnitSvcParser::ParsePrefixNalUnitSvc(BitBuffer*, unsigned int, unsigned int, unsigned int)", "H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState")
def prefix_nal_unit_svc(nal_ref_idc: u32, use_ref_base_pic_flag: u32, idr_flag: u32):
    if nal_ref_idc != 0:
        u(1, store_ref_base_pic_flag)
        if (use_ref_base_pic_flag or store_ref_base_pic_flag) and not idr_flag:
            unimplemented()
            fail()
        u(1, additional_prefix_nal_unit_extension_flag)
        if additional_prefix_nal_unit_extension_flag == 1:
            while more_rbsp_data():
                u(1, additional_prefix_nal_unit_extension_data_flag)
        rbsp_trailing_bits()
    elif more_rbsp_data():
        while more_rbsp_data():
            u(1, additional_prefix_nal_unit_extension_data_flag)
        rbsp_trailing_bits()


@impl("H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(BitBuffer*, unsigned int, unsigned int, unsigned int, unsigned int)", "H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState")
def prefix_nal_unit_rbsp(svc_extension_flag: u32, nal_ref_idc: u32, use_ref_base_pic_flag: u32, idr_flag: u32):
    if svc_extension_flag == 1:
        prefix_nal_unit_svc = prefix_nal_unit_svc(nal_ref_idc, use_ref_base_pic_flag, idr_flag)


# ---------------------------------------------------------------- NAL units
@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@never_fails
@impl("H264NalUnitPayloadParser::ParseNalUnitPayload(BitBuffer*, H264NalUnitHeaderParser::NalUnitHeaderState&, H264BitstreamParserState*)", "H264NalUnitPayloadParser::NalUnitPayloadState")
def nal_unit_payload(nal_unit_header: "H264NalUnitHeaderParser::NalUnitHeaderState", state: "H264BitstreamParserState"):
    if nal_unit_header.nal_unit_type == 1 or nal_unit_header.nal_unit_type == 5:
        slice_layer_without_partitioning_rbsp = maybe(slice_layer_without_partitioning_rbsp(nal_unit_header.nal_ref_idc, nal_unit_header.nal_unit_type, state))
    elif nal_unit_header.nal_unit_type == 7:
        sps = maybe(sps())
        if sps != None:
            state.sps[sps.sps_data.seq_parameter_set_id] = sps
    elif nal_unit_header.nal_unit_type == 8:
        pps = maybe(pps(1))
        if pps != None:
            state.pps[pps.pic_parameter_set_id] = pps
    elif nal_unit_header.nal_unit_type == 14:
        if nal_unit_header.svc_extension_flag and nal_unit_header.nal_unit_header_svc_extension != None:
            prefix_nal_unit = maybe(prefix_nal_unit_rbsp(nal_unit_header.svc_extension_flag, nal_unit_header.nal_ref_idc, nal_unit_header.nal_unit_header_svc_extension.use_ref_base_pic_flag, nal_unit_header.nal_unit_header_svc_extension.idr_flag))
    elif nal_unit_header.nal_unit_type == 15:
        subset_sps = maybe(subset_sps())
        if subset_sps != None:
            state.subset_sps[subset_sps.seq_parameter_set_data.seq_parameter_set_id] = subset_sps
    elif nal_unit_header.nal_unit_type == 20:
        slice_layer_extension_rbsp = maybe(slice_layer_extension_rbsp(nal_unit_header, state))


@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@never_fails
@impl("H264NalUnitPayloadParser::ParseNalUnitPayload(BitBuffer*, unsigned int, unsigned int, H264BitstreamParserState*)", "H264NalUnitPayloadParser::NalUnitPayloadState")
def nal_unit_payload_for_type(nal_ref_idc: u32, nal_unit_type: u32, state: "H264BitstreamParserState"):
    return nal_unit_payload(struct("H264NalUnitHeaderParser::NalUnitHeaderState", nal_ref_idc=nal_ref_idc, nal_unit_type=nal_unit_type), state)


@keeps_position
@never_fails
@impl("NaluChecksum::GetNaluChecksum(BitBuffer*)", "NaluChecksum")
def nalu_checksum():
    start = position()
    word = 0
    byte = 0
    sum = 0
    ok = 1
    while ok:
        try_u(32, ok, word)
        if ok:
            sum = sum + word
    i = 0
    val = 0
    ok = 1
    while ok and remaining_bits() >= 8 and i < 4:
        try_u(8, ok, byte)
        if ok:
            val = val | (byte << (8 * (3 - i)))
            i = i + 1
    if i > 0:
        sum = sum + val
    folded = (sum >> 32) + (sum & 0xffffffff)
    folded = folded + (folded >> 32)
    answer = u32(~folded)
    checksum[0] = (answer >> 24) & 255
    checksum[1] = (answer >> 16) & 255
    checksum[2] = (answer >> 8) & 255
    checksum[3] = answer & 255
    length = 4
    seek(start)


@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@impl("H264NalUnitParser::ParseNalUnit(BitBuffer*, H264BitstreamParserState*, ParsingOptions)", "H264NalUnitParser::NalUnitState")
def nal_unit(state: "H264BitstreamParserState", parsing_options: "ParsingOptions"):
    if parsing_options.add_checksum:
        checksum = nalu_checksum()
    nal_unit_header = nal_unit_header()
    nal_unit_payload = nal_unit_payload(nal_unit_header, state)
    parsed_length = (position() + 7) >> 3


# ---------------------------------------------------------------- RTP packets
@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@impl("H264RtpSingleParser::ParseRtpSingle(BitBuffer*, H264BitstreamParserState*)", "H264RtpSingleParser::RtpSingleState")
def rtp_single(state: "H264BitstreamParserState"):
    nal_unit_header = nal_unit_header()
    nal_unit_payload = nal_unit_payload(nal_unit_header, state)


@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@impl("H264RtpStapAParser::ParseRtpStapA(BitBuffer*, H264BitstreamParserState*)", "H264RtpStapAParser::RtpStapAState")
def rtp_stapa(state: "H264BitstreamParserState"):
    header = nal_unit_header()
    while remaining_bits() > 0:
        size = u(16)
        fail_if(size * 8 > remaining_bits())
        append(nal_unit_sizes, size)
        hdr = nal_unit_header()
        append(nal_unit_headers, hdr)
        append(nal_unit_payloads, nal_unit_payload(hdr, state))


@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@impl("H264RtpFuAParser::ParseRtpFuA(BitBuffer*, unsigned int, H264BitstreamParserState*)", "H264RtpFuAParser::RtpFuAState")
def rtp_fua(nal_ref_idc: u32, state: "H264BitstreamParserState"):
    header = nal_unit_header()
    u(1, s_bit)
    u(1, e_bit)
    u(1, r_bit)
    u(5, fu_type)
    if s_bit != 0:
        nal_unit_payload = nal_unit_payload_for_type(nal_ref_idc, fu_type, state)


@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps")
@impl("H264RtpParser::ParseRtp(BitBuffer*, H264BitstreamParserState*)", "H264RtpParser::RtpState")
def rtp(state: "H264BitstreamParserState"):
    nal_unit_header = nal_unit_header()
    seek(0)
    if nal_unit_header.nal_unit_type <= 23:
        rtp_single = rtp_single(state)
    elif nal_unit_header.nal_unit_type == 24:
        rtp_stapa = rtp_stapa(state)
    elif nal_unit_header.nal_unit_type == 28:
        rtp_fua = rtp_fua(nal_unit_header.nal_ref_idc, state)


# ---------------------------------------------------------------- bitstreams
# the NAL units of a byte stream, as found by the start code search
@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps", "H264NalUnitParser::NalUnitState.offset", "H264NalUnitParser::NalUnitState.length")
@never_fails
@impl("H264BitstreamParser::ParseBitstream(unsigned char const*, unsigned long, H264BitstreamParserState*, ParsingOptions)", "H264BitstreamParser::BitstreamState")
def bitstream(state: "H264BitstreamParserState", parsing_options: "ParsingOptions"):
    parsing_options_.add_offset = parsing_options.add_offset
    parsing_options_.add_length = parsing_options.add_length
    parsing_options_.add_parsed_length = parsing_options.add_parsed_length
    parsing_options_.add_checksum = parsing_options.add_checksum
    parsing_options_.add_resolution = parsing_options.add_resolution
    for k in range(nalu_count(data)):
        nu = maybe(nal_unit_bytes(slice(data, nalu_payload_start(data, k), nalu_payload_size(data, k)), state, parsing_options))
        if nu != None:
            nu.offset = nalu_payload_start(data, k)
            nu.length = nalu_payload_size(data, k)
            append(nal_units, nu)


@never_fails
@impl("H264BitstreamParser::ParseBitstream(unsigned char const*, unsigned long, ParsingOptions)", "H264BitstreamParser::BitstreamState")
def bitstream_one_shot(parsing_options: "ParsingOptions"):
    b = bitstream(data, struct("H264BitstreamParserState"), parsing_options)
    b.parsing_options_.add_offset = parsing_options.add_offset
    b.parsing_options_.add_length = parsing_options.add_length
    b.parsing_options_.add_parsed_length = parsing_options.add_parsed_length
    b.parsing_options_.add_checksum = parsing_options.add_checksum
    b.parsing_options_.add_resolution = parsing_options.add_resolution
    return b


# NAL units each preceded by a big-endian length field of nalu_length_bytes bytes
@modifies("H264BitstreamParserState.sps", "H264BitstreamParserState.pps", "H264BitstreamParserState.subset_sps", "H264NalUnitParser::NalUnitState.offset", "H264NalUnitParser::NalUnitState.length")
@never_fails
@impl("H264BitstreamParser::ParseBitstreamNALULength(unsigned char const*, unsigned long, unsigned long, H264BitstreamParserState*, ParsingOptions)", "H264BitstreamParser::BitstreamState")
def bitstream_nalu_length(nalu_length_bytes: u64, state: "H264BitstreamParserState", parsing_options: "ParsingOptions"):
    parsing_options_.add_offset = parsing_options.add_offset
    parsing_options_.add_length = parsing_options.add_length
    parsing_options_.add_parsed_length = parsing_options.add_parsed_length
    parsing_options_.add_checksum = parsing_options.add_checksum
    parsing_options_.add_resolution = parsing_options.add_resolution
    i = 0
    while ult(i, length):
        if ult(0, nalu_length_bytes):
            if ult(length - i, nalu_length_bytes):
                break
            n = 0
            for j in range(nalu_length_bytes):
                n = (n << 8) + byte(data, i + j)
            i = i + nalu_length_bytes
            if n == 0 or ult(length - i, n):
                break
        else:
            n = length
        nu = maybe(nal_unit_bytes(slice(data, i, n), state, parsing_options))
        if nu != None:
            nu.offset = i
            nu.length = n
            append(nal_units, nu)
        i = i + n


@never_fails
@impl("H264BitstreamParser::ParseBitstreamNALULength(unsigned char const*, unsigned long, unsigned long, ParsingOptions)", "H264BitstreamParser::BitstreamState")
def bitstream_nalu_length_one_shot(nalu_length_bytes: u64, parsing_options: "ParsingOptions"):
    b = bitstream_nalu_length(data, nalu_length_bytes, struct("H264BitstreamParserState"), parsing_options)
    b.parsing_options_.add_offset = parsing_options.add_offset
    b.parsing_options_.add_length = parsing_options.add_length
    b.parsing_options_.add_parsed_length = parsing_options.add_parsed_length
    b.parsing_options_.add_checksum = parsing_options.add_checksum
    b.parsing_options_.add_resolution = parsing_options.add_resolution
    return b
