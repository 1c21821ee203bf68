# Contracts of the functions that write a parsed object as text.
# A bare name is a field of the object.  begin/end: "name {" ... "}" with one
# indentation level between; F: one "name: value" line per field, in decimal,
# signed if the field is; L: "name { v v }"; LL: a list of lists; sub: a nested
# structure on its own line.  A line starts with a new line and two spaces per
# level, or with one blank if indentation is off (level -1).

@impl("fdump_indent_level(_IO_FILE*, int)")
def indent_level(level: level):
    if level == -1:
        out(" ")
    else:
        out("\n", pad(2 * level))

@impl("fdump_indent_level(_IO_FILE*, int)")
def indent_level_loop(level: level):
    if level == -1:
        out(" ")
    else:
        out("\n")
        for k in range(level):
            out("  ")

@dump("H264DecRefPicMarkingParser::DecRefPicMarkingState")
def dec_ref_pic_marking():
    begin("dec_ref_pic_marking")
    if IdrPicFlag:
        F(no_output_of_prior_pics_flag, long_term_reference_flag)
    else:
        F(adaptive_ref_pic_marking_mode_flag)
        if adaptive_ref_pic_marking_mode_flag:
            L(memory_management_control_operation, difference_of_pic_nums_minus1, long_term_pic_num, long_term_frame_idx, max_long_term_frame_idx_plus1)
    end()

@dump("H264HrdParametersParser::HrdParametersState")
def hrd_parameters():
    begin("hrd_parameters")
    F(cpb_cnt_minus1, bit_rate_scale)
    L(bit_rate_value_minus1, cpb_size_value_minus1, cbr_flag)
    F(initial_cpb_removal_delay_length_minus1, cpb_removal_delay_length_minus1, dpb_output_delay_length_minus1, time_offset_length)
    end()

@dump("H264NalUnitHeaderSvcExtensionParser::NalUnitHeaderSvcExtensionState")
def nal_unit_header_svc_extension():
    begin("nal_unit_header_svc_extension")
    F(idr_flag, priority_id, no_inter_layer_pred_flag, dependency_id, quality_id, temporal_id, use_ref_base_pic_flag, discardable_flag, output_flag, reserved_three_2bits)
    end()

@dump("H264NalUnitHeaderParser::NalUnitHeaderState")
def nal_unit_header():
    begin("nal_unit_header")
    F(forbidden_zero_bit, nal_ref_idc, nal_unit_type)
    if nal_unit_type == 14 or nal_unit_type == 20:
        F(svc_extension_flag)
        if svc_extension_flag and nal_unit_header_svc_extension != None:
            sub(nal_unit_header_svc_extension, nal_unit_header_svc_extension)
    if nal_unit_type == 21:
        F(avc_3d_extension_flag)
    end()

@dump("H264VuiParametersParser::VuiParametersState")
def vui_parameters():
    begin("vui_parameters")
    F(aspect_ratio_info_present_flag)
    if aspect_ratio_info_present_flag:
        F(aspect_ratio_idc)
        if aspect_ratio_idc == 255:
            F(sar_width, sar_height)
    F(overscan_info_present_flag)
    if overscan_info_present_flag:
        F(overscan_appropriate_flag)
    F(video_signal_type_present_flag)
    if video_signal_type_present_flag:
        F(video_format, video_full_range_flag, colour_description_present_flag)
        if colour_description_present_flag:
            F(colour_primaries, transfer_characteristics, matrix_coefficients)
    F(chroma_loc_info_present_flag)
    if chroma_loc_info_present_flag:
        F(chroma_sample_loc_type_top_field, chroma_sample_loc_type_bottom_field)
    F(timing_info_present_flag)
    if timing_info_present_flag:
        F(num_units_in_tick, time_scale, fixed_frame_rate_flag)
    F(nal_hrd_parameters_present_flag)
    if nal_hrd_parameters_present_flag:
        sub(hrd_parameters, nal_hrd_parameters)
    F(vcl_hrd_parameters_present_flag)
    if vcl_hrd_parameters_present_flag:
        sub(hrd_parameters, vcl_hrd_parameters)
    if nal_hrd_parameters_present_flag or vcl_hrd_parameters_present_flag:
        F(low_delay_hrd_flag)
    F(pic_struct_present_flag, bitstream_restriction_flag)
    if bitstream_restriction_flag:
        F(motion_vectors_over_pic_boundaries_flag, max_bytes_per_pic_denom, max_bits_per_mb_denom, log2_max_mv_length_horizontal, log2_max_mv_length_vertical, max_num_reorder_frames, max_dec_frame_buffering)
    end()

@dump("H264SpsDataParser::SpsDataState", "options")
def sps_data():
    begin("sps_data")
    F(profile_idc, constraint_set0_flag, constraint_set1_flag, constraint_set2_flag, constraint_set3_flag, constraint_set4_flag, constraint_set5_flag, reserved_zero_2bits)
    line("profile: ", profile_name(profile_type))
    F(level_idc, seq_parameter_set_id)
    if profile_idc in (100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135):
        F(chroma_format_idc)
        if chroma_format_idc == 3:
            F(separate_colour_plane_flag)
        F(bit_depth_luma_minus8, bit_depth_chroma_minus8, qpprime_y_zero_transform_bypass_flag, seq_scaling_matrix_present_flag)
        L(seq_scaling_list_present_flag, ScalingList4x4, UseDefaultScalingMatrix4x4Flag, ScalingList8x8, UseDefaultScalingMatrix8x8Flag)
        F(delta_scale)
    F(log2_max_frame_num_minus4, pic_order_cnt_type)
    if pic_order_cnt_type == 0:
        F(log2_max_pic_order_cnt_lsb_minus4)
    elif pic_order_cnt_type == 1:
        F(delta_pic_order_always_zero_flag, offset_for_non_ref_pic, offset_for_top_to_bottom_field, num_ref_frames_in_pic_order_cnt_cycle)
        L(offset_for_ref_frame)
    F(max_num_ref_frames, gaps_in_frame_num_value_allowed_flag, pic_width_in_mbs_minus1, pic_height_in_map_units_minus1, frame_mbs_only_flag)
    if not frame_mbs_only_flag:
        F(mb_adaptive_frame_field_flag)
    F(direct_8x8_inference_flag, frame_cropping_flag)
    if frame_cropping_flag:
        F(frame_crop_left_offset, frame_crop_right_offset, frame_crop_top_offset, frame_crop_bottom_offset)
    F(vui_parameters_present_flag)
    if vui_parameters_present_flag:
        sub(vui_parameters, vui_parameters)
    if options.add_resolution:
        line("width: ", dec(picture_width(this)))
        line("height: ", dec(picture_height(this)))
    end()

@dump("H264SpsParser::SpsState", "options")
def sps():
    begin("sps")
    sub(sps_data, sps_data, options)
    end()

@dump("H264SpsExtensionParser::SpsExtensionState")
def sps_extension():
    begin("sps_extension")
    F(seq_parameter_set_id, aux_format_idc)
    if aux_format_idc != 0:
        F(bit_depth_aux_minus8, alpha_incr_flag, alpha_opaque_value, alpha_transparent_value)
    F(additional_extension_flag)
    end()

@dump("H264SpsSvcExtensionParser::SpsSvcExtensionState")
def sps_svc_extension():
    begin("seq_parameter_set_svc_extension")
    F(inter_layer_deblocking_filter_control_present_flag, extended_spatial_scalability_idc)
    if ChromaArrayType == 1 or ChromaArrayType == 2:
        F(chroma_phase_x_plus1_flag)
    if ChromaArrayType == 1:
        F(chroma_phase_y_plus1)
    if extended_spatial_scalability_idc == 1:
        if ChromaArrayType > 0:
            F(seq_ref_layer_chroma_phase_x_plus1_flag, seq_ref_layer_chroma_phase_y_plus1)
        F(seq_scaled_ref_layer_left_offset, seq_scaled_ref_layer_top_offset, seq_scaled_ref_layer_right_offset, seq_scaled_ref_layer_bottom_offset)
    F(seq_tcoeff_level_prediction_flag)
    if seq_tcoeff_level_prediction_flag == 1:
        F(adaptive_tcoeff_level_prediction_flag)
    F(slice_header_restriction_flag)
    end()

@dump("H264SubsetSpsParser::SubsetSpsState", "options")
def subset_sps():
    begin("subset_sps")
    sub(sps_data, seq_parameter_set_data, options)
    profile = seq_parameter_set_data.profile_idc
    if profile in (83, 86):
        sub(sps_svc_extension, seq_parameter_set_svc_extension)
        F(svc_vui_parameters_present_flag)
    elif profile in (118, 128, 134):
        F(bit_equal_to_one, mvc_vui_parameters_present_flag)
    elif profile in (135, 138, 139):
        F(bit_equal_to_one)
    F(additional_extension2_flag)
    if additional_extension2_flag == 1:
        F(additional_extension2_data_flag)
    end()

@dump("H264PpsParser::PpsState")
def pps():
    begin("pps")
    F(pic_parameter_set_id, seq_parameter_set_id, entropy_coding_mode_flag, bottom_field_pic_order_in_frame_present_flag, num_slice_groups_minus1)
    if num_slice_groups_minus1 > 0:
        F(slice_group_map_type)
        if slice_group_map_type == 0:
            L(run_length_minus1)
        elif slice_group_map_type == 2:
            L(top_left, bottom_right)
        elif slice_group_map_type in (3, 4, 5):
            F(slice_group_change_direction_flag, slice_group_change_rate_minus1)
        elif slice_group_map_type == 6:
            F(pic_size_in_map_units_minus1)
            L(slice_group_id)
    F(num_ref_idx_l0_default_active_minus1, num_ref_idx_l1_default_active_minus1, weighted_pred_flag, weighted_bipred_idc, pic_init_qp_minus26, pic_init_qs_minus26, chroma_qp_index_offset, deblocking_filter_control_present_flag, constrained_intra_pred_flag, redundant_pic_cnt_present_flag, transform_8x8_mode_flag, pic_scaling_matrix_present_flag)
    L(pic_scaling_list_present_flag, ScalingList4x4, UseDefaultScalingMatrix4x4Flag, ScalingList8x8, UseDefaultScalingMatrix8x8Flag)
    F(delta_scale, second_chroma_qp_index_offset)
    end()

@dump("H264PredWeightTableParser::PredWeightTableState")
def pred_weight_table():
    begin("pred_weight_table")
    F(luma_log2_weight_denom)
    if chroma_array_type != 0:
        F(chroma_log2_weight_denom)
    L(luma_weight_l0_flag, luma_weight_l0, luma_offset_l0)
    if chroma_array_type != 0:
        L(chroma_weight_l0_flag)
        LL(chroma_weight_l0, chroma_offset_l0)
    if slice_type == 1 or slice_type == 6:
        L(luma_weight_l1_flag, luma_weight_l1, luma_offset_l1)
        if chroma_array_type != 0:
            L(chroma_weight_l1_flag)
            LL(chroma_weight_l1, chroma_offset_l1)
    end()

@dump("H264RefPicListModificationParser::RefPicListModificationState")
def ref_pic_list_modification():
    begin("ref_pic_list_modification")
    F(ref_pic_list_modification_flag_l0, ref_pic_list_modification_flag_l1)
    if len(modification_of_pic_nums_idc) > 0:
        L(modification_of_pic_nums_idc)
    if len(abs_diff_pic_num_minus1) > 0:
        L(abs_diff_pic_num_minus1)
    if len(long_term_pic_num) > 0:
        L(long_term_pic_num)
    end()

@dump("H264SliceHeaderParser::SliceHeaderState")
def slice_header():
    begin("slice_header")
    k = slice_type % 5
    F(first_mb_in_slice, slice_type, pic_parameter_set_id)
    if separate_colour_plane_flag:
        F(colour_plane_id)
    F(frame_num)
    if not frame_mbs_only_flag:
        F(field_pic_flag)
        if field_pic_flag:
            F(bottom_field_flag)
    if nal_unit_type == 5:
        F(idr_pic_id)
    if pic_order_cnt_type == 0:
        F(pic_order_cnt_lsb)
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            F(delta_pic_order_cnt_bottom)
    if pic_order_cnt_type == 1 and not delta_pic_order_always_zero_flag:
        L(delta_pic_order_cnt)
    if redundant_pic_cnt_present_flag:
        F(redundant_pic_cnt)
    if k == 1:
        F(direct_spatial_mv_pred_flag)
    if k == 0 or k == 3 or k == 1:
        F(num_ref_idx_active_override_flag)
        if num_ref_idx_active_override_flag:
            F(num_ref_idx_l0_active_minus1)
            if k == 1:
                F(num_ref_idx_l1_active_minus1)
    sub(ref_pic_list_modification, ref_pic_list_modification)
    if weighted_pred_flag and (k == 0 or k == 3) or weighted_bipred_idc == 1 and k == 1:
        sub(pred_weight_table, pred_weight_table)
    if nal_ref_idc != 0:
        sub(dec_ref_pic_marking, dec_ref_pic_marking)
    if entropy_coding_mode_flag and k != 2 and k != 4:
        F(cabac_init_idc)
    F(slice_qp_delta)
    if k == 3 or k == 4:
        if k == 3:
            F(sp_for_switch_flag)
        F(slice_qs_delta)
    if deblocking_filter_control_present_flag:
        F(disable_deblocking_filter_idc)
        if disable_deblocking_filter_idc != 1:
            F(slice_alpha_c0_offset_div2, slice_beta_offset_div2)
    if num_slice_groups_minus1 > 0 and slice_group_map_type >= 3 and slice_group_map_type <= 5:
        F(slice_group_change_cycle)
    end()

@dump("H264SliceHeaderInScalableExtensionParser::SliceHeaderInScalableExtensionState")
def slice_header_in_scalable_extension():
    begin("slice_header_in_scalable_extension")
    k = slice_type % 5
    F(first_mb_in_slice, slice_type, pic_parameter_set_id)
    if separate_colour_plane_flag:
        F(colour_plane_id)
    F(frame_num)
    if not frame_mbs_only_flag:
        F(field_pic_flag)
        if field_pic_flag:
            F(bottom_field_flag)
    if idr_flag == 1:
        F(idr_pic_id)
    if pic_order_cnt_type == 0:
        F(pic_order_cnt_lsb)
        if bottom_field_pic_order_in_frame_present_flag and not field_pic_flag:
            F(delta_pic_order_cnt_bottom)
    if pic_order_cnt_type == 1 and not delta_pic_order_always_zero_flag:
        L(delta_pic_order_cnt)
    if redundant_pic_cnt_present_flag:
        F(redundant_pic_cnt)
    if quality_id == 0:
        if k == 1:
            F(direct_spatial_mv_pred_flag)
        if k == 0 or k == 1:
            F(num_ref_idx_active_override_flag)
            if num_ref_idx_active_override_flag:
                F(num_ref_idx_l0_active_minus1)
                if k == 1:
                    F(num_ref_idx_l1_active_minus1)
        sub(ref_pic_list_modification, ref_pic_list_modification)
        if weighted_pred_flag and k == 0 or weighted_bipred_idc == 1 and k == 1:
            if not no_inter_layer_pred_flag:
                F(base_pred_weight_table_flag)
            if no_inter_layer_pred_flag or not base_pred_weight_table_flag:
                sub(pred_weight_table, pred_weight_table)
        if nal_ref_idc != 0:
            sub(dec_ref_pic_marking, dec_ref_pic_marking)
            if not slice_header_restriction_flag:
                F(store_ref_base_pic_flag)
                if (use_ref_base_pic_flag or store_ref_base_pic_flag) and not idr_flag:
                    line("dec_ref_base_pic_marking() { unimplemented }")
    if entropy_coding_mode_flag and k != 2:
        F(cabac_init_idc)
    F(slice_qp_delta)
    if deblocking_filter_control_present_flag:
        F(disable_deblocking_filter_idc)
        if disable_deblocking_filter_idc != 1:
            F(slice_alpha_c0_offset_div2, slice_beta_offset_div2)
    if num_slice_groups_minus1 > 0 and slice_group_map_type >= 3 and slice_group_map_type <= 5:
        F(slice_group_change_cycle)
    if not no_inter_layer_pred_flag and quality_id == 0:
        F(ref_layer_dq_id)
        if inter_layer_deblocking_filter_control_present_flag:
            F(disable_inter_layer_deblocking_filter_idc)
            if disable_inter_layer_deblocking_filter_idc != 1:
                F(inter_layer_slice_alpha_c0_offset_div2, inter_layer_slice_beta_offset_div2)
        F(constrained_intra_resampling_flag)
        if extended_spatial_scalability_idc == 2:
            if ChromaArrayType > 0:
                F(ref_layer_chroma_phase_x_plus1_flag, ref_layer_chroma_phase_y_plus1)
            F(scaled_ref_layer_left_offset, scaled_ref_layer_top_offset, scaled_ref_layer_right_offset, scaled_ref_layer_bottom_offset)
    if not no_inter_layer_pred_flag:
        F(slice_skip_flag)
        if slice_skip_flag:
            F(num_mbs_in_slice_minus1)
        else:
            F(adaptive_base_mode_flag)
            if not adaptive_base_mode_flag:
                F(default_base_mode_flag)
            if not default_base_mode_flag:
                F(adaptive_motion_prediction_flag)
                if not adaptive_motion_prediction_flag:
                    F(default_motion_prediction_flag)
            F(adaptive_residual_prediction_flag)
            if not adaptive_residual_prediction_flag:
                F(default_residual_prediction_flag)
        if adaptive_tcoeff_level_prediction_flag:
            F(tcoeff_level_prediction_flag)
    if not slice_header_restriction_flag and not slice_skip_flag:
        F(scan_idx_start, scan_idx_end)
    end()

@dump("H264SliceLayerWithoutPartitioningRbspParser::SliceLayerWithoutPartitioningRbspState")
def slice_layer_without_partitioning_rbsp():
    begin("slice_layer_without_partitioning_rbsp")
    sub(slice_header, slice_header)
    end()

@dump("H264SliceLayerExtensionRbspParser::SliceLayerExtensionRbspState")
def slice_layer_extension_rbsp():
    begin("slice_layer_extension_rbsp")
    if svc_extension_flag:
        line()
        if slice_header_in_scalable_extension != None:
            sub0(slice_header_in_scalable_extension, slice_header_in_scalable_extension)
    elif not avc_3d_extension_flag:
        sub(slice_header, slice_header)
    end()

@dump("H264PrefixNalUnitSvcParser::PrefixNalUnitSvcState")
def prefix_nal_unit_svc():
    begin("prefix_nal_unit_svc")
    if nal_ref_idc != 0:
        F(store_ref_base_pic_flag, additional_prefix_nal_unit_extension_data_flag)
    end()

@dump("H264PrefixNalUnitRbspParser::PrefixNalUnitRbspState")
def prefix_nal_unit_rbsp():
    begin("prefix_nal_unit_rbsp")
    if svc_extension_flag and prefix_nal_unit_svc != None:
        sub(prefix_nal_unit_svc, prefix_nal_unit_svc)
    end()

@dump("H264NalUnitPayloadParser::NalUnitPayloadState", "type", "options")
def nal_unit_payload():
    begin("nal_unit_payload")
    line()
    if type == 1 or type == 5:
        if slice_layer_without_partitioning_rbsp != None:
            sub0(slice_layer_without_partitioning_rbsp, slice_layer_without_partitioning_rbsp)
    elif type == 7:
        if sps != None:
            sub0(sps, sps, options)
    elif type == 8:
        if pps != None:
            sub0(pps, pps)
    elif type == 14:
        if prefix_nal_unit != None:
            sub0(prefix_nal_unit_rbsp, prefix_nal_unit)
    elif type == 15:
        if subset_sps != None:
            sub0(subset_sps, subset_sps, options)
    elif type == 20:
        if slice_layer_extension_rbsp != None:
            sub0(slice_layer_extension_rbsp, slice_layer_extension_rbsp)
    end()

@dump("H264NalUnitParser::NalUnitState", "options")
def nal_unit():
    begin("nal_unit")
    if options.add_offset:
        line("offset: 0x", hex8(offset))
    if options.add_length:
        line("length: ", dec(length))
    if options.add_parsed_length:
        line("parsed_length: 0x", hex8(parsed_length))
    if options.add_checksum and checksum != None:
        line("checksum: 0x", checksum_hex(checksum))
    sub(nal_unit_header, nal_unit_header)
    sub(nal_unit_payload, nal_unit_payload, nal_unit_header.nal_unit_type, options)
    end()

@dump("H264RtpSingleParser::RtpSingleState", "options")
def rtp_single():
    begin("rtp_single")
    sub(nal_unit_header, nal_unit_header)
    sub(nal_unit_payload, nal_unit_payload, nal_unit_header.nal_unit_type, options)
    end()

@dump("H264RtpStapAParser::RtpStapAState", "options")
def rtp_stapa():
    begin("rtp_stapa")
    sub(nal_unit_header, header)
    for n in range(len(nal_unit_sizes)):
        line("nal_unit_size: ", dec(nal_unit_sizes[n]))
        sub(nal_unit_header, nal_unit_headers[n])
        sub(nal_unit_payload, nal_unit_payloads[n], nal_unit_headers[n].nal_unit_type, options)
    end()

@dump("H264RtpFuAParser::RtpFuAState", "options")
def rtp_fua():
    begin("rtp_fua")
    sub(nal_unit_header, header)
    F(s_bit, e_bit, r_bit, fu_type)
    if s_bit == 1:
        sub(nal_unit_payload, nal_unit_payload, fu_type, options)
    end()

@dump("H264RtpParser::RtpState", "options")
def rtp():
    begin("rtp")
    sub(nal_unit_header, nal_unit_header)
    if nal_unit_header.nal_unit_type <= 23:
        sub0(rtp_single, rtp_single, options)
    elif nal_unit_header.nal_unit_type == 24:
        sub0(rtp_stapa, rtp_stapa, options)
    elif nal_unit_header.nal_unit_type == 28:
        sub0(rtp_fua, rtp_fua, options)
    end()

# the options given when the stream was parsed apply
@dump("H264BitstreamParser::BitstreamState", "options")
def bitstream():
    for n in range(len(nal_units)):
        sub0(nal_unit, nal_units[n], parsing_options_)
        out("\n")
