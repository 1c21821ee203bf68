@impl("H264HrdParametersParser::ParseHrdParameters(BitBuffer*)", "H264HrdParametersParser::HrdParametersState")
def hrd_parameters():
    ue(cpb_cnt_minus1, 0, 31)
    u(4, bit_rate_scale)
    u(4, cpb_size_scale)
    for SchedSelIdx in range(cpb_cnt_minus1 + 1):
        append(bit_rate_value_minus1, ue())
        append(cpb_size_value_minus1, ue())
        append(cbr_flag, u(1))
    u(5, initial_cpb_removal_delay_length_minus1)
    u(5, cpb_removal_delay_length_minus1)
    u(5, dpb_output_delay_length_minus1)
    u(5, time_offset_length)
