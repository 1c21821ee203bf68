# Contracts of the functions that derive values from parsed objects.
# `this` is an object a parser returned (its data invariants hold).

# ---------------------------------------------------------------- sequence parameter sets
CAT = lambda s: (s.chroma_format_idc if s.separate_colour_plane_flag == 0 else 0)
# Table 6-1
SubW = lambda s: ((2 if s.chroma_format_idc == 1 or s.chroma_format_idc == 2 else (1 if s.chroma_format_idc == 3 else -1)) if s.separate_colour_plane_flag == 0 else -1)
SubH = lambda s: ((2 if s.chroma_format_idc == 1 else (1 if s.chroma_format_idc == 2 or s.chroma_format_idc == 3 else -1)) if s.separate_colour_plane_flag == 0 else -1)
# equations 7-19 to 7-22
CropX = lambda s: (1 if CAT(s) == 0 else SubW(s))
CropY = lambda s: ((1 if CAT(s) == 0 else SubH(s)) * (2 - s.frame_mbs_only_flag))

@impl("H264SpsDataParser::SpsDataState::getChromaArrayType() const")
def sps_chroma_array_type(this: "H264SpsDataParser::SpsDataState"):
    return CAT(this)

@impl("H264SpsParser::SpsState::getChromaArrayType()")
def sps_state_chroma_array_type(this: "H264SpsParser::SpsState"):
    return CAT(this.sps_data)

@impl("H264SpsDataParser::SpsDataState::getSubWidthC() const")
def sub_width_c(this: "H264SpsDataParser::SpsDataState"):
    return SubW(this)

@impl("H264SpsDataParser::SpsDataState::getSubHeightC() const")
def sub_height_c(this: "H264SpsDataParser::SpsDataState"):
    return SubH(this)

@impl("H264SpsDataParser::SpsDataState::getCropUnitX() const")
def crop_unit_x(this: "H264SpsDataParser::SpsDataState"):
    return CropX(this)

@impl("H264SpsDataParser::SpsDataState::getCropUnitY() const")
def crop_unit_y(this: "H264SpsDataParser::SpsDataState"):
    return CropY(this)

# equations 7-13, 7-17, 7-18 and the cropping rectangle; no result at all if nothing is left of the picture
@impl("H264SpsDataParser::SpsDataState::getResolution(int*, int*) const")
def resolution(this: "H264SpsDataParser::SpsDataState", width: out, height: out):
    if width_null or height_null:
        return -1
    w = 16 * (this.pic_width_in_mbs_minus1 + 1) - CropX(this) * (this.frame_crop_left_offset + this.frame_crop_right_offset)
    h = 16 * (2 - this.frame_mbs_only_flag) * (this.pic_height_in_map_units_minus1 + 1) - CropY(this) * (this.frame_crop_top_offset + this.frame_crop_bottom_offset)
    if w <= 0 or h <= 0:
        width = -1
        height = -1
        return -1
    width = w
    height = h
    return 0

# Annex A, with the profile names of the library
@impl("H264SpsDataParser::SpsDataState::GetProfileType() const")
def profile_type(this: "H264SpsDataParser::SpsDataState"):
    p = this.profile_idc
    if p == 66:
        return 2 if this.constraint_set1_flag == 1 else 1
    if p == 77:
        return 3
    if p == 88:
        return 4
    if p == 100:
        return 6 if this.constraint_set4_flag == 1 else (7 if this.constraint_set5_flag == 1 else 5)
    if p == 110:
        return 10 if this.constraint_set3_flag == 1 else (9 if this.constraint_set4_flag == 1 else 8)
    if p == 122:
        return 12 if this.constraint_set3_flag == 1 else 11
    if p == 144:
        return 14 if this.constraint_set3_flag == 1 else 13
    if p == 244:
        return 16 if this.constraint_set3_flag == 1 else 15
    if p == 44:
        return 17
    return 0

# equation D-2, evaluated in double and rounded once
@impl("H264VuiParametersParser::VuiParametersState::getFramerate() const")
def framerate(this: "H264VuiParametersParser::VuiParametersState"):
    return float_of(this.time_scale, 2 * this.num_units_in_tick)

# ---------------------------------------------------------------- widths of slice header fields
@impl("H264PpsParser::PpsState::getSliceGroupIdLen()")
def slice_group_id_len(this: "H264PpsParser::PpsState"):
    return clog2(this.num_slice_groups_minus1 + 1)

# ---------------------------------------------------------------- stored parameter sets
@impl("H264BitstreamParserState::GetSps(unsigned int) const")
def get_sps(this: "H264BitstreamParserState", id: u32):
    return this.sps[id] if id in this.sps else None

@impl("H264BitstreamParserState::GetPps(unsigned int) const")
def get_pps(this: "H264BitstreamParserState", id: u32):
    return this.pps[id] if id in this.pps else None

@impl("H264BitstreamParserState::GetSubsetSps(unsigned int) const")
def get_subset_sps(this: "H264BitstreamParserState", id: u32):
    return this.subset_sps[id] if id in this.subset_sps else None

# ---------------------------------------------------------------- NAL unit types
@impl("IsSliceSegment(unsigned int)")
def is_slice_segment(t: u32):
    return b2i(t >= 1 and t <= 5 or t == 19 or t == 20)

@impl("IsNalUnitTypeReserved(unsigned int)")
def is_reserved(t: u32):
    return b2i(t >= 16 and t <= 18 or t >= 21 and t <= 23)

@impl("IsNalUnitTypeUnspecified(unsigned int)")
def is_unspecified(t: u32):
    return b2i(t >= 24 and t <= 31)

@impl("H264NalUnitPayloadParser::NalUnitPayloadState::IsPayloadParsed(unsigned int) const")
def is_payload_parsed(this: "H264NalUnitPayloadParser::NalUnitPayloadState", t: u32):
    if t == 7:
        return b2i(this.sps != None)
    if t == 8:
        return b2i(this.pps != None)
    if t == 15:
        return b2i(this.subset_sps != None)
    if t == 14:
        return b2i(this.prefix_nal_unit != None)
    if t == 1 or t == 5:
        return b2i(this.slice_layer_without_partitioning_rbsp != None)
    if t == 20:
        return b2i(this.slice_layer_extension_rbsp != None)
    return 1

@impl("NalUnitTypeToString(unsigned int)")
def nal_unit_type_name(t: u32):
    return name_of(t, "unspecified", "coded_slice_of_non_idr_picture", "coded_slice_data_partition_a", "coded_slice_data_partition_b", "coded_slice_data_partition_c", "coded_slice_of_idr_picture", "sei", "sps", "pps", "aud", "eoseq", "eostream", "filler_data", "sps_extension", "prefix", "subset_sps", "rsv16", "rsv17", "rsv18", "coded_slice_of_auxiliary_coded_picture", "coded_slice_extension", "rsv21", "rsv22", "rsv23", "unspec24", "unspec25", "unspec26", "unspec27", "unspec28", "unspec29", "unspec30", "unspec31", "unknown")

@impl("profileTypeToString(ProfileType, std::string&)")
def profile_name(t: u8, str: str):
    return name_of(t, "Unspecified", "Baseline", "Constrained Baseline", "Main", "Extended", "High", "Progressive High", "Constrained High", "High 10", "Progressive High 10", "High 10 Intra", "High 4:2:2", "High 4:2:2 Intra", "High 4:4:4", "High 4:4:4 Intra", "High 4:4:4 Predictive", "High 4:4:4 Predictive Intra", "CAVLC 4:4:4 Intra", "Unknown")
