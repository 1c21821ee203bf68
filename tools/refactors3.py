"""third batch of behaviour-preserving edits: helpers, early returns, library calls, lookups by iterator"""
from refactors2 import span

B = []


def r(name, tasks, *edits):
    B.append((name, tasks.split(), edits))


SH = 'src/h264_slice_header_parser.cc'
NS = 'namespace h264nal {\n'
ISB = '''namespace h264nal {

static bool IsSlice(uint32_t slice_type, uint32_t kind) {
  return slice_type % 5 == kind;
}
'''
r('sh-predicate', 'slice_header', (SH, NS, ISB),
  (SH, '''  if ((slice_header->slice_type == SliceType::B) ||
      (slice_header->slice_type == SliceType::B_ALL)) {  // slice_type == B
    // direct''', '''  const bool is_b = IsSlice(slice_header->slice_type, SliceType::B);
  const bool is_p = IsSlice(slice_header->slice_type, SliceType::P);
  const bool is_sp = IsSlice(slice_header->slice_type, SliceType::SP);
  if (is_b) {
    // direct'''),
  span(SH, '''  if ((slice_header->slice_type == SliceType::P) ||
      (slice_header->slice_type == SliceType::P_ALL) ||
      (slice_header->slice_type == SliceType::SP) ||''', '    // num_ref_idx_active_override_flag  u(1)\n', '  if (is_p || is_sp || is_b) {\n'),
  span(SH, '  if ((slice_header->weighted_pred_flag &&\n', '    // pred_weight_table(slice_type', '''  const bool weighted = is_b ? slice_header->weighted_bipred_idc == 1
                             : (is_p || is_sp) && slice_header->weighted_pred_flag;
  if (weighted) {
'''))
r('sh-poc-helper', 'slice_header', (SH, NS, '''namespace h264nal {

static bool ReadPicOrderCnt(BitBuffer* bit_buffer,
                            const H264SpsDataParser::SpsDataState& sps_data,
                            H264SliceHeaderParser::SliceHeaderState* sh) {
  const bool both = sh->bottom_field_pic_order_in_frame_present_flag && !sh->field_pic_flag;
  switch (sh->pic_order_cnt_type) {
    case 0: {
      if (!bit_buffer->ReadBits(sps_data.log2_max_pic_order_cnt_lsb_minus4 + 4,
                                sh->pic_order_cnt_lsb)) {
        return false;
      }
      return !both || bit_buffer->ReadSignedExponentialGolomb(sh->delta_pic_order_cnt_bottom);
    }
    case 1: {
      if (sh->delta_pic_order_always_zero_flag) {
        return true;
      }
      const int count = both ? 2 : 1;
      for (int i = 0; i < count; i++) {
        int32_t delta;
        if (!bit_buffer->ReadSignedExponentialGolomb(delta)) {
          return false;
        }
        sh->delta_pic_order_cnt.push_back(delta);
      }
      return true;
    }
    default:
      return true;
  }
}
'''), span(SH, '  if (slice_header->pic_order_cnt_type == 0) {\n', '  slice_header->redundant_pic_cnt_present_flag =\n', '''  slice_header->delta_pic_order_always_zero_flag =
      sps_data->delta_pic_order_always_zero_flag;
  if (!ReadPicOrderCnt(bit_buffer, *sps_data, slice_header.get())) {
    return nullptr;
  }

'''), (SH, '  int32_t sgolomb_tmp;\n', ''))
r('sh-lookup-iter', 'slice_header', (SH, '''  if (bitstream_parser_state->pps.find(pps_id) ==
      bitstream_parser_state->pps.end()) {''', '''  auto pps_it = bitstream_parser_state->pps.find(pps_id);
  if (pps_it == bitstream_parser_state->pps.end()) {'''),
  (SH, 'auto& pps = bitstream_parser_state->pps[pps_id];', 'const auto& pps = pps_it->second;'),
  (SH, '''  if (bitstream_parser_state->sps.find(sps_id) ==
      bitstream_parser_state->sps.end()) {''', '''  if (bitstream_parser_state->sps.count(sps_id) == 0) {'''),
  (SH, 'auto& sps = bitstream_parser_state->sps[sps_id];', 'const auto& sps = bitstream_parser_state->sps.at(sps_id);'))
r('sh-getpps', 'slice_header', (SH, '''  if (bitstream_parser_state->pps.find(pps_id) ==
      bitstream_parser_state->pps.end()) {''', '''  auto pps = bitstream_parser_state->GetPps(pps_id);
  if (pps == nullptr) {'''),
  (SH, '  auto& pps = bitstream_parser_state->pps[pps_id];\n', ''),
  (SH, '''  if (bitstream_parser_state->sps.find(sps_id) ==
      bitstream_parser_state->sps.end()) {''', '''  auto sps = bitstream_parser_state->GetSps(sps_id);
  if (!sps) {'''),
  (SH, '  auto& sps = bitstream_parser_state->sps[sps_id];\n', ''))
r('sh-refidx-helper', 'slice_header', (SH, NS, '''namespace h264nal {

static bool ReadBounded(BitBuffer* bit_buffer, uint32_t& value, uint32_t max_value) {
  if (!bit_buffer->ReadExponentialGolomb(value)) {
    return false;
  }
  return value <= max_value;
}
'''), span(SH, '''      // num_ref_idx_l0_active_minus1  ue(v)
      if (!bit''', '    } else {\n      // use the default', '''      if (!ReadBounded(bit_buffer, slice_header->num_ref_idx_l0_active_minus1,
                       kNumRefIdxL0ActiveMinux1Max)) {
        return nullptr;
      }
      const bool is_b = slice_header->slice_type == SliceType::B ||
                        slice_header->slice_type == SliceType::B_ALL;
      if (is_b && !ReadBounded(bit_buffer, slice_header->num_ref_idx_l1_active_minus1,
                               kNumRefIdxL1ActiveMinux1Max)) {
        return nullptr;
      }
'''))
r('sh-qp-local', 'slice_header', (SH, '''  if (slice_header->slice_qp_delta <
          (-51 - 6 * static_cast<int32_t>(sps_data->bit_depth_luma_minus8)) ||
      slice_header->slice_qp_delta >
          (51 + 6 * static_cast<int32_t>(sps_data->bit_depth_luma_minus8))) {''', '''  const int32_t qp_bound = 51 + 6 * static_cast<int32_t>(sps_data->bit_depth_luma_minus8);
  if (slice_header->slice_qp_delta < -qp_bound || slice_header->slice_qp_delta > qp_bound) {'''))
SX = 'src/h264_slice_header_in_scalable_extension_parser.cc'
r('shise-interlayer', 'slice_header_in_scalable_extension', span(SX, '      // disable_inter_layer_deblocking_filter_idc  ue(v)\n', '        // inter_layer_slice_beta_offset_div2  se(v)\n', '''      uint32_t idc;
      if (!bit_buffer->ReadExponentialGolomb(idc)) {
        return nullptr;
      }
      shise->disable_inter_layer_deblocking_filter_idc = idc;
      if (idc != 1) {
        if (!bit_buffer->ReadSignedExponentialGolomb(
                shise->inter_layer_slice_alpha_c0_offset_div2)) {
          return nullptr;
        }
'''))
SP = 'src/h264_sps_parser.cc'
r('scaling-resize', 'sps_data', (SP, '''      while (useDefaultScalingMatrixFlag.size() <= i) {
        useDefaultScalingMatrixFlag.push_back(0);
      }
''', '''      if (useDefaultScalingMatrixFlag.size() <= i) {
        useDefaultScalingMatrixFlag.resize(i + 1, 0);
      }
'''), (SP, '''    // make sure vector has jth element
    while (scalingList.size() <= j) {
      scalingList.push_back(0);
    }
    scalingList[j] = (nextScale == 0) ? lastScale : nextScale;
    lastScale = scalingList[j];
''', '''    if (nextScale != 0) {
      lastScale = nextScale;
    }
    if (scalingList.size() <= j) {
      scalingList.resize(j + 1);
    }
    scalingList[j] = lastScale;
'''))
r('scaling-early', 'sps_data', (SP, '''    // make sure vector has jth element
    while (scalingList.size() <= j) {
      scalingList.push_back(0);
    }
    scalingList[j] = (nextScale == 0) ? lastScale : nextScale;
    lastScale = scalingList[j];
''', '''    const uint32_t scale = (nextScale == 0) ? lastScale : nextScale;
    if (j < scalingList.size()) {
      scalingList[j] = scale;
    } else {
      scalingList.push_back(scale);
    }
    lastScale = scale;
'''))
r('scaling-mask', 'sps_data', (SP, '''      nextScale = static_cast<uint32_t>(static_cast<int32_t>(lastScale) +
                                        delta_scale + 256) %
                  256;
''', '''      const int32_t sum = static_cast<int32_t>(lastScale) + delta_scale + 256;
      nextScale = static_cast<uint32_t>(sum) & 0xff;
'''))
r('sps-lists-helper', 'sps_data', (SP, '''          if (i < 6) {
            if (!sps_data->scaling_list(
                    bit_buffer, i, sps_data->ScalingList4x4, 16,
                    sps_data->UseDefaultScalingMatrix4x4Flag)) {
              return nullptr;
            }
          } else {
            if (!sps_data->scaling_list(
                    bit_buffer, i - 6, sps_data->ScalingList8x8, 64,
                    sps_data->UseDefaultScalingMatrix8x8Flag)) {
              return nullptr;
            }
          }
''', '''          const bool is_4x4 = i < 6;
          if (!sps_data->scaling_list(
                  bit_buffer, is_4x4 ? i : i - 6,
                  is_4x4 ? sps_data->ScalingList4x4 : sps_data->ScalingList8x8,
                  is_4x4 ? 16 : 64,
                  is_4x4 ? sps_data->UseDefaultScalingMatrix4x4Flag
                         : sps_data->UseDefaultScalingMatrix8x8Flag)) {
            return nullptr;
          }
'''))
r('resolution-locals', 'f.resolution', span(SP, '  *width = static_cast<int>(16 *', '  return 0;\n}\n\n// Section 7.3.2.1.1.1', '''  int w = static_cast<int>(16 * (pic_width_in_mbs_minus1 + 1));
  int h = 16 * FrameHeightInMbs;
  w -= CropUnitX * static_cast<int>(frame_crop_left_offset + frame_crop_right_offset);
  h -= CropUnitY * static_cast<int>(frame_crop_top_offset + frame_crop_bottom_offset);
  const bool valid = w > 0 && h > 0;
  *width = valid ? w : -1;
  *height = valid ? h : -1;
  if (!valid) {
    return -1;
  }
'''))
SS = 'src/h264_subset_sps_parser.cc'
r('subset-switch', 'subset_sps', (SS, '''  if (subset_sps->seq_parameter_set_data->profile_idc == 83 ||
      subset_sps->seq_parameter_set_data->profile_idc == 86) {
    uint32_t''', '''  switch (subset_sps->seq_parameter_set_data->profile_idc) {
  case 83:
  case 86: {
    uint32_t'''), (SS, '''  } else if (subset_sps->seq_parameter_set_data->profile_idc == 118 ||
             subset_sps->seq_parameter_set_data->profile_idc == 128 ||
             subset_sps->seq_parameter_set_data->profile_idc == 134) {
''', '''    break;
  }
  case 118:
  case 128:
  case 134: {
'''), (SS, '''  } else if (subset_sps->seq_parameter_set_data->profile_idc == 138 ||
             subset_sps->seq_parameter_set_data->profile_idc == 135) {
''', '''    break;
  }
  case 138:
  case 135: {
'''), (SS, '''  } else if (subset_sps->seq_parameter_set_data->profile_idc == 139) {
''', '''    break;
  }
  case 139: {
'''), (SS, '''    // seq_parameter_set_3davc_extension()  // specified in Annex J
  }
''', '''    break;
  }
  default:
    break;
  }
'''))
SV = 'src/h264_sps_svc_extension_parser.cc'
r('svc-phase-helper', 'sps_svc_extension', (SV, NS, '''namespace h264nal {

namespace {
bool ReadPhase(BitBuffer* bit_buffer, bool has_x, bool has_y, uint32_t& x, uint32_t& y) {
  if (has_x && !bit_buffer->ReadBits(1, x)) {
    return false;
  }
  return has_y ? bit_buffer->ReadBits(2, y) : true;
}
}  // namespace
'''), span(SV, '''  if (sps_svc_extension->ChromaArrayType == 1 ||
      sps_svc_extension->ChromaArrayType == 2) {''', '    // seq_scaled_ref_layer_left_offset  se(v)\n', '''  const uint32_t cat = sps_svc_extension->ChromaArrayType;
  if (!ReadPhase(bit_buffer, cat == 1 || cat == 2, cat == 1,
                 sps_svc_extension->chroma_phase_x_plus1_flag,
                 sps_svc_extension->chroma_phase_y_plus1)) {
    return nullptr;
  }

  if (sps_svc_extension->extended_spatial_scalability_idc == 1) {
    if (!ReadPhase(bit_buffer, cat != 0, cat != 0,
                   sps_svc_extension->seq_ref_layer_chroma_phase_x_plus1_flag,
                   sps_svc_extension->seq_ref_layer_chroma_phase_y_plus1)) {
      return nullptr;
    }
'''), (SV, '''  if (sps_svc_extension->seq_tcoeff_level_prediction_flag == 1) {
    // adaptive_tcoeff_level_prediction_flag  u(1)
    if (!bit_buffer->ReadBits(
            1, sps_svc_extension->adaptive_tcoeff_level_prediction_flag)) {
      return nullptr;
    }
  }
''', '''  if (sps_svc_extension->seq_tcoeff_level_prediction_flag != 0 &&
      !bit_buffer->ReadBits(
          1, sps_svc_extension->adaptive_tcoeff_level_prediction_flag)) {
    return nullptr;
  }
'''))
PF = 'src/h264_prefix_nal_unit_parser.cc'
r('prefix-helper', 'prefix_nal_unit_svc', (PF, NS, '''namespace h264nal {

static bool SkipExtensionData(BitBuffer* bit_buffer, uint32_t& flag) {
  while (more_rbsp_data(bit_buffer)) {
    if (!bit_buffer->ReadBits(1, flag)) {
      return false;
    }
  }
  return true;
}
'''), span(PF, '      while (more_rbsp_data(bit_buffer)) {\n', '    }\n    rbsp_trailing_bits(bit_buffer);\n\n  } else if', '''      if (!SkipExtensionData(bit_buffer, prefix_nal_unit_svc->additional_prefix_nal_unit_extension_data_flag)) {
        return nullptr;
      }
'''), span(PF, '    while (more_rbsp_data(bit_buffer)) {\n      // additional', '    rbsp_trailing_bits(bit_buffer);\n  }\n\n  return prefix_nal_unit_svc;', '''    if (!SkipExtensionData(bit_buffer, prefix_nal_unit_svc->additional_prefix_nal_unit_extension_data_flag)) {
      return nullptr;
    }
'''))
r('prefix-flat', 'prefix_nal_unit_svc', (PF, '''  } else if (more_rbsp_data(bit_buffer)) {
    while (more_rbsp_data(bit_buffer)) {''', '''  } else if (more_rbsp_data(bit_buffer)) {
    for (;;) {
      if (!more_rbsp_data(bit_buffer)) {
        break;
      }'''))
NP = 'src/h264_nal_unit_payload_parser.cc'
r('payload-store', 'nal_unit_payload', (NP, '''      nal_unit_payload->sps = H264SpsParser::ParseSps(bit_buffer);
      if (nal_unit_payload->sps != nullptr) {
        uint32_t sps_id = nal_unit_payload->sps->sps_data->seq_parameter_set_id;
        bitstream_parser_state->sps[sps_id] = nal_unit_payload->sps;
      }
''', '''      std::shared_ptr<H264SpsParser::SpsState> sps = H264SpsParser::ParseSps(bit_buffer);
      if (sps) {
        auto& slot = bitstream_parser_state->sps[sps->sps_data->seq_parameter_set_id];
        slot = sps;
      }
      nal_unit_payload->sps = std::move(sps);
'''), (NP, '''      if (nal_unit_payload->pps != nullptr) {
        uint32_t pps_id = nal_unit_payload->pps->pic_parameter_set_id;
        bitstream_parser_state->pps[pps_id] = nal_unit_payload->pps;
      }
''', '''      const auto& pps = nal_unit_payload->pps;
      if (pps == nullptr) {
        break;
      }
      bitstream_parser_state->pps[pps->pic_parameter_set_id] = pps;
'''))
r('payload-assign', 'nal_unit_payload', (NP, '''        bitstream_parser_state->sps[sps_id] = nal_unit_payload->sps;
''', '''        bitstream_parser_state->sps.insert_or_assign(sps_id, nal_unit_payload->sps);
'''))
r('payload-merge', 'nal_unit_payload', (NP, '''    case CODED_SLICE_OF_NON_IDR_PICTURE_NUT: {
      // slice_layer_without_partitioning_rbsp()
      nal_unit_payload->slice_layer_without_partitioning_rbsp =
          H264SliceLayerWithoutPartitioningRbspParser::
              ParseSliceLayerWithoutPartitioningRbsp(
                  bit_buffer, nal_unit_header.nal_ref_idc,
                  nal_unit_header.nal_unit_type, bitstream_parser_state);
      break;
    }
''', '    case CODED_SLICE_OF_NON_IDR_PICTURE_NUT:\n      // fall through to the IDR case\n'
  '      goto slice;\n'), (NP, '    case CODED_SLICE_OF_IDR_PICTURE_NUT: {\n', '    case CODED_SLICE_OF_IDR_PICTURE_NUT: {\n    slice:\n'))
RC = 'src/rtc_common.cc'
r('wr-golomb-two', 'wr.uea wr.ueb', (RC, '  return WriteBits(val_to_encode, CountBits(val_to_encode) * 2 - 1);', '''  const size_t significant = CountBits(val_to_encode);
  const size_t zeros = significant - 1;
  return WriteBits(val_to_encode, zeros + significant);'''))
r('wr-se-map', 'wr.sea wr.seb', span(RC, '''  if (val == 0) {
    return WriteExponentialGolomb(0);''', '}\n\n}  // namespace h264nal', '''  if (val == std::numeric_limits<int32_t>::min()) {
    return false;
  }
  const uint32_t code = val > 0 ? static_cast<uint32_t>(val) * 2 - 1
                                : static_cast<uint32_t>(-val) * 2;
  return WriteExponentialGolomb(code);
'''))
r('wr-bits-for', 'wr.bits@0 wr.bits@3', (RC, '''  while (bit_count >= 8) {
    *bytes++ = HighestByte(val);
    val <<= 8;
    bit_count -= 8;
  }
''', '''  for (; bit_count >= 8; bit_count -= 8) {
    *bytes = HighestByte(val);
    ++bytes;
    val = val << 8;
  }
'''))
r('wr-bits-bitwise', 'wr.bits@0 wr.bits@3', span(RC, '  // For simplicity, push the bits we want to read from val', '  // All done! Consume', '''  size_t position = byte_offset_ * 8 + bit_offset_;
  for (size_t i = 0; i < bit_count; ++i, ++position) {
    const uint8_t bit = (val >> (bit_count - 1 - i)) & 1;
    const uint8_t shift = 7 - position % 8;
    uint8_t& target = writable_bytes_[position / 8];
    target = (target & ~(1u << shift)) | (bit << shift);
  }

'''))
r('nonsym-locals', 'bb.nonsyma bb.nonsymb', span(RC, '''  if (!ReadBits(count_bits - 1, val)) {
    return false;
  }

  if (val <''', 'bool BitBuffer::ReadExponentialGolomb', '''  uint32_t base;
  if (!ReadBits(count_bits - 1, base)) {
    return false;
  }
  val = base;
  if (base >= num_min_bits_values) {
    uint32_t extra_bit;
    if (!ReadBits(1, extra_bit)) {
      return false;
    }
    val = ((base << 1) | extra_bit) - num_min_bits_values;
  }
  return true;
}

'''))
r('seek-positive', 'bb.seek', (RC, '''  if (byte_offset > byte_count_ || bit_offset > 7 ||
      (byte_offset == byte_count_ && bit_offset > 0)) {
    return false;
  }
''', '''  const bool inside = byte_offset < byte_count_ && bit_offset < 8;
  const bool at_end = byte_offset == byte_count_ && bit_offset == 0;
  if (!inside && !at_end) {
    return false;
  }
'''))
r('se-branchless', 'g.se', span(RC, '  if ((unsigned_val & 1) == 0) {\n', '  return true;\n}\n\nvoid BitBuffer::GetCurrentOffset', '''  const int32_t magnitude = static_cast<int32_t>((unsigned_val >> 1) + (unsigned_val & 1));
  val = (unsigned_val & 1) ? magnitude : -magnitude;
'''))
r('countbits-clz', 'bb.countbits', span(RC, '  size_t bit_count = 0;\n  while (val != 0) {', '}\n\nBitBuffer::BitBuffer', '''  return val == 0 ? 0 : 64 - static_cast<size_t>(__builtin_clzll(val));
'''))
r('ue-peekall', 'g.ue', span(RC, '  size_t zero_bit_count = 0;\n', '  // The bit count of the value', '''  size_t zero_bit_count = 0;
  uint32_t peeked_bit = 1;
  while (true) {
    if (!PeekBits(1, peeked_bit) || peeked_bit != 0) {
      break;
    }
    ConsumeBits(1);
    ++zero_bit_count;
  }

'''))
HC = 'src/h264_common.cc'
r('offset-if', 'g.current_offset', (HC, '  return out_byte_offset + ((out_bit_offset == 0) ? 0 : 1);', '''  if (out_bit_offset > 0) {
    ++out_byte_offset;
  }
  return out_byte_offset;'''))
r('more-trailing-first', 'g.more_data', span(HC, '  if (remaining_bitcount > 8) {\n', 'bool rbsp_trailing_bits(', '''  if (remaining_bitcount <= 8) {
    uint32_t rest;
    if (!bit_buffer->PeekBits(static_cast<size_t>(remaining_bitcount), rest)) {
      return false;
    }
    return rest != (1u << (remaining_bitcount - 1));
  }
  return true;
}

'''))
BP = 'src/h264_bitstream_parser.cc'
r('findnalu-skip2', 'g.find_nalus', (BP, '''    if (data[i + 2] > 1) {
      i += 3;
    } else if (data[i + 2] == 0x01 && data[i + 1] == 0x00 && data[i] == 0x00) {''', '''    if (data[i + 2] > 1) {
      i += 3;
    } else if (data[i + 1] != 0) {
      i += 2;
    } else if (data[i + 2] == 0x01 && data[i] == 0x00) {'''))
r('findnalu-helper', 'g.find_nalus', (BP, '''    } else if (data[i + 2] == 0x01 && data[i + 1] == 0x00 && data[i] == 0x00) {''', '''    } else if (is_start_code(data + i)) {'''),
  (BP, 'bool read_nalu_length(', '''bool is_start_code(const uint8_t* p) { return p[0] == 0 && p[1] == 0 && p[2] == 1; }

bool read_nalu_length('''))
r('findnalu-ternary', 'g.find_nalus', (BP, '''      NaluIndex index = {i, i + 3, 0};
      if (index.start_offset > 0 && data[index.start_offset - 1] == 0)
        --index.start_offset;
''', '''      const bool long_code = i > 0 && data[i - 1] == 0;
      NaluIndex index = {long_code ? i - 1 : i, i + kNaluShortStartSequenceSize, 0};
'''))
r('length-shift', 'bitstream_nalu_length', (BP, '    *nalu_length = (*nalu_length << 8) + data[i];', '    *nalu_length = (*nalu_length * 256) | data[i];'))
r('state-getter-at', 'f.get_sps f.get_pps f.get_subset_sps', ('src/h264_bitstream_parser_state.cc', '''  auto it = sps.find(sps_id);
  if (it == sps.end()) {
    return SharedPtrSpsState(nullptr);
  }
  return SharedPtrSpsState(it->second);''', '''  if (sps.count(sps_id) == 0) {
    return nullptr;
  }
  return sps.at(sps_id);'''))
VU = 'src/h264_vui_parameters_parser.cc'
r('vui-hrd-helper', 'vui_parameters', (VU, NS, '''namespace h264nal {

namespace {
bool ReadHrd(BitBuffer* bit_buffer, uint32_t& present,
             std::unique_ptr<H264HrdParametersParser::HrdParametersState>& hrd) {
  if (!bit_buffer->ReadBits(1, present)) {
    return false;
  }
  if (!present) {
    return true;
  }
  hrd = H264HrdParametersParser::ParseHrdParameters(bit_buffer);
  return hrd != nullptr;
}
}  // namespace
'''), span(VU, '''  // nal_hrd_parameters_present_flag  u(1)
  if''', '''  if (vui->nal_hrd_parameters_present_flag ||
''', '''  if (!ReadHrd(bit_buffer, vui->nal_hrd_parameters_present_flag, vui->nal_hrd_parameters) ||
      !ReadHrd(bit_buffer, vui->vcl_hrd_parameters_present_flag, vui->vcl_hrd_parameters)) {
    return nullptr;
  }

'''))
NU = 'src/h264_nal_unit_parser.cc'
r('nalunit-local', 'nal_unit', span(NU, '''  // nal_unit_header()
  nal_unit->nal_unit_header =
''', '  // update the parsed length', '''  auto header = H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer);
  if (!header) {
    return nullptr;
  }
  auto payload = H264NalUnitPayloadParser::ParseNalUnitPayload(
      bit_buffer, *header, bitstream_parser_state);
  if (!payload) {
    return nullptr;
  }
  nal_unit->nal_unit_header = std::move(header);
  nal_unit->nal_unit_payload = std::move(payload);

'''))
