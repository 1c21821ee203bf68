"""second batch of behaviour-preserving edits: larger rewrites; spans given by their first and last lines"""


def span(f, start, end, new, skip=0):
    return ('span', f, start, end, new, skip)


B = []


def r(name, tasks, *edits):
    B.append((name, tasks.split(), edits))


PWT = '''static bool read_weights(
    BitBuffer* bit_buffer, uint32_t chroma_array_type, uint32_t last,
    std::vector<uint32_t>& luma_flag, std::vector<int32_t>& luma_weight,
    std::vector<int32_t>& luma_offset, std::vector<uint32_t>& chroma_flag,
    std::vector<std::vector<int32_t>>& chroma_weight,
    std::vector<std::vector<int32_t>>& chroma_offset) {
  for (uint32_t i = 0; i <= last; ++i) {
    uint32_t flag = 0;
    if (!bit_buffer->ReadBits(1, flag)) return false;
    luma_flag.push_back(flag);
    if (flag) {
      int32_t weight = 0, offset = 0;
      if (!bit_buffer->ReadSignedExponentialGolomb(weight)) return false;
      if (!bit_buffer->ReadSignedExponentialGolomb(offset)) return false;
      luma_weight.push_back(weight);
      luma_offset.push_back(offset);
    }
    if (chroma_array_type == 0) continue;
    if (!bit_buffer->ReadBits(1, flag)) return false;
    chroma_flag.push_back(flag);
    if (!flag) continue;
    chroma_weight.emplace_back();
    chroma_offset.emplace_back();
    for (uint32_t j = 0; j < 2; ++j) {
      int32_t weight = 0, offset = 0;
      if (!bit_buffer->ReadSignedExponentialGolomb(weight)) return false;
      if (!bit_buffer->ReadSignedExponentialGolomb(offset)) return false;
      chroma_weight.back().push_back(weight);
      chroma_offset.back().push_back(offset);
    }
  }
  return true;
}

'''
r('pwt-helper', 'pred_weight_table',
  span('src/h264_pred_weight_table_parser.cc', '  for (uint32_t i = 0; i <= pred_weight_table->num_ref_idx_l0_active_minus1;', '  return pred_weight_table;\n}', '''  auto& t = *pred_weight_table;
  if (!read_weights(bit_buffer, chroma_array_type, num_ref_idx_l0_active_minus1,
                    t.luma_weight_l0_flag, t.luma_weight_l0, t.luma_offset_l0,
                    t.chroma_weight_l0_flag, t.chroma_weight_l0, t.chroma_offset_l0)) {
    return nullptr;
  }
  const bool is_b = (slice_type == SliceType::B) || (slice_type == SliceType::B_ALL);
  if (is_b && !read_weights(bit_buffer, chroma_array_type, num_ref_idx_l1_active_minus1,
                    t.luma_weight_l1_flag, t.luma_weight_l1, t.luma_offset_l1,
                    t.chroma_weight_l1_flag, t.chroma_weight_l1, t.chroma_offset_l1)) {
    return nullptr;
  }

'''),
  ('src/h264_pred_weight_table_parser.cc', 'std::unique_ptr<H264PredWeightTableParser::PredWeightTableState>\nH264PredWeightTableParser::ParsePredWeightTable(\n    const', PWT + 'std::unique_ptr<H264PredWeightTableParser::PredWeightTableState>\nH264PredWeightTableParser::ParsePredWeightTable(\n    const'))
RPLM = '''static bool read_modifications(BitBuffer* bit_buffer,
    H264RefPicListModificationParser::RefPicListModificationState* s) {
  uint32_t idc = 0;
  uint32_t value = 0;
  while (idc != 3) {
    if (!bit_buffer->ReadExponentialGolomb(idc) || idc > 3) {
      return false;
    }
    s->modification_of_pic_nums_idc.push_back(idc);
    if (idc == 3) {
      break;
    }
    if (!bit_buffer->ReadExponentialGolomb(value)) {
      return false;
    }
    if (idc == 2) {
      s->long_term_pic_num.push_back(value);
    } else {
      s->abs_diff_pic_num_minus1.push_back(value);
    }
  }
  return true;
}

'''
r('rplm-helper', 'ref_pic_list_modification',
  span('src/h264_ref_pic_list_modification_parser.cc', '  if (((slice_type % 5) != 2) && ((slice_type % 5) != 4)) {', '  return ref_pic_list_modification;\n}', '''  auto* s = ref_pic_list_modification.get();
  const uint32_t type = slice_type % 5;
  if (type != 2 && type != 4) {
    if (!bit_buffer->ReadBits(1, s->ref_pic_list_modification_flag_l0)) return nullptr;
    if (s->ref_pic_list_modification_flag_l0 && !read_modifications(bit_buffer, s)) return nullptr;
  }
  if (type == 1) {
    if (!bit_buffer->ReadBits(1, s->ref_pic_list_modification_flag_l1)) return nullptr;
    if (s->ref_pic_list_modification_flag_l1 && !read_modifications(bit_buffer, s)) return nullptr;
  }

'''), ('src/h264_ref_pic_list_modification_parser.cc', 'namespace h264nal {\n', 'namespace h264nal {\n' + RPLM), )
r('drpm-switch', 'dec_ref_pic_marking', span('src/h264_dec_ref_pic_marking_parser.cc', '      do {\n        // memory_man', '    }\n  }\n\n  return dec_ref_pic_marking;', '''      for (bool more = true; more;) {
        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
          return nullptr;
        }
        const uint32_t operation = golomb_tmp;
        if (operation > 6) {
          return nullptr;
        }
        dec_ref_pic_marking->memory_management_control_operation.push_back(operation);
        uint32_t first = 0;
        switch (operation) {
          case 0:
            more = false;
            break;
          case 1:
          case 3:
            if (!bit_buffer->ReadExponentialGolomb(first)) return nullptr;
            dec_ref_pic_marking->difference_of_pic_nums_minus1.push_back(first);
            if (operation == 1) break;
            [[fallthrough]];
          case 6:
            if (!bit_buffer->ReadExponentialGolomb(first)) return nullptr;
            dec_ref_pic_marking->long_term_frame_idx.push_back(first);
            break;
          case 2:
            if (!bit_buffer->ReadExponentialGolomb(first)) return nullptr;
            dec_ref_pic_marking->long_term_pic_num.push_back(first);
            break;
          case 4:
            if (!bit_buffer->ReadExponentialGolomb(first)) return nullptr;
            dec_ref_pic_marking->max_long_term_frame_idx_plus1.push_back(first);
            break;
          default:
            break;
        }
      }
'''))
r('payload-local', 'nal_unit_payload', ('src/h264_nal_unit_payload_parser.cc', '''      nal_unit_payload->sps = H264SpsParser::ParseSps(bit_buffer);
      if (nal_unit_payload->sps != nullptr) {
        uint32_t sps_id = nal_unit_payload->sps->sps_data->seq_parameter_set_id;
        bitstream_parser_state->sps[sps_id] = nal_unit_payload->sps;
      }
''', '''      auto sps = H264SpsParser::ParseSps(bit_buffer);
      nal_unit_payload->sps = sps;
      if (sps) {
        bitstream_parser_state->sps[sps->sps_data->seq_parameter_set_id] = sps;
      }
'''), ('src/h264_nal_unit_payload_parser.cc', '''      uint32_t chroma_format_idc = 1;
      nal_unit_payload->pps =
          H264PpsParser::ParsePps(bit_buffer, chroma_format_idc);
      if (nal_unit_payload->pps != nullptr) {
        uint32_t pps_id = nal_unit_payload->pps->pic_parameter_set_id;
        bitstream_parser_state->pps[pps_id] = nal_unit_payload->pps;
      }
''', '''      const auto pps = H264PpsParser::ParsePps(bit_buffer, 1);
      if (pps == nullptr) {
        break;
      }
      nal_unit_payload->pps = pps;
      auto& stored = bitstream_parser_state->pps[pps->pic_parameter_set_id];
      stored = pps;
'''))
r('bitstream-index', 'bitstream', span('src/h264_bitstream_parser.cc', '  for (const NaluIndex& nalu_index : nalu_indices) {', '  return bitstream;', '''  for (size_t k = 0; k < nalu_indices.size(); ++k) {
    const size_t start = nalu_indices[k].payload_start_offset;
    const size_t size = nalu_indices[k].payload_size;
    auto nal_unit = H264NalUnitParser::ParseNalUnit(
        data + start, size, bitstream_parser_state, parsing_options);
    if (nal_unit != nullptr) {
      nal_unit->length = size;
      nal_unit->offset = start;
      bitstream->nal_units.emplace_back(std::move(nal_unit));
    }
  }

'''))
r('bitstream-iter', 'bitstream', ('src/h264_bitstream_parser.cc', '  for (const NaluIndex& nalu_index : nalu_indices) {', '''  for (auto it = nalu_indices.begin(); it != nalu_indices.end(); ++it) {
    const NaluIndex nalu_index = *it;'''))
r('nalulen-while', 'bitstream_nalu_length', span('src/h264_bitstream_parser.cc', '    // (2) parse the NAL unit, and add it to the vector', '  return bitstream;', '''    auto nal_unit = H264NalUnitParser::ParseNalUnit(
        data + i, nalu_length, bitstream_parser_state, parsing_options);
    if (nal_unit) {
      nal_unit->offset = i;
      nal_unit->length = nalu_length;
      bitstream->nal_units.push_back(std::move(nal_unit));
    }
    i += nalu_length;
  }

'''))
r('explicit-shift', 'g.find_nalus_explicit', ('src/h264_bitstream_parser.cc', '''    uint32_t nal_unit_size;
    memcpy(&nal_unit_size, data + i, sizeof(uint32_t));
    nal_unit_size = ntohl(nal_unit_size);
''', '''    const uint32_t nal_unit_size = (static_cast<uint32_t>(data[i]) << 24) |
                                   (static_cast<uint32_t>(data[i + 1]) << 16) |
                                   (static_cast<uint32_t>(data[i + 2]) << 8) | data[i + 3];
'''))
r('explicit-while', 'g.find_nalus_explicit', ('src/h264_bitstream_parser.cc', '''  const size_t end = length;
  for (size_t i = 0; i < end;) {
    // read a nal_unit_size (4 bytes)
    if (i + 4 > length) {
      break;
    }
''', '''  size_t i = 0;
  while (length - i >= 4) {
'''))
r('fua-nested', 'rtp_fua', span('src/h264_rtp_fua_parser.cc', '  if (rtp_fua->s_bit == 0) {', '  return rtp_fua;\n}', '''  const bool is_start = rtp_fua->s_bit != 0;
  if (is_start) {
    rtp_fua->nal_unit_payload = H264NalUnitPayloadParser::ParseNalUnitPayload(
        bit_buffer, rtp_fua->nal_ref_idc, rtp_fua->fu_type, bitstream_parser_state);
    if (!rtp_fua->nal_unit_payload) {
      return nullptr;
    }
  }

'''))
r('header-byte', 'nal_unit_header', span('src/h264_nal_unit_header_parser.cc', '  // forbidden_zero_bit  f(1)', '  if (nal_unit_header->nal_unit_type == 14 ||', '''  uint32_t first_byte = 0;
  if (!bit_buffer->ReadBits(8, first_byte)) {
    return nullptr;
  }
  nal_unit_header->forbidden_zero_bit = first_byte >> 7;
  nal_unit_header->nal_ref_idc = (first_byte >> 5) & 3;
  nal_unit_header->nal_unit_type = first_byte & 0x1f;

'''))
r('header-switch', 'nal_unit_header', ('src/h264_nal_unit_header_parser.cc', '''  if (nal_unit_header->nal_unit_type == 14 ||
      nal_unit_header->nal_unit_type == 20 ||
      nal_unit_header->nal_unit_type == 21) {
    if (nal_unit_header->nal_unit_type != 21) {
''', '''  const uint32_t type = nal_unit_header->nal_unit_type;
  bool has_extension = false;
  switch (type) {
    case 14:
    case 20:
    case 21:
      has_extension = true;
      break;
    default:
      break;
  }
  if (has_extension) {
    if (type == 14 || type == 20) {
'''))
r('sps-while', 'sps_data', ('src/h264_sps_parser.cc', '''    for (uint32_t i = 0; i < sps_data->num_ref_frames_in_pic_order_cnt_cycle;
         i++) {
''', '''    sps_data->offset_for_ref_frame.reserve(sps_data->num_ref_frames_in_pic_order_cnt_cycle);
    while (sps_data->offset_for_ref_frame.size() <
           sps_data->num_ref_frames_in_pic_order_cnt_cycle) {
'''))
r('sps-lambda', 'sps_data', ('src/h264_sps_parser.cc', '''    for (uint32_t i = 0; i < sps_data->num_ref_frames_in_pic_order_cnt_cycle;
         i++) {
      // offset_for_ref_frame[i]  se(v)
      if (!bit_buffer->ReadSignedExponentialGolomb(golomb_tmp)) {
        return nullptr;
      }
      sps_data->offset_for_ref_frame.push_back(golomb_tmp);
    }
''', '''    auto read_offset = [&](uint32_t) {
      if (!bit_buffer->ReadSignedExponentialGolomb(golomb_tmp)) {
        return false;
      }
      sps_data->offset_for_ref_frame.push_back(golomb_tmp);
      return true;
    };
    for (uint32_t i = 0; i != sps_data->num_ref_frames_in_pic_order_cnt_cycle; ++i) {
      if (!read_offset(i)) {
        return nullptr;
      }
    }
'''))
r('sps-resize', 'sps_data', ('src/h264_sps_parser.cc', '''      sps_data->offset_for_ref_frame.push_back(golomb_tmp);
''', '''      sps_data->offset_for_ref_frame.resize(i + 1);
      sps_data->offset_for_ref_frame[i] = golomb_tmp;
'''))
r('readbits-order', 'bb.read32 bb.read64', ('src/rtc_common.cc', 'bool BitBuffer::ReadBits(size_t bit_count, uint32_t& val) {\n  return PeekBits(bit_count, val) && ConsumeBits(bit_count);', '''bool BitBuffer::ReadBits(size_t bit_count, uint32_t& val) {
  if (!PeekBits(bit_count, val)) {
    return false;
  }
  const bool consumed = ConsumeBits(bit_count);
  return consumed;'''))
r('trailing-loop', 'g.trailing', ('src/h264_common.cc', 'rbsp_alignment_zero_bit', 'rbsp_alignment_zero_bit'))
