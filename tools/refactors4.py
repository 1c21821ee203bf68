"""fourth batch of behaviour-preserving edits: loop rewrites (sizes set up front, loops merged into helpers, local buffers)"""
from refactors2 import span

B = []


def r(name, tasks, *edits):
    B.append((name, tasks.split(), edits))


NS = 'namespace h264nal {\n'
RP = 'src/h264_ref_pic_list_modification_parser.cc'
L0 = "    if (ref_pic_list_modification->ref_pic_list_modification_flag_l0) {\n"
r('rplm-idc-local', 'ref_pic_list_modification', span(RP, '      do {\n', '  if ((slice_type % 5) == 1) {', '''      uint32_t idc = 0;
      while (idc != 3) {
        if (!bit_buffer->ReadExponentialGolomb(idc) || idc > 3) {
          return nullptr;
        }
        ref_pic_list_modification->modification_of_pic_nums_idc.push_back(idc);
        if (idc == 3) {
          break;
        }
        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
          return nullptr;
        }
        auto& target = idc == 2 ? ref_pic_list_modification->long_term_pic_num
                                : ref_pic_list_modification->abs_diff_pic_num_minus1;
        target.push_back(golomb_tmp);
      }
    }
  }

'''))
r('rplm-for-ever', 'ref_pic_list_modification', span(RP, '      do {\n', '  if ((slice_type % 5) == 1) {', '''      for (bool more = true; more;) {
        if (!bit_buffer->ReadExponentialGolomb(golomb_tmp) || golomb_tmp > 3) {
          return nullptr;
        }
        const uint32_t idc = golomb_tmp;
        ref_pic_list_modification->modification_of_pic_nums_idc.push_back(idc);
        more = idc != 3;
        if (more && !bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
          return nullptr;
        }
        if (idc < 2) {
          ref_pic_list_modification->abs_diff_pic_num_minus1.push_back(golomb_tmp);
        } else if (idc == 2) {
          ref_pic_list_modification->long_term_pic_num.push_back(golomb_tmp);
        }
      }
    }
  }

'''))
DM = 'src/h264_dec_ref_pic_marking_parser.cc'
r('drpm-lambda', 'dec_ref_pic_marking', span(DM, '      do {\n', '  return dec_ref_pic_marking;\n', '''      auto read_into = [&](std::vector<uint32_t>& list) {
        uint32_t value;
        if (!bit_buffer->ReadExponentialGolomb(value)) {
          return false;
        }
        list.push_back(value);
        return true;
      };
      uint32_t op;
      do {
        if (!bit_buffer->ReadExponentialGolomb(op) || op > 6) {
          return nullptr;
        }
        dec_ref_pic_marking->memory_management_control_operation.push_back(op);
        bool ok = true;
        switch (op) {
          case 1:
            ok = read_into(dec_ref_pic_marking->difference_of_pic_nums_minus1);
            break;
          case 2:
            ok = read_into(dec_ref_pic_marking->long_term_pic_num);
            break;
          case 3:
            ok = read_into(dec_ref_pic_marking->difference_of_pic_nums_minus1) &&
                 read_into(dec_ref_pic_marking->long_term_frame_idx);
            break;
          case 4:
            ok = read_into(dec_ref_pic_marking->max_long_term_frame_idx_plus1);
            break;
          case 6:
            ok = read_into(dec_ref_pic_marking->long_term_frame_idx);
            break;
          default:
            break;
        }
        if (!ok) {
          return nullptr;
        }
      } while (op != 0);
    }
  }

'''), (DM, '  uint32_t golomb_tmp;\n', ''))
HR = 'src/h264_hrd_parameters_parser.cc'
r('hrd-resize', 'hrd_parameters', span(HR, '  for (uint32_t SchedSelIdx = 0;', '  // initial_cpb_removal_delay_length_minus1  u(5)\n', '''  const uint32_t count = hrd_parameters->cpb_cnt_minus1 + 1;
  hrd_parameters->bit_rate_value_minus1.resize(count);
  hrd_parameters->cpb_size_value_minus1.resize(count);
  hrd_parameters->cbr_flag.resize(count);
  for (uint32_t i = 0; i < count; i++) {
    if (!bit_buffer->ReadExponentialGolomb(hrd_parameters->bit_rate_value_minus1[i])) {
      return nullptr;
    }
    if (!bit_buffer->ReadExponentialGolomb(hrd_parameters->cpb_size_value_minus1[i])) {
      return nullptr;
    }
    if (!bit_buffer->ReadBits(1, hrd_parameters->cbr_flag[i])) {
      return nullptr;
    }
  }

'''), (HR, '  uint32_t bits_tmp;\n', ''), (HR, '  uint32_t golomb_tmp;\n', ''))
r('hrd-local-vec', 'hrd_parameters', span(HR, '  for (uint32_t SchedSelIdx = 0;', '  // initial_cpb_removal_delay_length_minus1  u(5)\n', '''  std::vector<uint32_t> rates, sizes, flags;
  for (uint32_t i = 0; i <= hrd_parameters->cpb_cnt_minus1; i++) {
    uint32_t rate, size, flag;
    if (!bit_buffer->ReadExponentialGolomb(rate) ||
        !bit_buffer->ReadExponentialGolomb(size) ||
        !bit_buffer->ReadBits(1, flag)) {
      return nullptr;
    }
    rates.push_back(rate);
    sizes.push_back(size);
    flags.push_back(flag);
  }
  hrd_parameters->bit_rate_value_minus1 = std::move(rates);
  hrd_parameters->cpb_size_value_minus1 = std::move(sizes);
  hrd_parameters->cbr_flag = std::move(flags);

'''), (HR, '  uint32_t bits_tmp;\n', ''), (HR, '  uint32_t golomb_tmp;\n', ''))
PW = 'src/h264_pred_weight_table_parser.cc'
r('pwt-rows', 'pred_weight_table', span(PW, '        pred_weight_table->chroma_weight_l0.emplace_back();\n', '      }\n    }\n  }\n\n  if ((slice_type == SliceType::B)', '''        std::vector<int32_t> weights, offsets;
        for (uint32_t j = 0; j < 2; ++j) {
          int32_t weight, offset;
          if (!bit_buffer->ReadSignedExponentialGolomb(weight) ||
              !bit_buffer->ReadSignedExponentialGolomb(offset)) {
            return nullptr;
          }
          weights.push_back(weight);
          offsets.push_back(offset);
        }
        pred_weight_table->chroma_weight_l0.push_back(std::move(weights));
        pred_weight_table->chroma_offset_l0.push_back(std::move(offsets));
'''))
r('pwt-flag-local', 'pred_weight_table', (PW, '''    pred_weight_table->luma_weight_l0_flag.push_back(bits_tmp);

    if (pred_weight_table->luma_weight_l0_flag[i]) {''', '''    const bool has_luma = bits_tmp != 0;
    pred_weight_table->luma_weight_l0_flag.push_back(bits_tmp);

    if (has_luma) {'''), (PW, '''        for (uint32_t j = 0; j < 2; ++j) {
          // chroma_weight_l0[i][j]  se(v)''', '''        auto& row_w = pred_weight_table->chroma_weight_l0.back();
        (void)row_w;
        for (uint32_t j = 2; j > 0; --j) {
          // chroma_weight_l0[i][j]  se(v)'''))
PP = 'src/h264_pps_parser.cc'
r('pps-groups-resize', 'pps', span(PP, '      for (uint32_t i = 0; i <= pps->pic_size_in_map_units_minus1; i++) {\n', '  // num_ref_idx_l0_default_active_minus1  ue(v)\n', '''      const uint32_t units = pps->pic_size_in_map_units_minus1 + 1;
      pps->slice_group_id.reserve(units);
      for (uint32_t left = units; left > 0; --left) {
        if (!bit_buffer->ReadBits(slice_group_id_len, bits_tmp)) {
          return nullptr;
        }
        pps->slice_group_id.push_back(bits_tmp);
      }
    }
  }

'''))
r('pps-switch', 'pps', (PP, '''    } else if ((pps->slice_group_map_type == 3) ||
               (pps->slice_group_map_type == 4) ||
               (pps->slice_group_map_type == 5)) {''', '''    } else if (pps->slice_group_map_type >= 3 &&
               pps->slice_group_map_type <= 5) {'''), (PP, '''      if (pps->slice_group_change_rate_minus1 == UINT32_MAX) {
        return nullptr;
      }
''', '''      const uint64_t rate = static_cast<uint64_t>(pps->slice_group_change_rate_minus1) + 1;
      if (rate > UINT32_MAX) {
        return nullptr;
      }
'''))
r('pps-rects', 'pps', span(PP, '''      for (uint32_t iGroup = 0; iGroup < pps->num_slice_groups_minus1;
           iGroup++) {
        // top_left''', '    } else if ((pps->slice_group_map_type == 3) ||', '''      uint32_t iGroup = 0;
      while (iGroup < pps->num_slice_groups_minus1) {
        uint32_t first, last;
        if (!bit_buffer->ReadExponentialGolomb(first) ||
            !bit_buffer->ReadExponentialGolomb(last)) {
          return nullptr;
        }
        pps->top_left.push_back(first);
        pps->bottom_right.push_back(last);
        ++iGroup;
      }

'''))
SA = 'src/h264_rtp_stapa_parser.cc'
r('stapa-local', 'rtp_stapa', span(SA, '    // NALU header\n', '  }\n  return rtp_stapa;\n', '''    auto header = H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer);
    if (!header) {
      return nullptr;
    }
    auto payload = H264NalUnitPayloadParser::ParseNalUnitPayload(
        bit_buffer, *header, bitstream_parser_state);
    if (!payload) {
      return nullptr;
    }
    rtp_stapa->nal_unit_headers.push_back(std::move(header));
    rtp_stapa->nal_unit_payloads.push_back(std::move(payload));
'''))
r('stapa-for', 'rtp_stapa', (SA, '  while (bit_buffer->RemainingBitCount() > 0) {\n', '  for (uint64_t left = bit_buffer->RemainingBitCount(); left != 0; left = bit_buffer->RemainingBitCount()) {\n'),
  (SA, '''    if (static_cast<uint64_t>(nalu_size) * 8 >
        bit_buffer->RemainingBitCount()) {''', '''    const uint64_t available_bytes = bit_buffer->RemainingBitCount() / 8;
    if (nalu_size > available_bytes) {'''))
FU = 'src/h264_rtp_fua_parser.cc'
r('fua-byte', 'rtp_fua', span(FU, '  if (!bit_buffer->ReadBits(1, rtp_fua->s_bit)) {\n', '  if (rtp_fua->s_bit == 0) {', '''  uint32_t bits[3];
  for (uint32_t& bit : bits) {
    if (!bit_buffer->ReadBits(1, bit)) {
      return nullptr;
    }
  }
  rtp_fua->s_bit = bits[0];
  rtp_fua->e_bit = bits[1];
  rtp_fua->r_bit = bits[2];
  if (!bit_buffer->ReadBits(5, rtp_fua->fu_type)) {
    return nullptr;
  }

'''))
BP = 'src/h264_bitstream_parser.cc'
r('bitstream-else', 'bitstream', span(BP, '    if (nal_unit == nullptr) {\n', '  return bitstream;\n}\n', '''    if (nal_unit != nullptr) {
      nal_unit->length = nalu_index.payload_size;
      nal_unit->offset = nalu_index.payload_start_offset;
      bitstream->nal_units.emplace_back(std::move(nal_unit));
    }
  }

'''))
r('nalulen-single', 'bitstream_nalu_length', (BP, '''      i += nalu_length;
      continue;
    }
    // store the offset
    nal_unit->offset = i;
    nal_unit->length = nalu_length;

    bitstream->nal_units.push_back(std::move(nal_unit));
''', '''    } else {
      nal_unit->offset = i;
      nal_unit->length = nalu_length;
      bitstream->nal_units.push_back(std::move(nal_unit));
    }
'''))
r('nalulen-remaining', 'bitstream_nalu_length', (BP, '''      i += nalu_length_bytes;
      if (nalu_length == 0 || nalu_length > length - i) {
        break;
      }''', '''      i += nalu_length_bytes;
      const size_t remaining = length - i;
      const bool fits = nalu_length <= remaining;
      if (!fits || nalu_length == 0) {
        break;
      }'''))
r('explicit-ptr', 'g.find_nalus_explicit', span(BP, '    uint32_t nal_unit_size;\n', '    // Validate that', '''    const uint8_t* p = data + i;
    const uint32_t nal_unit_size = (static_cast<uint32_t>(p[0]) << 24) |
                                   (static_cast<uint32_t>(p[1]) << 16) |
                                   (static_cast<uint32_t>(p[2]) << 8) | p[3];
'''))
HC = 'src/h264_common.cc'
r('checksum-helper', 'nalu_checksum', (HC, '''  while (bit_buffer->RemainingBitCount() >= 8 && i < 4) {
    if (!bit_buffer->ReadUInt8(val8)) {
      break;
    }
    val |= static_cast<uint32_t>(val8) << (8 * (3 - i));
    i += 1;
  }
  if (i > 0) {
    sum += val;
  }
''', '''  for (; i < 4 && bit_buffer->ReadUInt8(val8); ++i) {
    val |= static_cast<uint32_t>(val8) << (24 - 8 * i);
  }
  sum += val;
'''))
r('checksum-shift', 'nalu_checksum', (HC, '''  *(reinterpret_cast<uint32_t*>(checksum->checksum)) = htonl(answer);
''', '''  checksum->checksum[0] = static_cast<char>(answer >> 24);
  checksum->checksum[1] = static_cast<char>(answer >> 16);
  checksum->checksum[2] = static_cast<char>(answer >> 8);
  checksum->checksum[3] = static_cast<char>(answer);
'''))
r('checksum-memcpy', 'nalu_checksum', (HC, '''  *(reinterpret_cast<uint32_t*>(checksum->checksum)) = htonl(answer);
''', '''  const uint32_t network_answer = htonl(answer);
  memcpy(checksum->checksum, &network_answer, sizeof(network_answer));
'''), (HC, '#include <', '#include <cstring>\n#include <'))
r('unescape-while', 'g.unescape_rbsp', span(HC, '  for (size_t i = 0; i < length;) {\n', '  return out;\n', '''  size_t i = 0;
  while (i < length) {
    const size_t left = length - i;
    if (left < 3 || data[i] != 0 || data[i + 1] != 0 || data[i + 2] != 3) {
      out.push_back(data[i]);
      ++i;
      continue;
    }
    out.push_back(0);
    out.push_back(0);
    i += 3;
  }
'''))
r('unescape-append', 'g.unescape_rbsp', span(HC, '  for (size_t i = 0; i < length;) {\n', '  return out;\n', '''  size_t start = 0;
  size_t i = 0;
  while (i + 2 < length) {
    if (data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 3) {
      out.insert(out.end(), data + start, data + i + 2);
      i += 3;
      start = i;
    } else {
      ++i;
    }
  }
  out.insert(out.end(), data + start, data + length);
'''))
SP = 'src/h264_sps_parser.cc'
r('sps-table', 'sps_data', span(SP, '  if (sps_data->profile_idc == 100 ||', '    // chroma_format_idc  ue(v)\n', '''  static const uint32_t kHigh[] = {100, 110, 122, 244, 44, 83, 86, 118, 128, 138, 139, 134, 135};
  bool is_high = false;
  for (uint32_t p : kHigh) {
    if (p == sps_data->profile_idc) {
      is_high = true;
      break;
    }
  }
  if (is_high) {
'''))
r('sps-list-count', 'sps_data', (SP, '''      for (uint32_t i = 0; i < ((sps_data->chroma_format_idc != 3) ? 8 : 12);
           i++) {''', '''      const uint32_t list_count = (sps_data->chroma_format_idc == 3) ? 12 : 8;
      for (uint32_t i = 0; i < list_count; ++i) {'''))
