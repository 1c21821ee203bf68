"""Behaviour-preserving edits of /repo: the checks must stay quiet on each.
usage: refactors.py [ids]   (works on scratch copies, runs the affected tasks only)"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
R = []


def r(name, tasks, *edits):
    R.append((name, tasks.split(), edits))


r('unescape-zero-count', 'g.unescape_rbsp', ('src/h264_common.cc', '''  for (size_t i = 0; i < length;) {
    // Be careful about over/underflow here. byte_length_ - 3 can underflow, and
    // i + 3 can overflow, but byte_length_ - i can't, because i < byte_length_
    // above, and that expression will produce the number of bytes left in
    // the stream including the byte at i.
    if (length - i >= 3 && data[i] == 0x00 && data[i + 1] == 0x00 &&
        data[i + 2] == 0x03) {
      // Two RBSP bytes.
      out.push_back(data[i++]);
      out.push_back(data[i++]);
      // Skip the emulation byte.
      i++;
    } else {
      // Single rbsp byte.
      out.push_back(data[i++]);
    }
  }
''', '''  size_t zeros = 0;
  for (size_t i = 0; i < length; ++i) {
    if (zeros >= 2 && data[i] == 0x03) {
      zeros = 0;
      continue;
    }
    zeros = (data[i] == 0x00) ? zeros + 1 : 0;
    out.push_back(data[i]);
  }
'''))
r('unescape-helper', 'g.unescape_rbsp', ('src/h264_common.cc', '''    if (length - i >= 3 && data[i] == 0x00 && data[i + 1] == 0x00 &&
        data[i + 2] == 0x03) {
      // Two''', '''    const bool escaped = (i + 2 < length) && is_escape(data + i);
    if (escaped) {
      // Two'''), ('src/h264_common.cc', 'std::vector<uint8_t> UnescapeRbsp(', '''static bool is_escape(const uint8_t* p) {
  return p[0] == 0 && p[1] == 0 && p[2] == 3;
}
std::vector<uint8_t> UnescapeRbsp('''))
r('findnalu-plain', 'g.find_nalus', ('src/h264_bitstream_parser.cc', '''    if (data[i + 2] > 1) {
      i += 3;
    } else if (data[i + 2] == 0x01''', '''    if (data[i + 2] == 0x01'''))
r('findnalu-back', 'g.find_nalus', ('src/h264_bitstream_parser.cc', '''      auto it = sequences.rbegin();
      if (it != sequences.rend())
        it->payload_size = index.start_offset - it->payload_start_offset;
''', '''      if (!sequences.empty()) {
        NaluIndex& previous = sequences.back();
        previous.payload_size = index.start_offset - previous.payload_start_offset;
      }
'''))
r('findnalux-while', 'g.find_nalus_explicit', ('src/h264_bitstream_parser.cc', '''    uint32_t nal_unit_size;
    memcpy(&nal_unit_size, data + i, sizeof(uint32_t));
    nal_unit_size = ntohl(nal_unit_size);
''', '''    const uint32_t nal_unit_size = (uint32_t{data[i]} << 24) | (uint32_t{data[i + 1]} << 16) | (uint32_t{data[i + 2]} << 8) | data[i + 3];
'''))
r('length-field-while', 'bitstream_nalu_length', ('src/h264_bitstream_parser.cc', '''  *nalu_length = 0;
  for (size_t i = 0; i < nalu_length_bytes; ++i) {
    *nalu_length = (*nalu_length << 8) + data[i];
  }
  return true;''', '''  size_t value = 0;
  size_t i = 0;
  while (i != nalu_length_bytes) {
    value = (value << 8) | data[i];
    ++i;
  }
  *nalu_length = value;
  return true;'''))
r('checksum-tail', 'nalu_checksum', ('src/h264_common.cc', '''    val |= static_cast<uint32_t>(val8) << (8 * (3 - i));
    i += 1;
  }
  if (i > 0) {
    sum += val;
  }
''', '''    sum += static_cast<uint64_t>(val8) << (24 - 8 * i);
    i++;
  }
'''))
r('checksum-fold', 'nalu_checksum', ('src/h264_common.cc', '''  sum = (sum >> 32) + (sum & 0xffffffff);
  // add carry
  sum += (sum >> 32);
''', '''  while ((sum >> 32) != 0) {
    sum = (sum >> 32) + (sum & 0xffffffff);
  }
'''))
r('peek-for', 'bb.peek32@0 bb.peek32@3 bb.peek32@7', ('src/rtc_common.cc', '''  while (bit_count >= 8) {
    bits = (bits << 8) | *bytes++;
    bit_count -= 8;
  }
''', '''  for (; bit_count > 7; bit_count -= 8, ++bytes) {
    bits = (bits << 8) | bytes[0];
  }
'''))
r('peek-bitwise', 'bb.peek32@0 bb.peek32@5 bb.peek64@2', ('src/rtc_common.cc', '''  const uint8_t* bytes = bytes_ + byte_offset_;
  size_t remaining_bits_in_current_byte = 8 - bit_offset_;
  uint32_t bits = LowestBits(*bytes++, remaining_bits_in_current_byte);
  // If we're reading fewer bits than what's left in the current byte, just
  // return the portion of this byte that we need.
  if (bit_count < remaining_bits_in_current_byte) {
    val = HighestBits(bits, bit_offset_ + bit_count);
    return true;
  }
  // Otherwise, subtract what we've read from the bit count and read as many
  // full bytes as we can into bits.
  bit_count -= remaining_bits_in_current_byte;
  while (bit_count >= 8) {
    bits = (bits << 8) | *bytes++;
    bit_count -= 8;
  }
  // Whatever we have left is smaller than a byte, so grab just the bits we need
  // and shift them into the lowest bits.
  if (bit_count > 0) {
    bits <<= bit_count;
    bits |= HighestBits(*bytes, bit_count);
  }
  val = bits;
''', '''  uint32_t bits = 0;
  for (size_t k = 0; k < bit_count; ++k) {
    const size_t p = bit_offset_ + k;
    bits = (bits << 1) | ((bytes_[byte_offset_ + p / 8] >> (7 - p % 8)) & 1);
  }
  val = bits;
'''))
r('consume-total', 'bb.skip', ('src/rtc_common.cc', '''  byte_offset_ += (bit_offset_ + bit_count) / 8;
  bit_offset_ = (bit_offset_ + bit_count) % 8;
''', '''  const size_t total = bit_offset_ + bit_count;
  byte_offset_ += total >> 3;
  bit_offset_ = total & 7;
'''))
r('ue-for', 'g.ue', ('src/rtc_common.cc', '''  while (PeekBits(1, peeked_bit) && peeked_bit == 0) {
    zero_bit_count++;
    ConsumeBits(1);
  }
''', '''  for (; PeekBits(1, peeked_bit); ++zero_bit_count) {
    if (peeked_bit != 0) {
      break;
    }
    ConsumeBits(1);
  }
'''))
r('se-neg', 'g.se', ('src/rtc_common.cc', '''  if ((unsigned_val & 1) == 0) {
    val = -static_cast<int32_t>(unsigned_val / 2);
  } else {
    val = static_cast<int32_t>((unsigned_val + 1) / 2);
  }
''', '''  const int32_t magnitude =
      static_cast<int32_t>((unsigned_val >> 1) + (unsigned_val & 1));
  val = (unsigned_val % 2 == 1) ? magnitude : -magnitude;
'''))
r('more-data', 'g.more_data', ('src/h264_common.cc', 'if (remaining_bitcount == 0) {\n    return false;\n  }', 'if (!remaining_bitcount) return false;'))
r('countbits-for', 'bb.countbits', ('src/rtc_common.cc', '''  size_t bit_count = 0;
  while (val != 0) {
    bit_count++;
    val >>= 1;
  }
  return bit_count;''', '''  size_t bit_count = 0;
  for (; val > 0; val /= 2) {
    ++bit_count;
  }
  return bit_count;'''))
r('hrd-helper', 'hrd_parameters', ('src/h264_hrd_parameters_parser.cc', '''    // bit_rate_value_minus1[i]  ue(v)
    if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
      return nullptr;
    }
    hrd_parameters->bit_rate_value_minus1.push_back(golomb_tmp);

    // cpb_size_value_minus1[i]  ue(v)
    if (!bit_buffer->ReadExponentialGolomb(golomb_tmp)) {
      return nullptr;
    }
    hrd_parameters->cpb_size_value_minus1.push_back(golomb_tmp);
''', '''    if (!ReadUe(bit_buffer, hrd_parameters->bit_rate_value_minus1) ||
        !ReadUe(bit_buffer, hrd_parameters->cpb_size_value_minus1)) {
      return nullptr;
    }
'''), ('src/h264_hrd_parameters_parser.cc', 'namespace h264nal {\n', '''namespace h264nal {
static bool ReadUe(BitBuffer* bit_buffer, std::vector<uint32_t>& out) {
  uint32_t v = 0;
  if (!bit_buffer->ReadExponentialGolomb(v)) {
    return false;
  }
  out.push_back(v);
  return true;
}
'''))
r('hrd-do-while', 'hrd_parameters', ('src/h264_hrd_parameters_parser.cc', '''  for (uint32_t SchedSelIdx = 0; SchedSelIdx <= hrd_parameters->cpb_cnt_minus1;
       SchedSelIdx++) {
''', '''  uint32_t SchedSelIdx = 0;
  do {
'''), ('src/h264_hrd_parameters_parser.cc', '''    hrd_parameters->cbr_flag.push_back(bits_tmp);
  }
''', '''    hrd_parameters->cbr_flag.push_back(bits_tmp);
    SchedSelIdx++;
  } while (SchedSelIdx <= hrd_parameters->cpb_cnt_minus1);
'''))
r('hrd-countdown', 'hrd_parameters', ('src/h264_hrd_parameters_parser.cc', '''  for (uint32_t SchedSelIdx = 0; SchedSelIdx <= hrd_parameters->cpb_cnt_minus1;
       SchedSelIdx++) {
''', '''  for (uint32_t left = hrd_parameters->cpb_cnt_minus1 + 1; left > 0; --left) {
'''))
r('pps-helper', 'pps', ('src/h264_pps_parser.cc', '''          if (i < 6) {
            if (!pps->scaling_list(bit_buffer, i, pps->ScalingList4x4, 16,
                                   pps->UseDefaultScalingMatrix4x4Flag)) {
              return nullptr;
            }
          } else {
            if (!pps->scaling_list(bit_buffer, i - 6, pps->ScalingList8x8, 64,
                                   pps->UseDefaultScalingMatrix8x8Flag)) {
              return nullptr;
            }
          }
''', '''          const bool is_4x4 = (i < 6);
          const bool ok = pps->scaling_list(
              bit_buffer, is_4x4 ? i : i - 6,
              is_4x4 ? pps->ScalingList4x4 : pps->ScalingList8x8,
              is_4x4 ? 16 : 64,
              is_4x4 ? pps->UseDefaultScalingMatrix4x4Flag
                     : pps->UseDefaultScalingMatrix8x8Flag);
          if (!ok) {
            return nullptr;
          }
'''))
r('pps-two-loops', 'pps', ('src/h264_pps_parser.cc', '''      uint32_t max_pic_scaling_list_present_flag =
          6 + ((chroma_format_idc != 3) ? 2 : 6) * pps->transform_8x8_mode_flag;
''', '''      uint32_t max_pic_scaling_list_present_flag = 6;
      if (pps->transform_8x8_mode_flag) {
        max_pic_scaling_list_present_flag += (chroma_format_idc == 3) ? 6 : 2;
      }
'''))
r('pps-idlen-int', 'pps f.slice_group_id_len', ('src/h264_pps_parser.cc', '''  return static_cast<uint32_t>(
      std::ceil(std::log2(1.0 * num_slice_groups_minus1 + 1)));''', '''  uint32_t len = 0;
  while ((1u << len) < num_slice_groups_minus1 + 1) {
    ++len;
  }
  return len;'''))
r('stapa-helper', 'rtp_stapa', ('src/h264_rtp_stapa_parser.cc', '''    // NALU header
    rtp_stapa->nal_unit_headers.push_back(
        H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer));
    if (rtp_stapa->nal_unit_headers.back() == nullptr) {
''', '''    // NALU header
    auto nal_unit_header = H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer);
    const bool have_header = (nal_unit_header != nullptr);
    rtp_stapa->nal_unit_headers.push_back(std::move(nal_unit_header));
    if (!have_header) {
'''))
r('resolution-helper', 'f.resolution', ('src/h264_sps_parser.cc', '''  *width = static_cast<int>(16 * (pic_width_in_mbs_minus1 + 1));
  *height = 16 * FrameHeightInMbs;
  *width -= (CropUnitX * static_cast<int>(frame_crop_left_offset) +
             CropUnitX * static_cast<int>(frame_crop_right_offset));
''', '''  *height = FrameHeightInMbs << 4;
  *width = static_cast<int>((pic_width_in_mbs_minus1 + 1) * 16) -
           CropUnitX * static_cast<int>(frame_crop_left_offset + frame_crop_right_offset);
'''))
r('profile-table', 'f.profile_type sps_data', ('src/h264_sps_parser.cc', '''    case 122:
      if (constraint_set3_flag == 1) {
        return ProfileType::HIGH_422_INTRA;
      }
      return ProfileType::HIGH_422;
''', '''    case 122:
      return constraint_set3_flag == 1 ? ProfileType::HIGH_422_INTRA : ProfileType::HIGH_422;
'''))
r('state-count', 'f.get_sps f.get_pps', ('src/h264_bitstream_parser_state.cc', '''  auto it = sps.find(sps_id);
  if (it == sps.end()) {
    return SharedPtrSpsState(nullptr);
  }
  return SharedPtrSpsState(it->second);''', '''  const auto it = sps.find(sps_id);
  return (it != sps.end()) ? it->second : nullptr;'''))


def apply(d, edits):
    for e in edits:
        if e[0] == 'span':
            _, f, start, end, new, skip = e
            p = os.path.join(d, f)
            s = open(p).read()
            if start not in s or end not in s[s.index(start):]:
                raise SystemExit('edit does not apply to %s: %r' % (f, start[:60]))
            i = s.index(start)
            open(p, 'w').write(s[:i] + new + s[s.index(end, i):])
            continue
        f, a, b = e
        p = os.path.join(d, f)
        s = open(p).read()
        if a not in s:
            raise SystemExit('edit does not apply to %s: %r' % (f, a[:60]))
        open(p, 'w').write(s.replace(a, b, 1))


import refactors2   # noqa: E402
R += refactors2.B
import refactors3   # noqa: E402
R += refactors3.B
import refactors4   # noqa: E402
R += refactors4.B
import refactors5   # noqa: E402
R += refactors5.B


def main():
    ids = sys.argv[1:]
    for name, tasks, edits in R:
        if ids and name not in ids:
            continue
        d = tempfile.mkdtemp(prefix='vprf')
        try:
            for x in ('src', 'include'):
                shutil.copytree('/repo/' + x, d + '/' + x)
            apply(d, edits)
            env = dict(os.environ, VP_REPO=d)
            p = subprocess.run(['python3-vt', HERE + '/../vp/tr.py', '-j', '3'] + tasks, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            for ln in p.stdout.strip().split('\n'):
                print(name, '|', ln[:230], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
