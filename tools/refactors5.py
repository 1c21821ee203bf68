"""fifth batch of behaviour-preserving edits: template helpers, member pointers, early moves, do-while"""
from refactors2 import span

B = []


def r(name, tasks, *edits):
    B.append((name, tasks.split(), edits))


NS = 'namespace h264nal {\n'
NH = 'src/h264_nal_unit_header_parser.cc'
r('header-table', 'nal_unit_header', (NH, '''  // forbidden_zero_bit  f(1)
  if (!bit_buffer->ReadBits(1, nal_unit_header->forbidden_zero_bit)) {
    return nullptr;
  }

  // nal_ref_idc  u(2)
  if (!bit_buffer->ReadBits(2, nal_unit_header->nal_ref_idc)) {
    return nullptr;
  }

  // nal_unit_type  u(5)
  if (!bit_buffer->ReadBits(5, nal_unit_header->nal_unit_type)) {
    return nullptr;
  }
''', '''  const size_t widths[] = {1, 2, 5};
  uint32_t* fields[] = {&nal_unit_header->forbidden_zero_bit, &nal_unit_header->nal_ref_idc, &nal_unit_header->nal_unit_type};
  for (int k = 0; k < 3; ++k) {
    if (!bit_buffer->ReadBits(widths[k], *fields[k])) {
      return nullptr;
    }
  }
'''))
r('header-and', 'nal_unit_header', (NH, '''  if (!bit_buffer->ReadBits(1, nal_unit_header->forbidden_zero_bit)) {
    return nullptr;
  }

  // nal_ref_idc  u(2)
  if (!bit_buffer->ReadBits(2, nal_unit_header->nal_ref_idc)) {
    return nullptr;
  }

  // nal_unit_type  u(5)
  if (!bit_buffer->ReadBits(5, nal_unit_header->nal_unit_type)) {
    return nullptr;
  }
''', '''  auto& h = *nal_unit_header;
  const bool ok = bit_buffer->ReadBits(1, h.forbidden_zero_bit) && bit_buffer->ReadBits(2, h.nal_ref_idc) && bit_buffer->ReadBits(5, h.nal_unit_type);
  if (!ok) {
    return nullptr;
  }
'''), (NH, '''  if (nal_unit_header->nal_unit_type == 14 ||
      nal_unit_header->nal_unit_type == 20 ||
      nal_unit_header->nal_unit_type == 21) {
    if (nal_unit_header->nal_unit_type != 21) {
''', '''  const uint32_t type = h.nal_unit_type;
  if (((uint32_t{1} << (type & 31)) & ((1u << 14) | (1u << 20) | (1u << 21))) != 0) {
    if (type < 21) {
'''))
r('trailing-do', 'g.trailing', ('src/h264_common.cc', '''  while (!byte_aligned(bit_buffer)) {
    // rbsp_alignment_zero_bit  f(1) // equal to 0
    if (!bit_buffer->ReadBits(1, bits_tmp)) {
      return false;
    }
    if (bits_tmp != 0) {
      return false;
    }
  }
  return true;''', '''  for (;;) {
    if (byte_aligned(bit_buffer)) {
      return true;
    }
    const bool read = bit_buffer->ReadBits(1, bits_tmp);
    if (!read || bits_tmp == 1) {
      return false;
    }
  }'''))
SA = 'src/h264_rtp_stapa_parser.cc'
r('stapa-unique', 'rtp_stapa', span(SA, '''    rtp_stapa->nal_unit_headers.push_back(
''', '''  }
  return rtp_stapa;''', '''    auto unit_header = H264NalUnitHeaderParser::ParseNalUnitHeader(bit_buffer);
    if (!unit_header) {
      return nullptr;
    }
    auto unit_payload = H264NalUnitPayloadParser::ParseNalUnitPayload(bit_buffer, *unit_header, bitstream_parser_state);
    if (!unit_payload) {
      return nullptr;
    }
    rtp_stapa->nal_unit_headers.push_back(std::move(unit_header));
    rtp_stapa->nal_unit_payloads.emplace_back(std::move(unit_payload));
'''))
RP = 'src/h264_ref_pic_list_modification_parser.cc'
r('rplm-alias', 'ref_pic_list_modification', (RP, '''        if ((ref_pic_list_modification->modification_of_pic_nums_idc.back() ==
             0) ||
            (ref_pic_list_modification->modification_of_pic_nums_idc.back() ==
             1)) {
''', '''        const auto& idcs = ref_pic_list_modification->modification_of_pic_nums_idc;
        const uint32_t last = idcs[idcs.size() - 1];
        if (last < 2) {
'''), (RP, '''  if ((slice_type % 5) == 1) {''', '''  const bool is_b = slice_type % 5 == 1;
  if (is_b) {'''))
SE = 'src/h264_sps_extension_parser.cc'
r('spsext-template', 'sps_extension', (SE, NS, NS + '''
namespace {
template <typename... T>
bool ReadAll(BitBuffer* b, size_t width, T&... out) {
  bool ok = true;
  (void)std::initializer_list<int>{(ok = ok && b->ReadBits(width, out), 0)...};
  return ok;
}
}  // namespace
'''), span(SE, '    // alpha_opaque_value  u(v)\n', '  }\n\n  // additional_extension_flag', '''    if (!ReadAll(bit_buffer, alpha_value_bits, sps_extension->alpha_opaque_value, sps_extension->alpha_transparent_value)) {
      return nullptr;
    }
'''))
VU = 'src/h264_vui_parameters_parser.cc'
r('vui-not-else', 'vui_parameters', (VU, '    if (vui->aspect_ratio_idc == AR_EXTENDED_SAR) {', '    const auto idc = vui->aspect_ratio_idc;\n    if (!(idc < AR_EXTENDED_SAR) && idc <= AR_EXTENDED_SAR) {'))
r('bytes-const', 'rtp_stapa_bytes', (SA, '''  std::vector<uint8_t> unpacked_buffer = UnescapeRbsp(data, length);
  BitBuffer bit_buffer(unpacked_buffer.data(), unpacked_buffer.size());
  return ParseRtpStapA(&bit_buffer, bitstream_parser_state);''', '''  const auto rbsp = UnescapeRbsp(data, length);
  const size_t n = rbsp.size();
  auto reader = std::make_unique<BitBuffer>(rbsp.data(), n);
  return ParseRtpStapA(reader.get(), bitstream_parser_state);'''))
