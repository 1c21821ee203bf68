SEEDS = [
dict(id='svc-ext-chroma-phase', file='src/h264_sps_svc_extension_parser.cc', property='C02',
 edits=[("    if (sps_svc_extension->ChromaArrayType > 0) {\n      // seq_ref_layer", "    if (sps_svc_extension->ChromaArrayType == 1) {\n      // seq_ref_layer")],
 needs='an SVC extension with extended_spatial_scalability_idc 1 of a 4:2:2 or 4:4:4 sequence',
 breaks='the reference layer chroma phase is not read for 4:2:2 and 4:4:4 and the scaled offsets are misread',
 demo='''
#include "h264_sps_svc_extension_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int cat : {0, 1, 2, 3}) {
    W w;
    w.u(1, 1).u(2, 1);
    if (cat == 1 || cat == 2) w.u(1, 1);
    if (cat == 1) w.u(2, 2);
    if (cat > 0) w.u(1, 1).u(2, 2);
    w.se(-3).se(4).se(-5).se(6).u(1, 1).u(1, 0).u(1, 1).trail();
    auto s = H264SpsSvcExtensionParser::ParseSpsSvcExtension(w.d.data(), w.d.size(), cat);
    CHECK(s != nullptr);
    CHECK(s->seq_scaled_ref_layer_left_offset == -3);
    CHECK(s->seq_scaled_ref_layer_top_offset == 4);
    CHECK(s->seq_scaled_ref_layer_right_offset == -5);
    CHECK(s->seq_scaled_ref_layer_bottom_offset == 6);
    CHECK(s->seq_tcoeff_level_prediction_flag == 1);
    CHECK(s->slice_header_restriction_flag == 1);
  }
  return 0;
}
'''),
dict(id='pps-chroma-444-lists', file='src/h264_pps_parser.cc', property='C03',
 edits=[("          6 + ((chroma_format_idc != 3) ? 2 : 6) * pps->transform_8x8_mode_flag;", "          6 + ((chroma_format_idc != 3 || !pps->transform_8x8_mode_flag) ? 2 : 6);")],
 needs='a picture parameter set with scaling lists but no 8x8 transform',
 breaks='two list flags that are not there are read, so the rest of the tail is misread',
 demo='''
#include "h264_pps_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int t8 = 0; t8 < 2; t8++)
    for (int cf = 1; cf < 4; cf++) {
      W w;
      w.ue(0).ue(0).u(1, 0).u(1, 0).ue(0);
      w.ue(3).ue(2).u(1, 1).u(2, 2).se(-4).se(3).se(-2).u(1, 1).u(1, 0).u(1, 1);
      w.u(1, t8).u(1, 1);
      int n = 6 + (cf == 3 ? 6 : 2) * t8;
      for (int i = 0; i < n; i++) w.u(1, 0);
      w.se(-5).trail();
      auto p = H264PpsParser::ParsePps(w.d.data(), w.d.size(), cf);
      CHECK(p != nullptr);
      CHECK(p->pic_scaling_list_present_flag.size() == size_t(n));
      CHECK(p->second_chroma_qp_index_offset == -5);
    }
  return 0;
}
'''),
dict(id='slice-weighted-sp', file='src/h264_slice_header_parser.cc', property='C04',
 edits=[("        (slice_header->slice_type == SliceType::SP) ||\n        (slice_header->slice_type == SliceType::SP_ALL))) ||\n      ((slice_header->weighted_bipred_idc == 1) &&",
         "        (slice_header->slice_type == SliceType::SP))) ||\n      ((slice_header->weighted_bipred_idc == 1) &&")],
 needs='an SP slice of type 8 (all slices SP) under a PPS with weighted prediction',
 breaks='the prediction weight table of such a slice is not read and the rest of the header is misread',
 demo='''
#include "h264_slice_header_parser.h"
#include "h264_sps_parser.h"
#include "h264_pps_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int type : {3, 8}) {
    W s, p, w;
    sps(s);
    PpsOpt o; o.wp = 1;
    pps(p, o);
    H264BitstreamParserState st;
    st.sps[0] = H264SpsParser::ParseSps(s.d.data(), s.d.size());
    st.pps[0] = H264PpsParser::ParsePps(p.d.data(), p.d.size(), 1);
    CHECK(st.sps[0] && st.pps[0]);
    w.ue(7).ue(type).ue(0).u(4, 5);  // first_mb, type, pps, frame_num
    w.u(1, 0);                       // override
    w.u(1, 0);                       // list modification
    w.ue(3).ue(2).u(1, 1).se(5).se(-6).u(1, 0);  // pred weight table
    w.u(1, 0);                       // adaptive marking
    w.se(-7).u(1, 1).se(4).trail();  // qp delta, sp_for_switch, qs delta
    BitBuffer b(w.d.data(), w.d.size());
    auto h = H264SliceHeaderParser::ParseSliceHeader(&b, 1, 1, &st);
    CHECK(h != nullptr);
    CHECK(h->pred_weight_table != nullptr);
    CHECK(h->pred_weight_table->luma_weight_l0[0] == 5);
    CHECK(h->slice_qp_delta == -7);
    CHECK(h->sp_for_switch_flag == 1);
    CHECK(h->slice_qs_delta == 4);
  }
  return 0;
}
'''),
dict(id='offset-round', file='src/h264_common.cc', property='C06',
 edits=[("return out_byte_offset + ((out_bit_offset == 0) ? 0 : 1);", "return out_byte_offset + ((out_bit_offset < 2) ? 0 : 1);")],
 needs='a parser stopping one bit into a byte',
 breaks='the parsed size of a NAL unit is reported one byte short',
 demo='''
#include "h264_common.h"
#include "w.h"
using namespace h264nal;
int main() {
  uint8_t d[4] = {1, 2, 3, 4};
  for (size_t i = 0; i <= 32; i++) {
    BitBuffer b(d, 4);
    CHECK(b.ConsumeBits(i));
    CHECK(get_current_offset(&b) == (i + 7) / 8);
  }
  return 0;
}
'''),
dict(id='annexb-empty-unit', file='src/h264_bitstream_parser.cc', property='C09',
 edits=[("      sequences.push_back(index);\n\n      i += 3;", "      sequences.push_back(index);\n\n      i += 4;")],
 needs='two start codes with nothing between them',
 breaks='the second start code is skipped: its unit is swallowed by the empty one before it',
 demo='''
#include "h264_bitstream_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  uint8_t d[] = {0, 0, 1, 0, 0, 1, 0x09, 0xf0, 0, 0, 0, 1, 0x09, 0x10};
  auto v = H264BitstreamParser::FindNaluIndices(d, sizeof(d));
  CHECK(v.size() == 3);
  CHECK(v[0].payload_size == 0);
  CHECK(v[1].payload_start_offset == 6);
  CHECK(v[1].payload_size == 2);
  CHECK(v[2].start_offset == 8);
  return 0;
}
'''),
dict(id='length-field-24', file='src/h264_bitstream_parser.cc', property='C10',
 edits=[("    *nalu_length = (*nalu_length << 8) + data[i];", "    *nalu_length = ((*nalu_length << 8) + data[i]) & 0xffffff;")],
 needs='a 4-byte length field of 2^24 or more',
 breaks='the top byte of the length field is ignored: the stream is split in the wrong place',
 demo='''
#include "h264_bitstream_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  ParsingOptions o;
  for (int big = 0; big < 2; big++) {
    std::vector<uint8_t> d = {uint8_t(big), 0, 0, 2, 0x09, 0xf0};
    H264BitstreamParserState st;
    auto b = H264BitstreamParser::ParseBitstreamNALULength(d.data(), d.size(), 4, &st, o);
    CHECK(b != nullptr);
    CHECK(b->nal_units.size() == size_t(big ? 0 : 1));
  }
  return 0;
}
'''),
dict(id='prefix-idr-marking', file='src/h264_prefix_nal_unit_parser.cc', property='C05',
 edits=[("    if ((prefix_nal_unit_svc->use_ref_base_pic_flag ||\n         prefix_nal_unit_svc->store_ref_base_pic_flag) &&\n        !prefix_nal_unit_svc->idr_flag) {",
         "    if (prefix_nal_unit_svc->store_ref_base_pic_flag &&\n        !prefix_nal_unit_svc->idr_flag) {")],
 needs='a prefix NAL unit of a non-IDR picture that uses, but does not store, the reference base picture',
 breaks='the base picture marking commands are taken for the extension flag instead of being reported unimplemented',
 demo='''
#include "h264_prefix_nal_unit_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int use = 0; use < 2; use++)
    for (int store = 0; store < 2; store++)
      for (int idr = 0; idr < 2; idr++) {
        W w;
        w.u(1, store).u(1, 0).trail();
        auto p = H264PrefixNalUnitRbspParser::ParsePrefixNalUnitRbsp(w.d.data(), w.d.size(), 1, 1, use, idr);
        bool want = !((use || store) && !idr);
        CHECK((p != nullptr && p->prefix_nal_unit_svc != nullptr) == want);
      }
  return 0;
}
'''),
dict(id='stapa-empty-second', file='src/h264_rtp_stapa_parser.cc', property='C12',
 edits=[("    if (rtp_stapa->nal_unit_headers.back() == nullptr) {", "    if (rtp_stapa->nal_unit_headers.back() == nullptr &&\n        rtp_stapa->nal_unit_sizes.size() < 2) {")],
 needs='a STAP-A packet whose second or later unit is cut off before its header',
 breaks='a null header is dereferenced: the process crashes',
 demo='''
#include "h264_rtp_stapa_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  std::vector<uint8_t> d = {0x18, 0x00, 0x02, 0x09, 0xf0, 0x00, 0x00};
  // the unit types are not parsed, so the second size field starts after the header
  std::vector<uint8_t> e = {0x18, 0x00, 0x01, 0x09, 0x00, 0x00};
  for (auto& v : {d, e}) {
    H264BitstreamParserState st;
    auto p = H264RtpStapAParser::ParseRtpStapA(v.data(), v.size(), &st);
    CHECK(p == nullptr);
  }
  return 0;
}
'''),
dict(id='unescape-tail', file='src/h264_common.cc', property='C16',
 edits=[("if (length - i >= 3 && data[i] == 0x00", "if (length - i > 3 && data[i] == 0x00")],
 needs='a NAL unit whose last three bytes are 00 00 03',
 breaks='the emulation prevention byte at the end of the unit is kept',
 demo='''
#include "h264_common.h"
#include "w.h"
using namespace h264nal;
int main() {
  uint8_t a[6] = {0x11, 0x00, 0x00, 0x03, 0x00, 0x00};
  CHECK(UnescapeRbsp(a, 6).size() == 5);
  CHECK(UnescapeRbsp(a, 5).size() == 4);
  CHECK(UnescapeRbsp(a, 4).size() == 3);
  CHECK(UnescapeRbsp(a, 3).size() == 3);
  return 0;
}
'''),
dict(id='peek64-last-bits', file='src/rtc_common.cc', property='C13',
 edits=[("  uint64_t bits = LowestBits(*bytes++, remaining_bits_in_current_byte);", "  uint64_t bits = LowestBits(*bytes++, remaining_bits_in_current_byte);\n  if (bit_count == 64 && bit_offset_ == 7) bits = 0;")],
 needs='a 64-bit read starting at the last bit of a byte',
 breaks='the top bit of the value is lost',
 demo='''
#include "rtc_common.h"
#include "w.h"
using namespace h264nal;
int main() {
  uint8_t d[10] = {0xff, 0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf0, 0x13};
  for (size_t off = 0; off < 8; off++) {
    for (size_t n = 33; n <= 64; n++) {
      BitBuffer b(d, 10), c(d, 10);
      b.ConsumeBits(off);
      c.ConsumeBits(off);
      uint64_t v = 0, r = 0;
      CHECK(b.ReadBits(n, v));
      for (size_t i = 0; i < n; i++) {
        uint32_t x = 0;
        CHECK(c.ReadBits(1, x));
        r = r * 2 + x;
      }
      CHECK(v == r);
    }
  }
  return 0;
}
'''),
dict(id='golomb-long-code', file='src/rtc_common.cc', property='C14',
 edits=[("  if (value_bit_count > 32 || !ReadBits(value_bit_count, val)) {", "  if (value_bit_count > 32) {\n    return false;\n  }\n  if (!ReadBits(value_bit_count, val)) {")],
 needs='more than 31 zero bits at the reading position',
 breaks='a failed read leaves the position behind the zeros instead of where it was',
 demo='''
#include "rtc_common.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int z = 28; z < 45; z++) {
    W w;
    w.u(3, 5);
    for (int i = 0; i < z; i++) w.u(1, 0);
    w.u(1, 1);
    for (int i = 0; i < z + 8; i++) w.u(1, 0);
    BitBuffer b(w.d.data(), w.d.size());
    uint32_t x = 0;
    size_t by = 9, bi = 9;
    CHECK(b.ConsumeBits(3));
    bool ok = b.ReadExponentialGolomb(x);
    CHECK(ok == (z < 32));
    b.GetCurrentOffset(&by, &bi);
    CHECK(by * 8 + bi == size_t(ok ? 3 + 2 * z + 1 : 3));
  }
  return 0;
}
'''),
dict(id='write-keeps-tail', file='src/rtc_common.cc', property='C15',
 edits=[("    *bytes = WritePartialByte(HighestByte(val), bit_count, *bytes, 0);", "    *bytes = HighestByte(val);")],
 needs='overwriting bits in the middle of a buffer that already has contents, ending inside a byte',
 breaks='the bits after the written field are cleared',
 demo='''
#include "rtc_common.h"
#include "w.h"
using namespace h264nal;
int main() {
  uint8_t d[4] = {0xff, 0xff, 0xff, 0xff};
  BitBufferWriter b(d, 4);
  CHECK(b.ConsumeBits(5));
  CHECK(b.WriteBits(0, 7));
  CHECK(d[0] == 0xf8);
  CHECK(d[1] == 0x0f);
  CHECK(d[2] == 0xff);
  return 0;
}
'''),
dict(id='resolution-field-crop', file='src/h264_sps_parser.cc', property='C17',
 edits=[("  *height -= (CropUnitY * static_cast<int>(frame_crop_top_offset) +\n              CropUnitY * static_cast<int>(frame_crop_bottom_offset));",
         "  *height -= (CropUnitY * static_cast<int>(frame_crop_top_offset +\n              frame_crop_bottom_offset % 256));")],
 needs='an SPS cropping 256 or more units from the bottom',
 breaks='the reported picture height is too large',
 demo='''
#include "h264_sps_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int crop : {4, 255, 256, 300}) {
    W w;
    sps_body(w, 0, 2, 0, 1, 10, 99);
    w.d.clear(); w.n = 0;
    w.u(8, 66).u(8, 0).u(8, 30).ue(0).ue(0).ue(2).ue(1).u(1, 0).ue(10).ue(99).u(1, 1).u(1, 1);
    w.u(1, 1).ue(0).ue(0).ue(0).ue(crop).u(1, 0).trail();
    auto s = H264SpsParser::ParseSps(w.d.data(), w.d.size());
    CHECK(s != nullptr);
    int x = 0, y = 0;
    CHECK(s->sps_data->getResolution(&x, &y) == 0);
    CHECK(x == 176);
    CHECK(y == 1600 - 2 * crop);
  }
  return 0;
}
'''),
]
