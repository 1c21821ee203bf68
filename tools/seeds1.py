SEEDS = [
dict(id='hrd-last-cpb', file='src/h264_hrd_parameters_parser.cc', property='C01',
 edits=[("SchedSelIdx <= hrd_parameters->cpb_cnt_minus1;\n", "SchedSelIdx <= hrd_parameters->cpb_cnt_minus1 &&\n       SchedSelIdx < 31;\n")],
 needs='an HRD with all 32 delivery schedules (cpb_cnt_minus1 == 31)',
 breaks='the last delivery schedule is not read and every later HRD field is misread',
 demo='''
#include "h264_hrd_parameters_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int cnt : {0, 30, 31}) {
    W w;
    w.ue(cnt).u(4, 3).u(4, 9);
    for (int i = 0; i <= cnt; i++) w.ue(i + 5).ue(2 * i + 1).u(1, i & 1);
    w.u(5, 11).u(5, 7).u(5, 20).u(5, 3).trail();
    auto h = H264HrdParametersParser::ParseHrdParameters(w.d.data(), w.d.size());
    CHECK(h != nullptr);
    CHECK(h->bit_rate_value_minus1.size() == size_t(cnt + 1));
    for (int i = 0; i <= cnt; i++) {
      CHECK(h->bit_rate_value_minus1[i] == uint32_t(i + 5));
      CHECK(h->cbr_flag[i] == uint32_t(i & 1));
    }
    CHECK(h->initial_cpb_removal_delay_length_minus1 == 11);
    CHECK(h->time_offset_length == 3);
  }
  return 0;
}
'''),
dict(id='sps-444-lists', file='src/h264_sps_parser.cc', property='C01',
 edits=[("((sps_data->chroma_format_idc != 3) ? 8 : 12)", "((sps_data->chroma_format_idc <= 3) ? 8 : 12)")],
 needs='a High 4:4:4 SPS (chroma_format_idc 3) with a scaling matrix',
 breaks='only 8 of the 12 scaling list flags of a 4:4:4 SPS are read; the rest of the SPS is misread',
 demo='''
#include "h264_sps_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int cf : {1, 3}) {
    W w;
    w.u(8, 244).u(8, 0).u(8, 40).ue(0);
    w.ue(cf);
    if (cf == 3) w.u(1, 0);
    w.ue(0).ue(0).u(1, 0).u(1, 1);
    int n = cf == 3 ? 12 : 8;
    for (int i = 0; i < n; i++) w.u(1, 0);
    w.ue(7).ue(2).ue(3).u(1, 0).ue(10).ue(8).u(1, 1).u(1, 1).u(1, 0).u(1, 0).trail();
    auto s = H264SpsParser::ParseSps(w.d.data(), w.d.size());
    CHECK(s != nullptr);
    CHECK(s->sps_data->seq_scaling_list_present_flag.size() == size_t(n));
    CHECK(s->sps_data->log2_max_frame_num_minus4 == 7);
    CHECK(s->sps_data->max_num_ref_frames == 3);
    CHECK(s->sps_data->pic_height_in_map_units_minus1 == 8);
  }
  return 0;
}
'''),
dict(id='slice-l1-default', file='src/h264_slice_header_parser.cc', property='C04',
 edits=[("      slice_header->num_ref_idx_l1_active_minus1 =\n          pps->num_ref_idx_l1_default_active_minus1;\n    }\n  }",
         "      slice_header->num_ref_idx_l1_active_minus1 =\n          slice_header->num_ref_idx_l0_active_minus1;\n    }\n  }")],
 needs='a P/B slice without override whose PPS has different list 0 and list 1 defaults',
 breaks='the list 1 reference count is not the one of the PPS the slice refers to',
 demo='''
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser_state.h"
#include "w.h"
using namespace h264nal;
int main() {
  H264BitstreamParserState st;
  ParsingOptions po;
  W s; s.u(8, 0x67); sps(s);
  CHECK(H264NalUnitParser::ParseNalUnit(s.d.data(), s.d.size(), &st, po));
  W p; p.u(8, 0x68); PpsOpt o; o.l0 = 1; o.l1 = 4; pps(p, o);
  CHECK(H264NalUnitParser::ParseNalUnit(p.d.data(), p.d.size(), &st, po));
  W w; w.u(8, 0x01);
  w.ue(0).ue(1).ue(0).u(4, 5);            // B slice, frame_num 5
  w.u(1, 1).u(1, 0);                      // direct_spatial, no override
  w.u(1, 0).u(1, 0);                      // no modification of l0, l1
  w.se(-3).trail();
  auto n = H264NalUnitParser::ParseNalUnit(w.d.data(), w.d.size(), &st, po);
  CHECK(n && n->nal_unit_payload->slice_layer_without_partitioning_rbsp);
  auto& h = n->nal_unit_payload->slice_layer_without_partitioning_rbsp->slice_header;
  CHECK(h != nullptr);
  CHECK(h->num_ref_idx_l0_active_minus1 == 1);
  CHECK(h->num_ref_idx_l1_active_minus1 == 4);
  CHECK(h->slice_qp_delta == -3);
  return 0;
}
'''),
dict(id='pps-first-wins', file='src/h264_nal_unit_payload_parser.cc', property='C07',
 edits=[("        bitstream_parser_state->pps[pps_id] = nal_unit_payload->pps;", "        bitstream_parser_state->pps.emplace(pps_id, nal_unit_payload->pps);")],
 needs='a second PPS with the same id and other contents later in the stream',
 breaks='the store keeps the first PPS of an id, so later slices are parsed under a stale PPS',
 demo='''
#include "h264_nal_unit_parser.h"
#include "h264_bitstream_parser_state.h"
#include "w.h"
using namespace h264nal;
int main() {
  H264BitstreamParserState st;
  ParsingOptions po;
  W s; s.u(8, 0x67); sps(s);
  CHECK(H264NalUnitParser::ParseNalUnit(s.d.data(), s.d.size(), &st, po));
  for (int l0 : {0, 3, 2}) {
    W p; p.u(8, 0x68); PpsOpt o; o.id = 9; o.l0 = l0; pps(p, o);
    CHECK(H264NalUnitParser::ParseNalUnit(p.d.data(), p.d.size(), &st, po));
    CHECK(st.pps.size() == 1 && st.pps[9] != nullptr);
    CHECK(st.pps[9]->num_ref_idx_l0_default_active_minus1 == uint32_t(l0));
  }
  return 0;
}
'''),
dict(id='fua-single-fragment', file='src/h264_rtp_fua_parser.cc', property='C08',
 edits=[("  if (rtp_fua->s_bit == 0) {", "  if (rtp_fua->s_bit == 0 || rtp_fua->e_bit == 1) {")],
 needs='an FU-A packet with both the start and the end bit set',
 breaks='the payload of a start fragment is skipped when it is flagged as end as well',
 demo='''
#include "h264_rtp_fua_parser.h"
#include "h264_bitstream_parser_state.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int e : {0, 1}) {
    H264BitstreamParserState st;
    W w; w.u(8, 0x7c).u(1, 1).u(1, e).u(1, 0).u(5, 7);
    sps(w, 3);
    auto r = H264RtpFuAParser::ParseRtpFuA(w.d.data(), w.d.size(), 3, &st);
    CHECK(r != nullptr && r->nal_unit_payload != nullptr);
    CHECK(r->nal_unit_payload->sps != nullptr);
    CHECK(st.sps.count(3) == 1);
  }
  return 0;
}
'''),
dict(id='checksum-carry', file='src/h264_common.cc', property='C11',
 edits=[("  sum += (sum >> 32);\n", "  sum |= (sum >> 32);\n")],
 needs='a NAL unit whose 32-bit word sum carries again when the carries are folded in, with an odd low word',
 breaks='the carry of the fold is lost, so the checksum is not the documented sum',
 demo='''
#include "h264_common.h"
#include "rtc_common.h"
#include <cstring>
#include "w.h"
using namespace h264nal;
int main() {
  // words: ffffffff ffffffff 00000001 -> sum 1_ffffffff -> fold 1_00000000 -> 1
  // words: ffffffff x4 + 4 more below: low word odd when the second carry comes
  uint64_t sets[][4] = {{0xffffffff, 0xffffffff, 1, 0},
                        {0xffffffff, 0xffffffff, 0xffffffff, 0},
                        {0xffffffff, 0xffffffff, 0xffffffff, 3},
                        {0xffffffff, 0xffffffff, 2, 0xffffffff},
                        {0xfffffffe, 0xffffffff, 0xffffffff, 0xffffffff}};
  for (auto& s : sets) {
    W w;
    uint64_t sum = 0;
    for (uint64_t v : s) { w.u(32, v); sum += v; }
    // enough words to make the folded low part carry with a nonzero low bit
    for (int k = 0; k < 3; k++) { w.u(32, 0xffffffff); sum += 0xffffffff; }
    while (sum >> 32) sum = (sum >> 32) + (sum & 0xffffffff);
    uint32_t want = ~uint32_t(sum);
    BitBuffer bb(w.d.data(), w.d.size());
    auto c = NaluChecksum::GetNaluChecksum(&bb);
    uint8_t exp[4] = {uint8_t(want >> 24), uint8_t(want >> 16), uint8_t(want >> 8), uint8_t(want)};
    CHECK(c->GetLength() == 4);
    CHECK(memcmp(c->GetChecksum(), exp, 4) == 0);
  }
  return 0;
}
'''),
dict(id='nalu-length-after-failure', file='src/h264_bitstream_parser.cc', property='C10',
 edits=[("      i += nalu_length;\n      continue;\n", "      break;\n")],
 needs='a length-prefixed stream with an unparseable NAL unit (an empty-payload header extension) in the middle',
 breaks='every NAL unit after the first unparseable one is lost',
 demo='''
#include "h264_bitstream_parser.h"
#include "w.h"
using namespace h264nal;
int main() {
  for (int lb : {1, 2, 3, 4}) {
    W s; s.u(8, 0x67); sps(s);
    W p; p.u(8, 0x68); pps(p);
    W w;
    w.u(8 * lb, s.d.size());
    for (auto b : s.d) w.u(8, b);
    w.u(8 * lb, 1).u(8, 0x6e);  // prefix NAL unit cut before its extension
    w.u(8 * lb, p.d.size());
    for (auto b : p.d) w.u(8, b);
    ParsingOptions po;
    auto b = H264BitstreamParser::ParseBitstreamNALULength(w.d.data(), w.d.size(), lb, po);
    CHECK(b != nullptr && b->nal_units.size() == 2);
    CHECK(b->nal_units[1]->offset == 3 * lb + 1 + s.d.size());
  }
  return 0;
}
'''),
]
