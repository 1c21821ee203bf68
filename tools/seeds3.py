SEEDS = [
dict(id='dump-signed-list', file='src/h264_sps_parser.cc', property='C18',
 edits=[('    for (const int32_t& v : offset_for_ref_frame) {\n      fprintf(outfp, " %i", v);', '    for (const uint32_t v : offset_for_ref_frame) {\n      fprintf(outfp, " %u", v);')],
 needs='picture order count type 1 with a negative reference frame offset',
 breaks='the dump shows 4294967293 for an offset of -3',
 demo='''
#include "h264_sps_parser.h"
#include "w.h"
#include <string>
using namespace h264nal;
int main() {
  H264SpsDataParser::SpsDataState s;
  s.pic_order_cnt_type = 1;
  s.num_ref_frames_in_pic_order_cnt_cycle = 2;
  s.offset_for_ref_frame = {4, -3};
  char* p = nullptr; size_t n = 0;
  FILE* f = open_memstream(&p, &n);
  s.fdump(f, -1, ParsingOptions());
  fclose(f);
  std::string t(p, n);
  CHECK(t.find("offset_for_ref_frame { 4 -3 }") != std::string::npos);
  return 0;
}
'''),
dict(id='dump-checksum-option', file='src/h264_nal_unit_parser.cc', property='C18',
 edits=[('parsing_options.add_parsed_length) {', 'parsing_options.add_length) {')],
 needs='options that ask for the parsed length but not for the length, or the other way round',
 breaks='the parsed length is shown when the length was asked for and missing when it was',
 demo='''
#include "h264_nal_unit_parser.h"
#include "w.h"
#include <string>
using namespace h264nal;
int main() {
  for (int k = 0; k < 4; k++) {
    ParsingOptions o;
    o.add_offset = false; o.add_checksum = false; o.add_resolution = false;
    o.add_length = k & 1; o.add_parsed_length = k & 2;
    uint8_t d[] = {0x09, 0xf0};
    H264BitstreamParserState st;
    auto u = H264NalUnitParser::ParseNalUnit(d, 2, &st, o);
    CHECK(u != nullptr);
    char* p = nullptr; size_t n = 0;
    FILE* f = open_memstream(&p, &n);
    u->fdump(f, 0, o);
    fclose(f);
    std::string t(p, n);
    CHECK((t.find(" parsed_length: ") != std::string::npos) == ((k & 2) != 0));
    CHECK((t.find(" length: ") != std::string::npos) == ((k & 1) != 0));
  }
  return 0;
}
'''),
]
