#!/usr/bin/env python3
"""Behaviour-preserving edits of the dump functions: each must be proved. usage: python3-vt tools/refactors_dump.py [names]"""
import os, re, shutil, subprocess, sys, tempfile
R = []


def r(name, tasks, f, *subs):
    R.append((name, tasks, f, subs))


HELP = '''#ifdef FDUMP_DEFINE
static void dump_field(FILE* outfp, int level, const char* name, uint32_t v) {
  fdump_indent_level(outfp, level);
  fprintf(outfp, "%s: %u", name, v);
}
static void dump_list(FILE* outfp, int level, const char* name,
                      const std::vector<uint32_t>& l) {
  fdump_indent_level(outfp, level);
  fprintf(outfp, "%s {", name);
  for (size_t i = 0; i < l.size(); i++) {
    fprintf(outfp, " %u", l[i]);
  }
  fputs(" }", outfp);
}
'''
FIELD = (r'  fdump_indent_level\(outfp, indent_level\);\n\s*fprintf\(outfp, "(\w+): %u",\s*(\w+)\);', r'  dump_field(outfp, indent_level, "\1", \2);')
LIST = (r'  fdump_indent_level\(outfp, indent_level\);\n\s*fprintf\(outfp, "(\w+) \{"\);\n\s*for \(const uint32_t& v : \w+\) \{\n\s*fprintf\(outfp, " %u", v\);\n\s*\}\n\s*fprintf\(outfp, " \}"\);', r'  dump_list(outfp, indent_level, "\1", \1);')
START = (r'#ifdef FDUMP_DEFINE\n', HELP)
for f, t in [('hrd_parameters', 'd.hrd_parameters'), ('dec_ref_pic_marking', 'd.dec_ref_pic_marking'), ('vui_parameters', 'd.vui_parameters'), ('pps', 'd.pps'), ('sps', 'd.sps_data'),
             ('slice_header', 'd.slice_header'), ('nal_unit_header', 'd.nal_unit_header'), ('slice_header_in_scalable_extension', 'd.slice_header_in_scalable_extension'),
             ('ref_pic_list_modification', 'd.ref_pic_list_modification'), ('sps_extension', 'd.sps_extension'), ('sps_svc_extension', 'd.sps_svc_extension')]:
    r('helpers-' + f, [t], 'h264_%s_parser.cc' % f, FIELD, LIST, START)
FOR = (r'for \(const u?int32_t& v : (\w+)\) \{\n(\s*)fprintf\(outfp, " (%[ui])", v\);', r'for (size_t k = 0; k != \1.size(); ++k) {\n\2fprintf(outfp, " \3", \1[k]);')
IT = (r'for \(const (u?int32_t)& v : (\w+)\) \{\n(\s*)fprintf\(outfp, " (%[ui])", v\);', r'for (auto it = \2.begin(); it != \2.end(); ++it) {\n\3fprintf(outfp, " \4", *it);')
PUTC = (r'fprintf\(outfp, "\}"\);', "fputc('}', outfp);")
PRI = (r'"(\w+): %u",', r'"\1: %" PRIu32,')
INC = (r'#include <cstdio>\n', '#include <cinttypes>\n#include <cstdio>\n')
SPLIT = (r'fprintf\(outfp, "(\w+): %([ui])",\s*(\w+)\);', r'fprintf(outfp, "\1");\n  fprintf(outfp, ": ");\n  fprintf(outfp, "%\2", \3);')
for f, t in [('hrd_parameters', 'd.hrd_parameters'), ('pps', 'd.pps'), ('sps', 'd.sps_data'), ('pred_weight_table', 'd.pred_weight_table'), ('slice_header', 'd.slice_header')]:
    r('index-loops-' + f, [t], 'h264_%s_parser.cc' % f, FOR, PUTC)
    r('iterators-' + f, [t], 'h264_%s_parser.cc' % f, IT)
    r('split-' + f, [t], 'h264_%s_parser.cc' % f, SPLIT)
    r('pri-' + f, [t], 'h264_%s_parser.cc' % f, PRI, INC)
r('payload-switch', ['d.nal_unit_payload'], 'h264_nal_unit_payload_parser.cc')
INNER = (r'  indent_level = indent_level_incr\(indent_level\);', '  const int outer = indent_level;\n  indent_level = (outer == -1) ? -1 : outer + 1;')
OUTER = (r'  indent_level = indent_level_decr\(indent_level\);\n', '  indent_level = outer;\n')
for f, t in [('hrd_parameters', 'd.hrd_parameters'), ('rtp_stapa', 'd.rtp_stapa'), ('nal_unit', 'd.nal_unit'), ('rtp', 'd.rtp')]:
    r('inner-' + f, [t], 'h264_%s_parser.cc' % f, INNER, OUTER)
r('indent-loop', ['d.indent_level'], 'h264_common.cc', (r'  fprintf\(outfp, "%\*s", 2 \* indent_level, ""\);', '  for (int i = 0; i < indent_level; ++i) {\n    fprintf(outfp, "  ");\n  }'))
r('indent-else', ['d.indent_level'], 'h264_common.cc', (r'    fprintf\(outfp, " "\);\n    return;\n  \}\n  fprintf\(outfp, "\\n"\);\n  fprintf\(outfp, "%\*s", 2 \* indent_level, ""\);', '    fputc(\' \', outfp);\n  } else {\n    fprintf(outfp, "\\\\n%*s", indent_level * 2, "");\n  }'))
r('stapa-range', ['d.rtp_stapa'], 'h264_rtp_stapa_parser.cc', (r'unsigned int i = 0; i <', 'size_t i = 0; i <'))
r('bitstream-index', ['d.bitstream'], 'h264_bitstream_parser.cc', (r'for \((?:const )?auto& nal_unit : nal_units\) \{', 'for (size_t n = 0; n < nal_units.size(); ++n) {\n    const auto& nal_unit = nal_units[n];'))


def main():
    pick = sys.argv[1:]
    for name, tasks, f, subs in R:
        if pick and not any(p in name for p in pick) or not subs:
            continue
        d = tempfile.mkdtemp(prefix='vprf')
        try:
            for x in ('src', 'include'):
                shutil.copytree('/repo/' + x, d + '/' + x)
            p = d + '/src/' + f
            s = open(p).read()
            for a, b in subs:
                s, n = re.subn(a, b, s, count=1 if a.startswith('#') else 0)
                if not n:
                    print('  no match', name, a[:50])
            open(p, 'w').write(s)
            o = subprocess.run(['python3-vt', '/verif/vp/tr.py', '-j', '4'] + tasks, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VP_REPO=d)).stdout
            print('%-42s %s' % (name, ' | '.join(l.strip()[:150] for l in o.strip().splitlines()[-2:])), flush=True)
        finally:
            shutil.rmtree(d)


main()
