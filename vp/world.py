"""Builds the specification world: the spec text plus one generated contract
per (data, length) entry point of a parser: unescape, then parse the bits."""
import os
import spec

HERE = os.path.dirname(os.path.abspath(__file__))

# procedures whose class also has a byte-buffer entry point that unescapes first
WRAPPED = ['hrd_parameters', 'vui_parameters', 'sps_data', 'sps', 'pps', 'sps_extension', 'sps_svc_extension', 'subset_sps',
           'ref_pic_list_modification', 'dec_ref_pic_marking', 'pred_weight_table', 'slice_header',
           'nal_unit_header_svc_extension', 'nal_unit_header', 'slice_header_in_scalable_extension',
           'slice_layer_without_partitioning_rbsp', 'slice_layer_extension_rbsp', 'prefix_nal_unit_svc', 'prefix_nal_unit_rbsp',
           'nal_unit_payload', 'nal_unit', 'rtp_single', 'rtp_stapa', 'rtp_fua', 'rtp']


def wrapper_text(w):
    out = []
    for n in WRAPPED:
        p = w.procs[n]
        for a in ('modifies', 'requires'):
            if a in p.attrs:
                out.append('@%s(%s)' % (a, ', '.join('%r' % x for x in p.attrs[a])))
        for a in ('never_fails',):
            if a in p.attrs:
                out.append('@' + a)
        fn = p.fn.replace('(BitBuffer*', '(unsigned char const*, unsigned long')
        out.append('@impl(%r, %r)' % (fn, p.result))
        ps = ', '.join('%s: %s' % (a, repr(t) if ':' in t or t[0].isupper() else t) for a, t in p.params)
        out.append('def %s_bytes(%s):' % (n, ps))
        out.append('    bitbuffer(unescape(data))')
        out.append('    return %s(%s)' % (n, ', '.join(a for a, t in p.params)))
    # the variant for input that carries no emulation prevention
    p = w.procs['nal_unit']
    out.append('@modifies(%s)' % ', '.join('%r' % x for x in p.attrs['modifies']))
    out.append('@impl("H264NalUnitParser::ParseNalUnitUnescaped(unsigned char const*, unsigned long, H264BitstreamParserState*, ParsingOptions)", %r)' % p.result)
    out.append('def nal_unit_unescaped(state: "H264BitstreamParserState", parsing_options: "ParsingOptions"):')
    out.append('    bitbuffer(data)')
    out.append('    return nal_unit(state, parsing_options)')
    return '\n'.join(out) + '\n'


def build():
    w = spec.World()
    w.load(open(os.path.join(HERE, 'specs', 'h264.spec')).read(), 'h264.spec')
    w.load(wrapper_text(w), 'wrappers')
    w.link()
    return w
