"""The properties, the contracts (tasks) each one rests on, and what is trusted.
`python3 vp/props.py` rewrites properties.jsonl and MANIFEST.json from this file."""
import json
import os

TRUSTED = [
    'clang 18 front end and the sroa/simplifycfg/always-inline passes (source to the LLVM IR that is verified)',
    'the verification condition generator in /verif/vp (ll.py, engine.py, product.py, verify.py, terms.py)',
    'z3',
    'contracts of std::vector, std::map, std::unordered_map, std::unique_ptr, std::shared_ptr, std::string (vp/stubs and engine.py)',
    'contracts of libc/libm functions (fprintf, snprintf, memcpy, ntohl, ceil, log2 as exact rationals)',
]
ASSUMPTIONS = [
    'allocation never fails; exceptions are not modelled',
    'input buffers have at most 2^32-1 bytes, the documented limit of the bit reader (its constructor asserts it)',
    'doubles in ceil(log2()) width computations are treated as exact rationals',
    'asserts are on, as in the build under test',
    'parameter sets held in a parser state were put there by the library (their data invariants are proved where they are stored)',
]

PARSER_WHY = 'The suite parses a few captured or hand-made byte strings; the guarantee quantifies over every bit string, so over every combination of flags, ranges, loop counts and truncation points.'

PROPS = {}
READS = ('@reader', '@golomb', '@rbsp')


def P(pid, title, statement, over, qtext, why, files, mechanism, tasks, note, bounded=(), assumptions=(), technique=None, uses=READS, kinds=None):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, tasks=tasks, note=note,
                      bounded=list(bounded), assumptions=list(assumptions), technique=technique, uses=list(uses), kinds=kinds)


P('C01', 'Sequence parameter sets decode exactly as the standard defines',
  'For every bit string, parsing a sequence parameter set (with scaling lists, cropping, VUI and HRD parameters) either returns an object in which every field, list length and list element equals the value the H.264 syntax tables assign to those bits, with defaults where a field is absent, and the reader positioned after the last bit consumed, or returns nothing. It returns nothing exactly when the bits run out or a value is outside the range the library documents (identifiers, bit depths, picture size, crop window, HRD counts, VUI limits).',
  ['inputs'], 'every byte string, every start position in it', PARSER_WHY,
  ['src/h264_sps_parser.cc', 'src/h264_vui_parameters_parser.cc', 'src/h264_hrd_parameters_parser.cc'],
  'one contract per parsing function: the syntax table as ghost program, every read, branch, list update, result field and rejection matched to it',
  ['hrd_parameters+', 'vui_parameters+', 'sps_data+', 'sps+'], 'all loops by inferred relational invariants, no bound')

P('C02', 'Subset SPS, SPS extension and SVC extension decode as the standard defines',
  'For every bit string and chroma array type, parsing a sequence parameter set extension, an SVC sequence parameter set extension or a subset sequence parameter set either returns an object whose every field equals the value the syntax tables assign to those bits, or returns nothing because the bits ran out or a value is out of range. The extension parsed inside a subset parameter set is the one its profile selects, interpreted with the chroma array type of the same parameter set.',
  ['inputs'], 'every byte string and every chroma array type argument', PARSER_WHY,
  ['src/h264_subset_sps_parser.cc', 'src/h264_sps_extension_parser.cc', 'src/h264_sps_svc_extension_parser.cc'],
  'ghost syntax tables per function; callee contracts at call sites',
  ['sps_extension+', 'sps_svc_extension+', 'subset_sps+', 'sps_data'], 'bodies of the SVC/MVC VUI and MVC/3D extensions are not parsed by the library and are outside the contract')

P('C03', 'Picture parameter sets decode exactly as the standard defines',
  'For every bit string and chroma format, parsing a picture parameter set either returns an object in which every field, slice group list and scaling list equals the value the H.264 syntax table assigns to those bits, with the optional tail read exactly when more payload data is present, or returns nothing because the bits ran out or a value is out of range.',
  ['inputs'], 'every byte string and chroma format', PARSER_WHY,
  ['src/h264_pps_parser.cc'], 'ghost syntax table, including slice group maps of any documented size and the scaling list loops',
  ['pps+'], 'unbounded loops by invariants')

P('C04', 'Slice headers decode under exactly the parameter sets they reference',
  'For every bit string, NAL unit type, reference indicator and set of stored parameter sets, parsing a slice header either returns an object in which every field, reference list modification, prediction weight and reference marking command equals what the syntax tables assign to those bits under the picture parameter set the slice names and the sequence parameter set that one names, or returns nothing. It returns nothing exactly when a referenced parameter set is missing, the bits run out, a value is out of range, or the slice uses a structure the library does not implement.',
  ['inputs', 'histories'], 'every byte string, NAL unit type and parameter set store', PARSER_WHY + ' The slice tests use one or two parameter sets, so widths and conditions taken from the parameter sets are hardly varied.',
  ['src/h264_slice_header_parser.cc', 'src/h264_ref_pic_list_modification_parser.cc', 'src/h264_pred_weight_table_parser.cc', 'src/h264_dec_ref_pic_marking_parser.cc', 'src/h264_slice_layer_without_partitioning_rbsp_parser.cc'],
  'ghost syntax tables; parameter set store as a symbolic heap shared by code and ghost',
  ['ref_pic_list_modification+', 'dec_ref_pic_marking+', 'pred_weight_table+', 'slice_header+', 'slice_layer_without_partitioning_rbsp+'], 'arbitrary parameter set store')

P('C05', 'SVC NAL header extensions, prefix units and scalable slices decode exactly',
  'For every bit string, NAL unit header and set of stored parameter sets, parsing an SVC NAL unit header extension, a prefix NAL unit or a slice in scalable extension either returns objects whose every field equals what the scalable syntax tables assign to those bits under the picture parameter set and subset sequence parameter set the slice references, or reports failure. Slices whose subset parameter set or SVC extension is missing are never decoded under other parameters.',
  ['inputs', 'histories'], 'every byte string, NAL unit header and parameter set store', PARSER_WHY,
  ['src/h264_nal_unit_header_svc_extension_parser.cc', 'src/h264_slice_header_in_scalable_extension_parser.cc', 'src/h264_slice_layer_extension_rbsp_parser.cc', 'src/h264_prefix_nal_unit_parser.cc'],
  'ghost syntax tables; shared symbolic parameter set store',
  ['nal_unit_header_svc_extension+', 'slice_header_in_scalable_extension+', 'slice_layer_extension_rbsp+', 'prefix_nal_unit_svc+', 'prefix_nal_unit_rbsp+', 'nal_unit_header+'],
  'decoded reference base picture marking is reported unimplemented by the library')

P('C06', 'Each NAL unit is parsed as its own type and reports its size truthfully',
  'For every NAL unit byte string, the header fields equal the header bits, exactly the payload structure that the unit type selects is present in the result and every other payload structure is absent, a payload that cannot be parsed leaves its structure absent without losing the header, and the reported parsed length is the number of bytes the parser consumed. Structures the library does not implement raise its unimplemented counter instead of being silently misparsed.',
  ['inputs', 'histories'], 'every byte string, parameter set store and option setting', PARSER_WHY,
  ['src/h264_nal_unit_parser.cc', 'src/h264_nal_unit_header_parser.cc', 'src/h264_nal_unit_payload_parser.cc'],
  'dispatch contract over the payload parsers\' contracts; calls to the unimplemented report are ghost events',
  ['nal_unit_header+', 'nal_unit_type', 'nal_unit_payload+', 'nal_unit_payload_for_type', 'nal_unit+', 'nal_unit_unescaped', 'f.is_payload_parsed', 'u.counter'], 'payload parsers by contract')

P('C07', 'The parameter set store always holds the latest valid set of each id',
  'After any history of parsed NAL units, looking up a sequence, picture or subset sequence parameter set id yields the last successfully parsed set of that kind with that id, and ids never successfully parsed yield nothing. Parsing any other kind of NAL unit, or failing to parse one, changes no stored parameter set, and a set of one kind never replaces one of another kind.',
  ['histories', 'inputs'], 'every sequence of NAL units', 'Tests feed one short stream; overwriting, interleaving of kinds and failed re-transmissions over arbitrary histories are not sampled.',
  ['src/h264_nal_unit_payload_parser.cc', 'src/h264_bitstream_parser_state.cc', 'src/h264_slice_header_parser.cc'],
  'each parse step has a frame condition over the whole store (one entry updated, all else equal, nothing on failure); the history statement follows by induction over steps',
  ['nal_unit_payload+', 'nal_unit_payload_for_type', 'nal_unit', 'slice_header', 'slice_header_in_scalable_extension', 'slice_layer_without_partitioning_rbsp', 'slice_layer_extension_rbsp', 'prefix_nal_unit_rbsp', 'f.get_sps', 'f.get_pps', 'f.get_subset_sps'], 'store as symbolic arrays; frame obligations at every call and return')

P('C08', 'RTP packets are split into exactly the NAL units they carry',
  'For every RTP payload, a single NAL unit packet yields that NAL unit, an aggregation packet yields the aggregation header and one size, header and payload per aggregated unit in order, and a fragmentation packet yields its indicator, start/end/reserved bits and type, with a payload parsed only on the starting fragment and as the type the fragment header names. Packet types above the single-unit range that are not supported yield none of these, a size reaching past the packet is rejected, and parameter sets carried in any of them are stored.',
  ['inputs', 'histories'], 'every packet byte string and parameter set store', PARSER_WHY,
  ['src/h264_rtp_parser.cc', 'src/h264_rtp_single_parser.cc', 'src/h264_rtp_stapa_parser.cc', 'src/h264_rtp_fua_parser.cc'],
  'ghost packet layout; payload parsers by contract',
  ['rtp_single+', 'rtp_stapa+', 'rtp_fua+', 'rtp+'], 'aggregated sizes are compared with the de-emulated packet as the library does (known finding)')

P('C09', 'Byte streams are split into every NAL unit, in order, with true offsets',
  'For every byte stream, the parsed units are exactly the units delimited by three- or four-byte start codes, in stream order, minus those whose header cannot be parsed; each reported offset and length delimits that unit\'s bytes in the stream, and each unit is parsed from exactly those bytes with the parameter sets stored by the units before it. Parsing with a caller-supplied state and parsing in one shot agree when the state starts empty.',
  ['inputs', 'histories'], 'every byte string, initial store and option setting', PARSER_WHY,
  ['src/h264_bitstream_parser.cc'], 'loop contract over the unit list; the start code search has its own contract',
  ['bitstream', 'bitstream_one_shot', 'g.find_nalus'], 'start code search proved with an inductive next-start-code function')

P('C10', 'Length-prefixed streams are split exactly at their length fields',
  'For every buffer and length-field size, the parsed units are those obtained by repeatedly reading a big-endian length field and then that many bytes, stopping at a zero length or at a field or unit that does not fit in the remaining bytes; each reported offset and length delimits that unit\'s bytes. The indexing of four-byte length prefixes lists every complete unit the same way, empty units included. No byte outside the buffer is ever read.',
  ['inputs'], 'every byte string and length-field size', PARSER_WHY,
  ['src/h264_bitstream_parser.cc'], 'loop contract over the buffer position',
  ['bitstream_nalu_length', 'bitstream_nalu_length_one_shot', 'g.find_nalus_explicit'], 'length field size unrestricted')

P('C11', 'The NAL unit checksum is the documented sum and disturbs nothing',
  'For every buffer and start position, the checksum of a NAL unit is the ones-complement of the folded sum of its remaining bytes taken as big-endian 32-bit words with the last word zero padded, in network byte order, and computing it leaves the reader where it was. Turning the checksum on or off changes no other field of the result.',
  ['inputs', 'configurations'], 'every byte string, start position and option setting', 'Tests compare a checksum or two of fixed buffers, so word and tail boundaries and carries are not covered.',
  ['src/h264_common.cc', 'src/h264_nal_unit_parser.cc'], 'ghost summation loop in lockstep with the code, reader position postcondition',
  ['nalu_checksum', 'nal_unit+', 'nal_unit_unescaped'], 'sum over arbitrarily many words')

SAFETY = ['bounds', 'nonnull', 'ub', 'assert', 'termination', 'dangling', 'uninit']

P('C12', 'No input crashes, hangs or misbehaves the library',
  'For every byte string given to any parsing, searching or bit-level entry point, with any parameter sets stored before, the call returns, and so does dumping or querying the object it returned: it reads no byte outside the buffer it was given, touches no invalid object or list element, trips no assertion, executes no undefined arithmetic (signed overflow, oversized shift, division by zero, out-of-range float conversion) and its loops end.',
  ['inputs', 'histories'], 'every byte string, start position, parameter set store and option setting', 'Crashes hide in inputs nobody wrote down; the fuzz targets of the repository sample them, a proof covers all.',
  ['src/', 'include/'], 'safety obligations at every access, arithmetic operation and loop of every function under contract; sanitizer checks of clang compiled in as obligations',
  ['@all'], 'a refuted functional obligation leaves this property to the sanitized bounded search', uses=(), kinds=SAFETY)

P('C13', 'The bit reader returns exactly the requested bits and keeps its place',
  'For every buffer and every position in it, reading or peeking up to 32 or 64 bits, or an 8, 16 or 32 bit integer, succeeds exactly when that many bits remain and yields those bits as a big-endian number; reads, skips and seeks move the position by exactly what they consumed, and a failed call moves nothing and invents no value. Reading a non-symmetric value bounded by any count decodes exactly the code its writer emits, and a value never reaches its bound.',
  ['inputs', 'histories'], 'every buffer, position, width and bound', 'Tests read a handful of fixed patterns; bit offset, width and distance to the end of the buffer combine freely.',
  ['src/rtc_common.cc', 'include/rtc_common.h'], 'byte-level contract per bit offset, widths and buffers symbolic',
  ['@reader', '@nonsym'], 'one proof per bit offset 0..7, everything else symbolic', uses=())

P('C14', 'Exponential-Golomb codes decode per the standard, for every code',
  'For every buffer and position, reading an unsigned or signed exponential-Golomb value succeeds exactly when a complete code with at most 31 leading zero bits is present, yields the value of the standard\'s table, and consumes exactly the code; otherwise it fails and leaves the position unchanged.',
  ['inputs'], 'every buffer and position', 'There are 2^32 codes at every alignment and truncation; tests sample a few.',
  ['src/rtc_common.cc'], 'ghost decoding loop in lockstep with the code; lemmas that the code is invertible',
  ['@golomb'], 'uses the reader contracts', uses=('@reader',))

P('C15', 'What the bit writer writes, the bit reader reads back',
  'For every buffer, position and value, writing a fixed-width, exponential-Golomb or non-symmetric value succeeds exactly when the code fits in the remaining bits, changes exactly those bits and no others, and advances by exactly the code\'s length; reading at the same place then returns the value written. A failed write changes nothing, and the advertised size of a non-symmetric value is the size written.',
  ['inputs', 'histories'], 'every buffer, position, value and width', 'Round trips in the tests cover chosen values at chosen offsets.',
  ['src/rtc_common.cc'], 'byte-level contracts of the writer over the same bit function as the reader, plus inversion lemmas',
  ['@writer'], 'one proof per bit offset 0..7', uses=('@reader', '@golomb', '@nonsym'))

P('C16', 'Emulation prevention and trailing bits are handled exactly as the standard says',
  'For every byte string, unescaping drops exactly the 0x03 bytes that follow two zero bytes of the payload and keeps everything else in order; the trailing-bits check accepts exactly a one bit followed by zero bits up to the next byte boundary; more payload data is reported exactly when more than eight bits remain or the remaining bits are not a stop bit and zeros, and the byte position reported to callers is the number of bytes touched so far.',
  ['inputs'], 'every byte string and position', 'Runs of zeros around the escape byte and the end of the buffer occur in few test vectors.',
  ['src/h264_common.cc'], 'ghost unescape loop in lockstep with the code; relational contracts of the trailing-bits helpers',
  ['@rbsp'], 'more_rbsp_data as the library defines it (last byte only)', uses=('@reader',))

P('C17', 'Picture size, profile, frame rate and type names follow from the parsed fields',
  'For every parsed sequence parameter set, the reported width and height are the macroblock size of the frame minus the cropping rectangle in units of the chroma format and field coding, or no size at all when nothing is left; the chroma array type, chroma subsampling and crop units, the profile chosen from the profile number and constraint flags, and the frame rate of the timing information equal the values the standard\'s equations assign to the parsed fields. NAL unit types are classified and named, and profiles named, as their numbers define.',
  ['inputs'], 'every combination of field values a parser can return, every type number', 'Tests look at one or two parameter sets; odd chroma formats, interlaced cropping and constraint flags multiply.',
  ['src/h264_sps_parser.cc', 'src/h264_vui_parameters_parser.cc', 'src/h264_common.cc'],
  'contract per deriving function over an arbitrary object satisfying the data invariants its parser establishes',
  ['@derived', 'sps_data', 'sps'], 'frame rate: exact ratio, rounded once to float', uses=())

P('C18', 'The textual dump shows every parsed field with its own value',
  'For every object a parser can return, every indentation level and every option setting, dumping it writes to the given stream, and nowhere else, each present structure as its name and a brace pair, and within it, in syntax order, one name and decimal value per field that the syntax makes present, the value being that of the named field and negative where the field is, lists with every element in order, sub-structures nested one level deeper, and offset, length, parsed length, checksum and picture size exactly when the options ask for them. Lines are separated by one blank when indentation is off (level -1) and otherwise by a new line and two blanks per level. Sub-structures that are absent are left out, never touched.',
  ['inputs', 'configurations'], 'every object satisfying the invariants its parser establishes, every indentation level, every option setting',
  'No test compares a dump; the command line tool and every user of fdump() read values from this text.',
  ['src/h264_sps_parser.cc', 'src/h264_slice_header_parser.cc', 'src/h264_nal_unit_parser.cc', 'src/h264_common.cc'],
  'one contract per fdump function: the text as a ghost sequence of characters, values and sub-structures, matched call by call to what is written (format strings interpreted, values compared as integers with the sign of the conversion)',
  ['@dumps'], 'objects of any size; the indentation level is at most 2^20', uses=('f.profile_name', 'f.resolution'),
  assumptions=['indentation level between -1 and 2^20', 'an aggregation packet has fewer than 2^32 units (a packet of at most 2^32-1 bytes holds at most 2^31)'])

GENERAL = ['bad inputs never crash']


def level_note(p):
    return p['note']


TECH = 'contract-based deductive verification: own VC generator over the LLVM IR of /repo (clang 18), ghost-program contracts, loop invariants by relational inference, z3'


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for pid, p in PROPS.items():
            f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': p['files'][0]}]}}) + '\n')
        for pid, p in NOT_APPLICABLE.items():
            f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                                'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': p['mechanism'], 'where': p['files'][0]}]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [{'property': k, 'reason': p['reason']} for k, p in NOT_APPLICABLE.items()]}
    for pid, p in PROPS.items():
        m['checks'].append({'property': pid, 'quick_cmd': 'python3-vt check.py %s quick' % pid, 'thorough_cmd': 'python3-vt check.py %s thorough' % pid,
                            'technique': p['technique'] or TECH, 'level': 'proof', 'level_note': p['note']})
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')


NOT_APPLICABLE = {
    'C30': dict(title='The command line tool reports parse failures in its exit status',
                statement='For every input file and option combination, the command line tool exits with status zero exactly when the file was read and parsed, and never writes outside the output it was asked for.',
                over=['inputs', 'configurations'], qtext='every file and option combination', why='No test runs the tool.',
                files=['tools/h264nal.cc', 'src/h264_utils.cc'], mechanism='main program: option parsing, file input, dump',
                reason='main() is dominated by getopt, stdio and process exit, all outside any contract the verifier could check; it would be a proof about assumed libc behaviour'),
}

if __name__ == '__main__':
    main()
