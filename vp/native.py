"""Native replay driver: generated C++ around /repo's own sources (ASan+UBSan),
executing parse steps read from stdin and dumping every field of the results."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
import dump
import irgen

CXX = irgen.BIN + 'clang++'
FL = ['-std=c++14', '-O1', '-g1', '-DFDUMP_DEFINE', '-DFPRINT_ERRORS', '-DRTP_DEFINE', '-w', '-fno-access-control',
      '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=alignment']


def inner(ty):
    m = re.match(r'std::(?:vector|unique_ptr|shared_ptr)<(?:struct |class )?(.*?)(?:, std::(?:allocator|default_delete).*)?>$', ty)
    if m:
        return m.group(1)
    m = re.match(r'std::(?:map|unordered_map)<[^,]*, (.*)>$', ty)
    if m:
        d = 0
        out = ''
        for c in m.group(1):
            if c == '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == ',' and d == 0:
                break
            out += c
        return out.strip()
    return None


def reach(T, lay, out):
    T = re.sub(r'^(struct|class) ', '', T)
    i = inner(T)
    if i:
        reach(i, lay, out)
        return
    if T not in lay or T in out:
        return
    out.append(T)
    for o, n, ty in lay[T]['fields']:
        reach(ty, lay, out)


PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <iostream>
#include <sstream>
#include <type_traits>
%s
using namespace h264nal;
static std::string O;
static void S(const char* s) { O += s; }
template <class T> typename std::enable_if<std::is_integral<T>::value && std::is_signed<T>::value>::type D(const T& v) { char b[32]; snprintf(b, sizeof b, "%%lld", (long long)v); O += b; }
template <class T> typename std::enable_if<std::is_integral<T>::value && !std::is_signed<T>::value>::type D(const T& v) { char b[32]; snprintf(b, sizeof b, "%%llu", (unsigned long long)v); O += b; }
template <class T> typename std::enable_if<std::is_enum<T>::value>::type D(const T& v) { D((long long)v); }
template <class T> typename std::enable_if<std::is_floating_point<T>::value>::type D(const T& v) { char b[64]; snprintf(b, sizeof b, "%%.17g", (double)v); O += b; }
template <class T> void D(const std::vector<T>& v);
template <class T> void D(const std::unique_ptr<T>& v);
template <class T> void D(const std::shared_ptr<T>& v);
template <class K, class V> void D(const std::map<K, V>& v);
template <class K, class V> void D(const std::unordered_map<K, V>& v);
template <class T, size_t N> void D(const T (&v)[N]);
static bool DM; static int DL; static unsigned DO_, DT; static std::string ID;
template <class T> void FD(const T&) {}
template <class F> void memdump(F f) { printf("P %%s\n", ID.c_str()); fflush(stdout); char* p = nullptr; size_t n = 0; FILE* m = open_memstream(&p, &n); f(m); fclose(m);
  S(",\"t\":\""); for (size_t i = 0; i < n; i++) { unsigned char c = p[i]; if (c == '"' || c == '\\' || c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%%04x", c); S(b); } else O += (char)c; } S("\""); free(p); }
'''
POST = r'''
template <class T> void D(const std::vector<T>& v) { S("["); for (size_t i = 0; i < v.size(); i++) { if (i) S(","); D(v[i]); } S("]"); }
template <class T> void D(const std::unique_ptr<T>& v) { if (v) D(*v); else S("null"); }
template <class T> void D(const std::shared_ptr<T>& v) { if (v) D(*v); else S("null"); }
template <class K, class V> void D(const std::map<K, V>& v) { S("{"); bool f = false; for (auto& e : v) { if (f) S(","); f = true; S("\""); D(e.first); S("\":"); D(e.second); } S("}"); }
template <class K, class V> void D(const std::unordered_map<K, V>& v) { D(std::map<K, V>(v.begin(), v.end())); }
template <class T, size_t N> void D(const T (&v)[N]) { S("["); for (size_t i = 0; i < N; i++) { if (i) S(","); D(v[i]); } S("]"); }
struct Buf {
  uint8_t* p; size_t n;
  explicit Buf(const std::string& h) { n = h == "-" ? 0 : h.size() / 2; p = (uint8_t*)malloc(n ? n : 1); if (!n) { free(p); p = (uint8_t*)malloc(0); }
    for (size_t i = 0; i < n; i++) p[i] = (uint8_t)strtoul(h.substr(2 * i, 2).c_str(), 0, 16); }
  ~Buf() { free(p); }
};
static unsigned long long N(const std::string& s) { return s[0] == '-' ? (unsigned long long)strtoll(s.c_str(), 0, 10) : strtoull(s.c_str(), 0, 10); }
static ParsingOptions PO(const std::string& s) { ParsingOptions o; unsigned m = N(s); o.add_offset = m & 1; o.add_length = m & 2; o.add_parsed_length = m & 4; o.add_checksum = m & 8; o.add_resolution = m & 16; return o; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string t; std::istringstream i(s); while (std::getline(i, t, c)) r.push_back(t); return r; }
static void pos(BitBuffer& b) { size_t x, y; b.GetCurrentOffset(&x, &y); D((unsigned long long)x * 8 + y); }
static void bbops(const std::string& hex, const std::string& ops) {
  Buf d(hex); BitBuffer b(d.p, d.n);
  S("["); bool f = false;
  for (auto& o : split(ops, ',')) {
    auto a = split(o, ':'); bool ok = false; unsigned long long v = 0; long long sv = 0; bool sg = false;
    uint32_t u32 = 0; uint64_t u64 = 0; uint16_t u16 = 0; uint8_t u8 = 0; int32_t i32 = 0;
    if (a[0] == "u32") { ok = b.ReadBits((size_t)N(a[1]), u32); v = u32; }
    else if (a[0] == "u64") { ok = b.ReadBits((size_t)N(a[1]), u64); v = u64; }
    else if (a[0] == "p32") { ok = b.PeekBits((size_t)N(a[1]), u32); v = u32; }
    else if (a[0] == "p64") { ok = b.PeekBits((size_t)N(a[1]), u64); v = u64; }
    else if (a[0] == "b8") { ok = b.ReadUInt8(u8); v = u8; }
    else if (a[0] == "b16") { ok = b.ReadUInt16(u16); v = u16; }
    else if (a[0] == "b32") { ok = b.ReadUInt32(u32); v = u32; }
    else if (a[0] == "ue") { ok = b.ReadExponentialGolomb(u32); v = u32; }
    else if (a[0] == "se") { ok = b.ReadSignedExponentialGolomb(i32); sv = i32; sg = true; }
    else if (a[0] == "ns") { ok = b.ReadNonSymmetric((uint32_t)N(a[1]), u32); v = u32; }
    else if (a[0] == "seek") { ok = b.Seek((size_t)N(a[1]), (size_t)N(a[2])); }
    else if (a[0] == "skip") { ok = b.ConsumeBits((size_t)N(a[1])); }
    else if (a[0] == "skipb") { ok = b.ConsumeBytes((size_t)N(a[1])); }
    else if (a[0] == "rem") { ok = true; v = b.RemainingBitCount(); }
    else if (a[0] == "more") { ok = more_rbsp_data(&b); }
    else if (a[0] == "trail") { ok = rbsp_trailing_bits(&b); }
    else if (a[0] == "align") { ok = byte_aligned(&b); }
    else if (a[0] == "cur") { ok = true; v = get_current_offset(&b); }
    if (f) S(","); f = true;
    S("["); D((int)ok); S(","); if (!ok) S("null"); else if (sg) D(sv); else D(v); S(","); pos(b); S("]");
  }
  S("]");
}
static void wrops(const std::string& hex, const std::string& ops) {
  Buf d(hex); BitBufferWriter b(d.p, d.n);
  S("["); bool f = false;
  for (auto& o : split(ops, ',')) {
    auto a = split(o, ':'); unsigned long long v = 0; bool ok = false;
    if (a[0] == "w") ok = b.WriteBits(N(a[1]), (size_t)N(a[2]));
    else if (a[0] == "w8") ok = b.WriteUInt8((uint8_t)N(a[1]));
    else if (a[0] == "w16") ok = b.WriteUInt16((uint16_t)N(a[1]));
    else if (a[0] == "w32") ok = b.WriteUInt32((uint32_t)N(a[1]));
    else if (a[0] == "ue") ok = b.WriteExponentialGolomb((uint32_t)N(a[1]));
    else if (a[0] == "se") ok = b.WriteSignedExponentialGolomb((int32_t)N(a[1]));
    else if (a[0] == "ns") ok = b.WriteNonSymmetric((uint32_t)N(a[1]), (uint32_t)N(a[2]));
    else if (a[0] == "nsz") { ok = true; v = b.SizeNonSymmetricBits((uint32_t)N(a[1]), (uint32_t)N(a[2])); }
    else if (a[0] == "seek") ok = b.Seek((size_t)N(a[1]), (size_t)N(a[2]));
    else if (a[0] == "skip") ok = b.ConsumeBits((size_t)N(a[1]));
    if (f) S(","); f = true;
    S("["); D((int)ok); S(","); D(v); S(","); pos(b); S(",\"");
    for (size_t i = 0; i < d.n; i++) { char t[4]; snprintf(t, 4, "%02x", d.p[i]); S(t); }
    S("\"]");
  }
  S("]");
}
'''


def setters(T, lay, o, pre, out, deep=True):
    """assignments of fields of object o (type T) from key k, value v"""
    for off, n, ty in lay[T]['fields']:
        i = inner(ty)
        if '.' in n:
            continue
        if ty.startswith('std::map') or ty.startswith('std::unordered_map'):
            j = inner(i) if i else None
            if j:
                out.append('    if (k.compare(0, %d, "%s%s.") == 0) { %s.%s[N(k.substr(%d))] = std::make_shared<%s>(); continue; }' % (len(pre + n) + 1, pre, n, o, n, len(pre + n) + 1, j))
        elif ty.startswith('std::unique_ptr') or ty.startswith('std::shared_ptr'):
            mk = 'std::make_unique' if 'unique' in ty else 'std::make_shared'
            out.append('    if (k == "%s%s") { %s.%s = %s<%s>(); continue; }' % (pre, n, o, n, mk, i))
            if deep and i in lay and n == 'sps_data':
                out.append('    if (!%s.%s) %s.%s = %s<%s>();' % (o, n, o, n, mk, i))
                setters(i, lay, '(*%s.%s)' % (o, n), pre + n + '.', out, False)
        elif i is None and re.match(r'(u?int(8|16|32|64)_t|bool|_Bool|unsigned int|int|size_t)$', ty):
            out.append('    if (k == "%s%s") { %s.%s = (decltype(%s.%s))N(v); continue; }' % (pre, n, o, n, o, n))


def fun_steps(lay, out, have):
    import fun
    for p in fun.FW.procs.values():
        if p.fn not in have:
            continue
        out.append('  else if (c == "f.%s") {' % p.name)
        ps = list(p.params)
        call = p.fn[:p.fn.index('(')]
        if ps and ps[0][0] == 'this':
            T = ps[0][1]
            out.append('   %s o;' % T)
            out.append('   for (auto& kv : split(a[2], \',\')) { size_t e = kv.find(\'=\'); if (e == std::string::npos) continue; std::string k = kv.substr(0, e), v = kv.substr(e + 1); (void)v;')
            setters(T, lay, 'o', '', out)
            out.append('   }')
            call = 'o.' + call.split('::')[-1]
            ps = ps[1:]
        args, outs, text = [], [], None
        for j, (n, ty) in enumerate(ps):
            if ty == 'out':
                out.append('   int %s_ = 77;' % n)
                args.append('a[%d] == "n" ? nullptr : &%s_' % (3 + j, n))
                outs.append(n + '_')
            elif ty == 'str':
                out.append('   std::string r; ')
                args.append('r')
                text = 'r'
            elif 'ProfileType' in p.fn:
                args.append('(ProfileType)N(a[%d])' % (3 + j))
            else:
                args.append('N(a[%d])' % (3 + j))
        if text:
            out.append('   %s(%s);' % (call, ', '.join(args)))
        else:
            out.append('   auto r = %s(%s);' % (call, ', '.join(args)))
        kind = str(p.code)
        out.append('   S("[");')
        if 'name_of' in kind:
            out.append('   S("\\""); S(r.c_str()); S("\\"");')
        elif 'float_of' in kind:
            out.append('   uint32_t fb; memcpy(&fb, &r, 4); D(fb);')
        elif 'mapin' in kind:
            m = re.search(r"'(sps|pps|subset_sps)'", kind).group(1)
            out.append('   bool hit = false; for (auto& e : o.%s) if (r && e.second == r) { hit = true; D(e.first); } if (!hit) S(r ? "-1" : "null");' % m)
        else:
            out.append('   D(r);')
        for x in outs:
            out.append('   S(","); D(%s);' % x)
        out.append('   S("]");')
        out.append('  }')


def dumps(have, out):
    """text of a parsed object"""
    for p in dump.DW.procs.values():
        if 'dump' not in p.attrs or p.fn not in have:
            continue
        ex = ''.join(', ' + ('DT' if n == 'type' else 'PO(std::to_string(DO_))') for n, _ in p.params[2:])
        for ptr in ('unique', 'shared'):
            out.append('void FD(const std::%s_ptr<%s>& r) { if (r) memdump([&](FILE* m) { r->fdump(m, DL%s); }); }' % (ptr, p.T, ex))


def generate(world, lay, procs, have):
    types = []
    for p in procs:
        if p.result:
            reach(p.result, lay, types)
    reach('H264BitstreamParserState', lay, types)
    reach('H264BitstreamParser::NaluIndex', lay, types)
    hs = sorted(f for f in os.listdir(irgen.REPO + '/include') if f.endswith('.h') and f != 'h264_utils.h')
    out = [PRE % '\n'.join('#include "%s"' % h for h in hs)]
    for T in types:
        out.append('void D(const %s& v);' % T)
    for T in types:
        out.append('void D(const %s& v) { S("{");' % T)
        for i, (o, n, ty) in enumerate(lay[T]['fields']):
            out.append('  S("%s\\"%s\\":"); D(v.%s);' % (',' if i else '', n, n))
        out.append('  S("}"); }')
    out.append(POST)
    dumps(have, out)
    out.append('int main() { std::string line; auto st = std::make_shared<H264BitstreamParserState>(); std::string last;')
    out.append(' while (std::getline(std::cin, line)) { auto a = split(line, \' \'); if (a.empty()) continue; const std::string& id = a[0]; std::string c = a[1]; ID = id;')
    out.append('  auto dm = split(c, \'!\'); DM = dm.size() == 4; if (DM) { c = dm[0]; DL = (int)N(dm[1]); DO_ = N(dm[2]); DT = N(dm[3]); }')
    out.append('  if (c == "new") { st = std::make_shared<H264BitstreamParserState>(); continue; }')
    out.append('  printf("B %s\\n", id.c_str()); fflush(stdout); O.clear(); reset_unimplemented_count();')
    out.append('  S("{\\"r\\":");')
    out.append('  if (c == "state") { D(*st); }')
    out.append('  else if (c == "bb") { bbops(a[2], a[3]); }')
    out.append('  else if (c == "wr") { wrops(a[2], a[3]); }')
    out.append('  else if (c == "unescape") { Buf d(a[2]); D(UnescapeRbsp(d.p, d.n)); }')
    out.append('  else if (c == "nutype") { Buf d(a[2]); NalUnitType t = (NalUnitType)99; bool r = H264NalUnitHeaderParser::GetNalUnitType(d.p, d.n, t); S("["); D((int)r); S(","); D((int)t); S("]"); }')
    out.append('  else if (c == "findnalu") { Buf d(a[2]); D(H264BitstreamParser::FindNaluIndices(d.p, d.n)); }')
    out.append('  else if (c == "findnalux") { Buf d(a[2]); D(H264BitstreamParser::FindNaluIndicesExplicitFraming(d.p, d.n)); }')
    out.append('  else if (c == "unimpl") { S("["); for (auto& x : split(a[2], \',\')) { if (x == "r") reset_unimplemented_count(); else for (unsigned long long i = N(x); i; i--) report_unimplemented("x", "y"); D(get_unimplemented_count()); S(","); } D(0); S("]"); }')
    fun_steps(lay, out, have)
    for p in procs:
        bb = '(BitBuffer*' in p.fn
        by = '(unsigned char const*, unsigned long' in p.fn
        call = p.fn[:p.fn.index('(')]
        args = []
        out.append('  else if (c == "%s") {' % p.name)
        k = 2
        if bb or by:
            out.append('   Buf d(a[2]);')
            k = 3
        if bb:
            out.append('   BitBuffer b(d.p, d.n); b.Seek(N(a[3]) / 8, N(a[3]) % 8);')
            args.append('&b')
            k = 4
        if by:
            args += ['d.p', 'd.n']
        for i, (nm, ty) in enumerate(p.params):
            if ty == 'H264BitstreamParserState':
                args.append('st.get()')
            elif ty == 'ParsingOptions':
                args.append('PO(a[%d])' % k)
                k += 1
            elif ty == 'H264NalUnitHeaderParser::NalUnitHeaderState':
                out.append('   Buf hd(a[%d]); auto hh = H264NalUnitHeaderParser::ParseNalUnitHeader(hd.p, hd.n); if (!hh) { S("\\"nohdr\\"}"); printf("R %%s %%s\\n", id.c_str(), O.c_str()); continue; }' % k)
                args.append('*hh')
                k += 1
            else:
                args.append('N(a[%d])' % k)
                k += 1
        out.append('   auto r = %s(%s);' % (call, ', '.join(args)))
        out.append('   D(r);')
        if bb:
            out.append('   S(",\\"p\\":"); pos(b);')
        out.append('   if (DM) FD(r);')
        out.append('  }')
    if dump.DW.procs['indent_level'].fn in have:
        out.append('  else if (c == "indent") { S("{}"); memdump([&](FILE* m) { fdump_indent_level(m, DL); }); }')
    out.append('  else { S("\\"badcmd\\""); }')
    out.append('  S(",\\"un\\":"); D(get_unimplemented_count()); S("}");')
    out.append('  printf("R %s %s\\n", id.c_str(), O.c_str()); fflush(stdout);')
    out.append(' } return 0; }')
    return '\n'.join(out) + '\n'


class Native:
    def __init__(self, world, prog):
        self.dir = tempfile.mkdtemp(prefix='vpnat')
        procs = [p for p in world.procs.values() if p.fn and not p.attrs.get('nodrive')]
        have = set(prog.dem.values())
        procs = [p for p in procs if p.fn in have]
        src = generate(world, prog.layouts, procs, have)
        open(self.dir + '/driver.cc', 'w').write(src)
        srcs = sorted(os.path.join(irgen.REPO, 'src', f) for f in os.listdir(irgen.REPO + '/src') if f.endswith('.cc') and f not in irgen.SKIP)
        self.exe = self.dir + '/driver'

        def cc(s):
            o = self.dir + '/' + os.path.basename(s)[:-3] + '.o'
            p = subprocess.run([CXX] + FL + ['-I' + irgen.REPO + '/include', '-c', s, '-o', o], stderr=subprocess.PIPE, text=True)
            return o, p.stderr if p.returncode else None
        with ThreadPoolExecutor(8) as ex:
            r = list(ex.map(cc, [self.dir + '/driver.cc'] + srcs))
        for o, e in r:
            if e:
                raise irgen.BuildError(e[-1500:])
        p = subprocess.run([CXX] + FL + ['-o', self.exe] + [o for o, _ in r], stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise irgen.BuildError(p.stderr[-1500:])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, cases, timeout=30):
        """cases: list of lists of step strings; returns per case a list of per-step (json | ('crash', text))"""
        res = [[None] * len(c) for c in cases]
        i = 0
        while i < len(cases):
            lines = []
            for ci in range(i, len(cases)):
                lines.append('x new')
                for si, s in enumerate(cases[ci]):
                    lines.append('%d.%d %s' % (ci, si, s))
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4000:hard_rss_limit_mb=3000', UBSAN_OPTIONS='print_stacktrace=0')
            try:
                p = subprocess.run([self.exe], input=('\n'.join(lines) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
                out, err, rc = p.stdout, p.stderr, p.returncode
            except subprocess.TimeoutExpired as e:
                out, err, rc = e.stdout or b'', b'timeout', -99
            cur = None
            for ln in out.decode('latin1').split('\n'):
                if ln.startswith('B '):
                    cur = ln[2:]
                    writing = False
                elif ln.startswith('P '):
                    writing = True
                elif ln.startswith('R '):
                    _, k, js = ln.split(' ', 2)
                    ci, si = k.split('.')
                    try:
                        res[int(ci)][int(si)] = json.loads(js)
                    except ValueError:
                        pass
                    cur = None
            if rc == 0:
                break
            if cur is None:
                break
            ci, si = [int(x) for x in cur.split('.')]
            et = err.decode('latin1')
            m = [l for l in et.split('\n') if 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'Assertion' in l or 'timeout' in l or 'rss limit' in l]
            if rc == -99 and (i < ci or ci + 1 < len(cases)):
                # out of time: this case alone decides whether it hangs
                res[ci] = self.run([cases[ci]], 20)[0]
                if any(isinstance(x, tuple) for x in res[ci]):
                    break
                i = ci + 1
                continue
            res[ci][si] = ('crash', ('while writing: ' if writing else '') + (m[-1] if m else et[-300:] or 'rc %d' % rc).strip())
            i = ci + 1
        return res
