"""Mechanical extraction: /repo's sources -> LLVM IR -> parsed modules.

Nothing is hand-written here: every file under /repo/src is compiled from the
working tree on each run against contract stubs of the std containers, and the
IR is what gets verified.  UBSan trap instrumentation is part of the IR, so the
absence of undefined arithmetic is an ordinary obligation.
What the extraction drops: the bodies of std::vector/map/unique_ptr/shared_ptr/
string (replaced by built-in contracts), exceptions (-fno-exceptions; all API
functions are noexcept or do not throw except on allocation failure).
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ll   # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
BIN = '/usr/lib/llvm-18/bin/'
SKIP = {'h264_utils.cc'}
FLAGS = ['-std=c++14', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-DFDUMP_DEFINE',
         '-DFPRINT_ERRORS', '-DRTP_DEFINE', '-gline-tables-only',
         '-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,bounds',
         '-fsanitize-trap=all', '-isystem', os.path.join(HERE, 'stubs'), '-I' + REPO + '/include', '-w',
         '-Xclang', '-fdump-record-layouts', '-S', '-emit-llvm']
PASSES = 'always-inline,function(sroa,simplifycfg)'


class BuildError(Exception):
    pass


def _one(args):
    src, out = args
    base = os.path.join(out, os.path.basename(src)[:-3])
    p = subprocess.run([BIN + 'clang++'] + FLAGS + ['-o', base + '.0.ll', src], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True)
    if p.returncode:
        return src, None, None, p.stderr[-2000:]
    q = subprocess.run([BIN + 'opt', '-S', '-passes=' + PASSES, base + '.0.ll', '-o', base + '.ll'],
                       stderr=subprocess.PIPE, text=True)
    if q.returncode:
        return src, None, None, q.stderr[-2000:]
    return src, open(base + '.ll').read(), p.stdout, None


def short(t):
    t = re.sub(r'\b(struct|class|enum|const|volatile) ', '', t)
    t = t.replace('h264nal::', '').strip()
    return t


def parse_layouts(text, out):
    for blk in text.split('*** Dumping AST Record Layout')[1:]:
        lines = blk.split('\n')
        head = None
        fields = []
        skip_deeper = None
        prefix = []
        for ln in lines:
            m = re.match(r'\s*(\d+)(?::\S+)? \|(\s+)(.*)$', ln)
            if not m:
                if '[sizeof=' in ln:
                    sz = int(re.search(r'sizeof=(\d+)', ln).group(1))
                    if head and head not in out:
                        out[head] = {'size': sz, 'fields': fields}
                    break
                continue
            off, ind, rest = int(m.group(1)), len(m.group(2)), m.group(3)
            if head is None:
                head = short(rest.strip())
                continue
            if skip_deeper is not None and ind > skip_deeper:
                continue
            skip_deeper = None
            while prefix and prefix[-1][0] >= ind:
                prefix.pop()
            rest = rest.strip()
            base = rest.endswith('(base)') or rest.endswith('(primary base)')
            if base:
                prefix.append((ind, ''))
                continue
            mm = re.match(r'(.*?)\s*([A-Za-z_]\w*)$', rest)
            if not mm:
                continue
            ty, nm = short(mm.group(1)), mm.group(2)
            full = '.'.join([p[1] for p in prefix if p[1]] + [nm])
            if re.match(r'std::(vector|map|unordered_map|unique_ptr|shared_ptr|string)\b', ty):
                fields.append((off, full, ty))
                skip_deeper = ind
                continue
            if re.match(r'(struct|class) ', rest):
                prefix.append((ind, nm))
                continue
            fields.append((off, full, ty))


class Program:
    def __init__(self):
        self.funcs = {}       # mangled -> Func
        self.dem = {}         # mangled -> demangled
        self.bydem = {}
        self.globals = {}
        self.layouts = {}
        self.dbg = {}
        self.failed = {}

    def find(self, pat):
        r = re.compile(pat)
        return [m for m, d in self.dem.items() if r.search(d) and m in self.funcs]

    def bydem_one(self, d):
        c = [m for m, x in self.dem.items() if x == d and m in self.funcs]
        if not c:
            raise ll.Unsupported('function %s not found in the repository' % d)
        c.sort(key=lambda m: 'C2E' in m, reverse=True)
        return self.funcs[c[0]]


def record_names(text):
    """qualified names of the public classes defined in a header (namespace h264nal)"""
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    out, stack = [], []
    for m in re.finditer(r'\b(?:class|struct)\s+(\w+)\s*(?:final\s*)?(?::[^{};()]*)?\{|([{}])', text):
        if m.group(1):
            stack.append(m.group(1))
            out.append('::'.join(x for x in stack if x))
        elif m.group(2) == '{':
            stack.append('')
        elif stack:
            stack.pop()
    return out


def load(repo=None, only=None):
    repo = repo or REPO
    out = tempfile.mkdtemp(prefix='vpir')
    try:
        srcs = sorted(os.path.join(repo, 'src', f) for f in os.listdir(os.path.join(repo, 'src'))
                      if f.endswith('.cc') and f not in SKIP)
        hd = os.path.join(out, '__vp_headers.cc')
        classes = []
        with open(hd, 'w') as f:
            for h in sorted(os.listdir(os.path.join(repo, 'include'))):
                if h.endswith('.h') and h != 'h264_utils.h':
                    f.write('#include "%s"\n' % h)
                    classes += record_names(open(os.path.join(repo, 'include', h)).read())
            # every complete class of the headers is laid out even if its own file cannot be compiled
            f.write('namespace h264nal {\n%s}\n' % ''.join('static_assert(sizeof(%s) > 0, "");\n' % c for c in classes))
        srcs.append(hd)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(_one, [(s, out) for s in srcs]))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    P = Program()
    names = set()
    for src, text, lay, err in res:
        if err:
            # out of the verifier's reach: its functions are reported as undecided
            P.failed[os.path.basename(src)] = err
            continue
        parse_layouts(lay, P.layouts)
        m = ll.parse_module(text, os.path.basename(src))
        m.src = src
        m.dbgloc = parse_dbg(text)
        for n, f in m.funcs.items():
            f.src = src
            if n not in P.funcs:
                P.funcs[n] = f
            names.add(n)
        for n in m.decls:
            names.add(n)
    names = sorted(n for n in names)
    p = subprocess.run([BIN + 'llvm-cxxfilt'], input='\n'.join(n.lstrip('@').strip('"') for n in names), stdout=subprocess.PIPE, text=True)
    for n, d in zip(names, p.stdout.split('\n')):
        d = d.replace('h264nal::', '')
        P.dem[n] = d
        P.bydem.setdefault(d, n)
    file_local(P)
    return P


COUNTBITS = 'CountBits(unsigned long)'


def file_local(P):
    """CountBits is not part of the interface: under another name it is the one integer function its callers share"""
    if any(d == COUNTBITS and m in P.funcs for m, d in P.dem.items()):
        return
    common = None
    for m, d in P.dem.items():
        if m in P.funcs and re.search(r'::(ReadNonSymmetric|SizeNonSymmetricBits)\(', d):
            s = {i.a[0] for b in P.funcs[m].blocks.values() for i in b.instrs if i.op == 'call' and isinstance(i.a[0], str)}
            common = s if common is None else common & s
    c = [m for m in common or () if m in P.funcs and [str(x[0]) for x in P.funcs[m].params] == ['int64'] and str(P.funcs[m].ret) == 'int64']
    if len(c) == 1:
        P.dem[c[0]] = COUNTBITS
        P.bydem[COUNTBITS] = c[0]


def parse_dbg(text):
    loc = {}
    sub = {}
    for m in re.finditer(r'^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: \d+)?, scope: (!\d+)(?:, inlinedAt: (!\d+))?', text, re.M):
        loc[m.group(1)] = (int(m.group(2)), m.group(3), m.group(4))
    return loc


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print(len(P.funcs), 'functions', len(P.layouts), 'layouts', '%.2f' % (time.time() - t))
    for k in ('H264HrdParametersParser::HrdParametersState', 'H264BitstreamParserState', 'BitBuffer', 'H264BitstreamParser::BitstreamState', 'ParsingOptions', 'BitBufferWriter'):
        print(k, P.layouts.get(k))
