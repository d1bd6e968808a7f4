"""Makes SPIR-V inputs: random and systematic instructions in projected form, and their words.  Nothing here decides
what is right: the specification does."""
import json, os, re, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'tools'))
sys.dont_write_bytecode = True
import tables as t

OPCODE = {n: o for n, o, f in t.OPS}
FIELDS = {n: [k for _, k in f] for n, o, f in t.OPS}
LOOSE = [n for n, o, f in t.LOOSE]
FIELDS.update({n: [{'line': 'u32', 'column': 'u32', 'vecmember': 'vecu32'}.get(k, k) for _, k in f] for n, o, f in t.LOOSE})
READABLE = [n for n, o, f in t.OPS if o is not None]
ALLOPS = [n for n, o, f in t.OPS]
SECTION = {n: t.section(n) for n in ALLOPS}
CODE = [n for n in ALLOPS if SECTION[n] == 'code']
ENUMVALS = {n: {a: v for v, a, x in vs} for n, vs in t.ENUMS.items()}
for n_, vs_ in t.COMPS.items():
    ENUMVALS[n_] = {a: v for v, a, x, k in vs_}
COMPARGS = {n: {a: k for v, a, x, k in vs} for n, vs in t.COMPS.items()}
MASKBITS = {n: [x for b, f, x in fs] for n, fs in t.MASKS.items()}
LANG = {a: v for v, a, x in t.SRCLANG}
SETNAMES = {'G': 'GLSL.std.450', 'A': 'T.a', 'A2': 'T.a', 'B': 'T.b', 'P': 'GLSL.std.45', 'Q': 'GLSL.std.4500', 'E': '', 'L': 'glsl.STD.450', 'U': 'caf\u00e9'}
GLSL = {'Sin': 13, 'Cos': 14}

MAGIC = 0x07230203
HDR = [MAGIC, 0x00010000, 0x00080001, 100, 0]

BOUNDARY = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000,
            32767, 32768, 65534, 65535, 65536, 65537, 99999, 100000, 131071, 131072, 0xffffff, 0x1000000, 999999999, 1000000000, 0x07230203, 0x03022307,
            0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]


def harvest():
    """Numbers written in the code under test, and their neighbours: values the code may treat specially."""
    s = set()
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            if not f.endswith('.rs') or os.sep + 'tests' in d:
                continue
            with open(os.path.join(d, f), errors='replace') as h:
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b', h.read()):
                    try:
                        v = int(m.group(1).replace('_', ''), 0) if m.group(1)[:2] in ('0x', '0b') else int(m.group(1).replace('_', ''))
                    except ValueError:
                        continue
                    for w in (v - 1, v, v + 1):
                        if 0 <= w < 2 ** 32:
                            s.add(w)
    return sorted(s)


def literals(root='/repo/src'):
    """The numbers and strings written in the code under test, as they are."""
    nums, strs = set(), set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith('.rs') and os.sep + 'tests' not in d:
                with open(os.path.join(d, f), errors='replace') as h:
                    x = h.read()
                for m in re.finditer(r'\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b', x):
                    try:
                        nums.add(int(m.group(1).replace('_', ''), 0 if m.group(1)[:2] in ('0x', '0b') else 10))
                    except ValueError:
                        pass
                for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', x):
                    strs.add(m.group(1))
                for m in re.finditer(r"b?'((?:[^'\\\n]|\\.)[^'\n]{0,8})'", x):
                    strs.add(m.group(1))
    return nums, strs


def unescape(s):
    try:
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s).replace('\\n', '\n').replace('\\r', '\r').replace('\\t', '\t').replace('\\"', '"').replace('\\\\', '\\')
    except ValueError:
        return s


def novel():
    """Numbers and strings that the code did not contain when this was written.  They only steer what is tried: sizes,
    depths and values that somebody thought worth writing down are worth trying."""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_literals.json')) as f:
        base = json.load(f)
    nums, strs = literals()
    return sorted(nums - set(base['nums'])), sorted({unescape(s) for s in strs - set(base['strs'])})


NEWN, NEWS = novel()


def near(lo, hi, most=24):
    """Sizes in a range that are worth trying because of the numbers that are new in the code."""
    v = sorted({n + d for n in NEWN for d in (-1, 0, 1, 2) if lo <= n + d <= hi} | {2 * n + d for n in NEWN for d in (-1, 0, 1, 2) if lo <= 2 * n + d <= hi}
               | {n // 2 + d for n in NEWN for d in (0, 1) if lo <= n // 2 + d <= hi} | {n // 4 + d for n in NEWN for d in (0, 1, 2) if lo <= n // 4 + d <= hi})
    first = [n + d for n in NEWN for d in (0, 1) if lo <= n + d <= hi]
    return sorted(set((first + v)[:most]))


# sizes at which counts kept in a byte, or tables that double, show
EDGES = [127, 128, 129, 255, 256, 257, 511, 512, 513]


def harvest_strings():
    s = set()
    for d, _, fs in os.walk('/repo/src'):
        for f in fs:
            if f.endswith('.rs') and os.sep + 'tests' not in d:
                with open(os.path.join(d, f), errors='replace') as h:
                    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', h.read()):
                        if 0 < len(m.group(1)) < 60 and '\\' not in m.group(1):
                            s.add(m.group(1))
    return sorted(s)


# ---- words ----
def wstr(bs):
    bs = bytes(bs) + b'\0'
    bs += b'\0' * (-len(bs) % 4)
    return list(struct.unpack('<%dI' % (len(bs) // 4), bs))


def wbytes(f):
    return wstr(bytes(int(x, 16) for x in f))


def wmask(name, f):
    v, rest, k = 0, [], 0
    for x in f:
        if x in MASKBITS[name]:
            v |= 1 << MASKBITS[name].index(x)
        else:
            rest.append(int(x))
    return [v] + rest


def wfield(k, f):
    a, _, b = k.partition(':')
    if a in ('id', 'res', 'u32', 'ver', 'member', 'optid', 'vecid', 'vecu32', 'phi', 'weights'):
        return [int(x) for x in f]
    if a == 'str':
        return wbytes(f)
    if a == 'optstr':
        return wbytes(f[1:]) if f else []
    if a in ('enum', 'optenum'):
        return [ENUMVALS[b][f[0]]] if f else []
    if a == 'mask':
        return wmask(b, f)
    if a == 'optmask':
        return wmask(b, f[1:]) if f else []
    if a == 'srclang':
        return [int(f[1])] if f[0] == 'Other' else [LANG[f[0]]]
    if a == 'comp':
        ws = [ENUMVALS[b][f[0]]]
        ks = COMPARGS[b][f[0]]
        if f[0] == 'LinkageAttributes':
            return ws + wbytes(f[2:]) + [ENUMVALS['LinkageType'][f[1]]]
        rest = f[1:]
        for kk in ks:
            if kk.startswith('mask'):
                ws += wfield(kk, rest)
                rest = []
            else:
                ws += wfield(kk, rest[:1])
                rest = rest[1:]
        return ws
    if a == 'ext':
        if f[0] == 'G':
            return [GLSL[f[1]], int(f[2])]
        return [int(x) for x in f[1:]]
    raise ValueError(k)


def operands(inst):
    ws = []
    for k, f in zip(FIELDS[inst[0][0]], inst[1:]):
        ws += wfield(k, f)
    return ws


def frame(op, ws):
    return [((len(ws) + 1) & 0xffff) << 16 | op] + ws


def words(inst):
    return frame(OPCODE[inst[0][0]], operands(inst))


def pack(ws, big=False):
    return struct.pack(('>' if big else '<') + '%dI' % len(ws), *ws)


def module(insts, hdr=HDR):
    ws = list(hdr)
    for i in insts:
        ws += words(i)
    return ws


# ---- random values ----
STRINGS = ['', 'a', 'ab', 'abc', 'abcd', 'abcde', 'main', 'GLSL.std.450', 'x' * 15, 'y' * 16, 'z' * 17, 'caf\u00e9', '\u4e2d\u6587', '\U0001f600', 'a"b', 'a\\b',
           'line\nbreak', 'tab\t', ' ', '%5', '"', "it's", '\u0080', '\u07ff', '\u0800', '\ud7ff', '\ue000', '\uffff', '\U00010000', '\U0010ffff', '\x01', '\x7f',
           'gl_Position', 'OpNop', '{}', '{0}', '%s', 'n' * 31, 'm' * 32, 'q' * 33, 'L' * 63, 'L' * 64, 'L' * 65,
           'a\r\nb', '\r', '\n', '\n\n', '\r\n', ' lead', 'trail ', 'two  spaces', '\t\tx', '\ufeffbom', 'e\u0301', '\u0301', '\u200b', '\u2028', '\u00a0', '\u00ad', '\ufffd', '\ufffe',
           'None', 'null', '0', '-1', '\x1b[0m', '//', '/*', ';', '#', '<id>', 'a;b', 'main()', 'MAIN', '\u00c9\u00e9', '\u0130', '\u00df', '\u202e', 'a\\"b', '\\n', '\\u{41}', '$', '`', "'",
           'src/a.glsl', 'C:\\x', '#version 450\nvoid main()\r\n{\r\n}\n', '\n#x', '%%', '%', '=', ' = ', 'Op', '"quoted"', '\x0b\x0c', '\x00e'[1:], '\x80\x81', '\U000e0001', '\U0001f468\u200d\U0001f469']
TOKENS = [s_ for s_ in STRINGS if 0 < len(s_) < 12 and not any(0xd800 <= ord(c_) < 0xe000 for c_ in s_)]
STRINGS += [s_ for s_ in NEWS if 0 < len(s_) < 100 and '\0' not in s_]
STRINGS += ['a' + s_ + 'b' for s_ in NEWS if 0 < len(s_) < 100 and '\0' not in s_]


def neighbours(rng, names, size):
    """Sequences in which every ordered pair of names occurs side by side."""
    names = list(names)
    rng.shuffle(names)
    seq = []
    for i, a in enumerate(names):
        seq.append(a)
        for b in names[i + 1:]:
            seq += [a, b]
    seq.append(names[0])
    return [seq[k:k + size + 1] for k in range(0, len(seq) - 1, size)]


class Gen:
    def __init__(self, rng, extra=(), small=False):
        self.r = rng
        self.extra = list(extra)
        self.small = small
        self.pool = None
        self.near = near(4, 80)

    def list(self, n):
        """n values; repeated ones, equal neighbours and ordered ones are not rare."""
        x = self.r.random()
        v = [self.num() for _ in range(n)]
        if x < 0.65 or n < 2:
            pass
        elif x < 0.72:
            v = v[:1] * n
        elif x < 0.82:
            for k in range(1, n):
                if self.r.random() < 0.5:
                    v[k] = v[k - 1]
        elif x < 0.94:
            p = self.r.choice([2, 2, 4, 3])
            v = [v[k % min(p, n)] for k in range(n)]
        elif x < 0.97:
            v.sort()
        else:
            b = v[0] % (2 ** 32 - n)
            v = [b + k for k in range(n)]
        return [str(y) for y in v]

    def num(self):
        r = self.r
        x = r.random()
        if self.pool and x < 0.9:
            return r.choice(self.pool)
        if x < 0.05:
            return 0
        if x < 0.35:
            return r.randrange(0, 40)
        if x < 0.58:
            return r.choice(BOUNDARY)
        if x < 0.6 and NEWN:
            return (r.choice(NEWN) + r.randrange(-1, 2)) % 2 ** 32
        if x < 0.7 and self.extra:
            return r.choice(self.extra)
        if x < 0.8:
            return 1 << r.randrange(32)
        if x < 0.9:
            return r.randrange(1 << r.randrange(1, 33))
        return r.randrange(1 << 32)

    def id(self):
        return str(self.num())

    def length(self):
        r = self.r
        x = r.random()
        if x < 0.6:
            return r.randrange(0, 4)
        if x < 0.9:
            return r.randrange(0, 12)
        if x < 0.92 and self.near:
            return r.choice(self.near)
        return r.choice([15, 16, 17, 20, 31, 32, 33, 40])

    def text(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return r.choice(STRINGS).encode('utf8', 'surrogatepass')
        if x < 0.65:
            return ''.join(r.choice(TOKENS) for _ in range(r.randrange(2, 5))).encode('utf8')
        n = self.length()
        s = ''
        while len(s) < n:
            x = r.random()
            if x < 0.8:
                c = chr(r.randrange(1, 128))
            else:
                c = chr(r.choice([r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)]))
            s += c
        return s.encode()

    def str(self):
        while True:
            b = self.text()
            try:
                b.decode('utf8')
            except UnicodeDecodeError:
                continue
            return ['%02x' % x for x in b]

    def mask(self, name):
        f = [x for x in MASKBITS[name] if self.r.random() < 0.4]
        if 'DependencyLength' in f:
            f.append(self.id())
        return f

    def field(self, k):
        r = self.r
        a, _, b = k.partition(':')
        if a in ('id', 'res', 'u32', 'ver', 'member'):
            return [self.id()]
        if a == 'optid':
            return [self.id()] if r.random() < 0.6 else []
        if a == 'str':
            return self.str()
        if a == 'optstr':
            return ['some'] + self.str() if r.random() < 0.6 else []
        if a in ('vecid', 'vecu32'):
            return self.list(self.length())
        if a == 'phi':
            return self.list(2 * self.length())
        if a == 'weights':
            return [self.id(), self.id()] if r.random() < 0.5 else []
        if a == 'enum':
            return [r.choice(list(ENUMVALS[b]))]
        if a == 'optenum':
            return [r.choice(list(ENUMVALS[b]))] if r.random() < 0.6 else []
        if a == 'mask':
            return self.mask(b)
        if a == 'optmask':
            return ['some'] + self.mask(b) if r.random() < 0.6 else []
        if a == 'srclang':
            return [r.choice(list(LANG))] if r.random() < 0.7 else ['Other', str(max(5, self.num()))]
        if a == 'comp':
            return self.comp(b, r.choice(list(ENUMVALS[b])))
        if a == 'ext':
            s = r.choice(['G', 'A', 'B', 'A2', 'P'])
            if s == 'G':
                return ['G', r.choice(['Sin', 'Cos']), self.id()]
            if r.random() < 0.5:
                n = r.randrange(0, 6)
                return [s, str(n)] + [self.id() for _ in range(n)]
            return [s, str(r.randrange(100, 200))] + self.list(self.length())
        raise ValueError(k)

    def comp(self, b, v):
        f = [v]
        if v == 'LinkageAttributes':
            return [v, self.r.choice(list(ENUMVALS['LinkageType']))] + self.str()
        for kk in COMPARGS[b][v]:
            f += self.field(kk)
        return f

    def inst(self, name=None):
        name = name or self.r.choice(READABLE)
        if self.r.random() < 0.12:      # operands that are equal to each other
            self.pool = [self.num() for _ in range(self.r.choice([1, 2, 2, 3]))]
        i = [[name]] + [self.field(k) for k in FIELDS[name]]
        self.pool = None
        if name == 'OpSource' and not i[3] and i[4]:
            i[4] = []          # a source text needs the file id before it
        return i

    def module_insts(self, n, sets=('G',), names=None):
        """Readable instructions in any order, or the ones given; extended instructions use bound imports."""
        r = self.r
        bound, out = {}, []
        if names:
            bound = {'61': sets[0]}
            out = [[['OpExtInstImport'], ['61'], ['%02x' % x for x in SETNAMES[sets[0]].encode()]]]
        for name in names or [r.choice(READABLE) for _ in range(n)]:
            if name == 'OpExtInstImport':
                free = str(r.randrange(1, 60) if not names else len(out) + 100)
                if free in bound:
                    continue
                k = r.choice(list(sets)) if sets else None
                if k is None:
                    continue
                bound[free] = k
                out.append([[name], [free], ['%02x' % x for x in SETNAMES[k].encode()]])
                continue
            if name == 'OpExtInst':
                if not bound:
                    continue
                sid = r.choice(sorted(bound))
                k = bound[sid]
                first = [s for s in sets if SETNAMES[s] == SETNAMES[k]][0]
                if first == 'G':
                    body = ['G', r.choice(['Sin', 'Cos']), self.id()]
                else:
                    m = r.randrange(0, 5)
                    body = [first, str(m)] + [self.id() for _ in range(m)]
                out.append([[name], [self.id()], [self.id()], [sid], body])
                continue
            out.append(self.inst(name))
        return out
