"""Corpora for the reader properties (C01-C09) and their validation."""
import itertools, random, struct
from . import run
from .asm import *


def case(ws_or_bytes, sets=('G',), big=False, **kw):
    b = ws_or_bytes if isinstance(ws_or_bytes, (bytes, bytearray)) else pack(ws_or_bytes, big)
    c = {'op': 'read', 'b': bytes(b).hex(), 's': list(sets)}
    c.update(kw)
    return c


def norm(o):
    return {'k': o['k'], 'h': o.get('h', []), 'i': o.get('i', []), 'e': o.get('e', [])}


def record(n, c, r):
    return {'n': n, 'b': list(bytes.fromhex(c['b'])), 's': c['s'], 'o': norm(r), 'hasSwap': 'sw' in r, 'sw': norm(r.get('sw', r)),
            'same': r.get('same', 1), 'pre': r.get('pre', []), 'mem': r.get('mem', 0)}


def I(name, *fields):
    return [[name]] + [list(f) for f in fields]


def swapped(b):
    b = bytearray(b)
    for i in range(0, len(b) - 3, 4):
        b[i:i + 4] = b[i:i + 4][::-1]
    return bytes(b)


LENS = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]


# ---- C02 ----
def header_cases(rng, tier, extra):
    cs = []
    full = HDR + words(I('OpNop')) + words(I('OpCapability', ['Shader']))
    base = pack(full)
    for b in (base, swapped(base)):
        for n in range(0, len(b) + 1):
            cs.append(case(b[:n]))
    for pos in range(5):
        vals = set(BOUNDARY) | set(extra) | {1 << k for k in range(32)} | {HDR[pos] ^ (1 << k) for k in range(32)}
        vals |= {(HDR[pos] & ~(0xff << s)) | (v << s) for s in (0, 8, 16, 24) for v in range(256)}
        vals |= {(HDR[pos] + d) & 0xffffffff for d in range(-3, 4)}
        vals |= {rng.randrange(1 << 32) for _ in range(200)}
        # two bytes at once, and the two halves
        vals |= {(rng.randrange(256) << 24) | (rng.randrange(256) << 16) | (rng.randrange(256) << 8) | rng.randrange(256) for _ in range(200)}
        vals |= {(v << 16) | 0 for v in range(64)} | {v << 8 for v in range(64)} | {(1 << 16) | (v << 8) for v in range(256)}
        for v in sorted(vals):
            w = list(full)
            w[pos] = v
            cs.append(case(w, big=rng.random() < 0.3))
    # every tool number; versions vary
    for tool in range(0, 65536, 1 if tier == 'thorough' else 1):
        if tier != 'thorough' and tool > 2048 and tool % 16 and tool not in (4095, 32767, 32768, 65535):
            continue
        cs.append(case(HDR[:2] + [(tool << 16) | rng.choice([0, 1, 2, 255, 256, 65535, rng.randrange(65536)]), rng.choice(BOUNDARY), 0], big=tool % 5 == 0))
    for ver in list(range(0, 300)) + [rng.randrange(65536) for _ in range(300)] + [65535, 32768, 32767]:
        cs.append(case(HDR[:2] + [(rng.randrange(14) << 16) | ver, rng.randrange(1 << 32), 0]))
    # several words wrong at once, shortened
    for _ in range(3000 if tier == 'quick' else 30000):
        w = [HDR[k] if rng.random() < 0.55 else rng.choice([0, 1, 0x00010000, 0x03022307, MAGIC, 0x01000000, 0x100, 0x10001, 0x10100, 0x20000, rng.randrange(1 << 32)]) for k in range(5)]
        if rng.random() < 0.3:
            w += words(I('OpNop'))
        b = pack(w, rng.random() < 0.5)
        if rng.random() < 0.4:
            b = b[:rng.randrange(len(b) + 1)]
        cs.append(case(b))
    return cs


# ---- C04 ----
def framing_cases(rng, tier, extra):
    g = Gen(rng, extra)
    cs = []
    for k in range(700 if tier == 'quick' else 6000):
        sets = rng.choice([['G'], ['G', 'A', 'B'], ['A']])
        insts = g.module_insts(rng.randrange(0, 7), sets)
        ws = module(insts)
        if len(ws) > 150:
            continue
        cs.append(case(ws, sets, big=k % 3 == 0, pre=1))
        # one word count changed, or zero, or an extra half-word of bytes
        pos = [5]
        for i in insts:
            pos.append(pos[-1] + len(words(i)))
        w = list(ws)
        if insts:
            p = rng.choice(pos[:-1])
            d = rng.choice([-3, -2, -1, 1, 2, 3, 'zero', 'max', 'end', 'endp'])
            wc = w[p] >> 16
            wc = {'zero': 0, 'max': 65535, 'end': len(w) - p, 'endp': len(w) - p + 1}.get(d, None) if isinstance(d, str) else (wc + d) % 65536
            w[p] = (wc << 16) | (w[p] & 0xffff)
            cs.append(case(w, sets, big=k % 2 == 0, pre=1 if k % 2 else 0))
        cs.append(case(pack(ws) + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 4))), sets))
        cs.append(case(pack(ws) + pack([rng.choice([0, 1 << 16, 2 << 16, 0xffffffff, rng.randrange(1 << 32)])]), sets))
    cs += neighbour_cases(rng, g)
    # many instructions, long instructions
    for n in [0, 1, 2, 3, 10, 50, 100, 127, 128, 129, 255, 256, 257, 300, 600, 1000, 1025]:
        seq = [rng.choice([I('OpNop'), I('OpTypeVoid', [str(n)]), I('OpFunctionEnd'), I('OpReturn'), I('OpLabel', ['7'])]) for _ in range(n)]
        cs.append(case(module(seq)))
        cs.append(case(module(seq), big=True))
        cs.append(case(module(seq) + [0x0000ffff]))
    for n in LENS + [300, 511, 512, 513, 1000, 1023, 1024, 4000]:
        body = frame(30, [1] + [rng.randrange(1 << 32) for _ in range(n)])
        cs.append(case(HDR + words(I('OpNop')) + body + words(I('OpReturn')), pre=1 if n < 40 else 0))
    for n in [5000, 65534] + ([16383, 32768] if tier == 'thorough' else []) + near(1000, 65534, 6):
        body = frame(30, [1] + [k % 7 for k in range(n - 1)])
        cs.append(case(HDR + body + words(I('OpReturn'))))
        cs.append(case(HDR + body[:-1]))
        cs.append(case(pack(HDR + body)[:-2]))
    # declared counts against what is there
    for wc in list(range(0, 40)) + [255, 256, 32767, 32768, 65535]:
        for left in list(range(0, 12)) + [wc - 1, wc, wc + 1]:
            if 0 <= left < 60:
                for op in (0, 56, 30, 400):
                    b = pack(HDR + [(wc << 16) | op] + [1] * left)
                    cs.append(case(b))
                    cs.append(case(b[:len(b) - rng.randrange(1, 4)]))
    return cs


def neighbour_cases(rng, g):
    """Each instruction directly after each; instructions that are nearly equal side by side."""
    from .show import rows
    near_rows = [case(HDR + sum((words(i) for i in row), []), big=rng.random() < 0.3)
                 for row in rows(g, [n for n in READABLE if n not in ('OpExtInstImport', 'OpExtInst')])]
    return near_rows + [case(module(g.module_insts(0, ['G', 'A'], names)), ['G', 'A'], big=rng.random() < 0.3) for names in neighbours(rng, READABLE, 60)]


# ---- C05 ----
def operand_cases(rng, tier, extra):
    g = Gen(rng, extra)
    cs = []
    vals = BOUNDARY + list(extra)
    for name in READABLE:
        if name in ('OpExtInstImport', 'OpExtInst'):
            continue
        for rep in range(40 if tier == 'quick' else 300):
            i = g.inst(name)
            ws = operands(i)
            op = OPCODE[name]
            cs.append(case(HDR + frame(op, ws), big=rep % 4 == 0))
            if rep < 12:
                for cut in range(0, min(len(ws), 14)):
                    cs.append(case(HDR + frame(op, ws[:cut])))
                for more in (1, 2, 3, 4):
                    cs.append(case(HDR + frame(op, ws + [rng.choice([0, 1, 2, 3, rng.randrange(1 << 32)]) for _ in range(more)])))
            cs.append(case(HDR + words(I('OpNop')) + frame(op, ws) + words(g.inst('OpTypeVoid'))))
        # each operand word takes each boundary value
        kinds = FIELDS[name]
        for k in range(len(kinds)):
            a = kinds[k].split(':')[0]
            if a in ('id', 'res', 'u32', 'ver', 'member', 'optid'):
                for v in (vals if tier == 'thorough' or rng.random() < 0.25 else rng.sample(vals, 25)):
                    i = g.inst(name)
                    i[k + 1] = [str(v)]
                    cs.append(case(HDR + words(i)))
            if a in ('vecid', 'vecu32', 'phi'):
                for n in LENS + ([1000, 4095] if tier == 'thorough' else []):
                    i = g.inst(name)
                    m = n * (2 if a == 'phi' else 1)
                    i[k + 1] = [g.id() for _ in range(m)]
                    cs.append(case(HDR + words(i) + words(I('OpNop'))))
                    if a == 'phi' and m:
                        w = operands(i)
                        cs.append(case(HDR + frame(OPCODE[name], w[:-1])))
        # a string of each length before small words
            if a in ('str', 'optstr') and k + 1 < len(kinds):
                for n in range(0, 18):
                    for _ in range(4):
                        i = g.inst(name)
                        i[k + 1] = (['some'] if a == 'optstr' else []) + ['%02x' % rng.randrange(97, 123) for _ in range(n)]
                        for q in range(k + 1, len(kinds)):
                            b = kinds[q].split(':')[0]
                            if b in ('vecid', 'vecu32'):
                                i[q + 1] = [rng.choice(['0', '0', '1', '9', '4294967295']) for _ in range(rng.randrange(0, 5))]
                            elif b in ('id', 'u32', 'member'):
                                i[q + 1] = [rng.choice(['0', '1'])]
                        if name == 'OpSource' and not i[3] and i[4]:
                            continue
                        cs.append(case(HDR + words(i) + words(I('OpNop'))))
        # all operand words equal, zero, or all ones
        for v in (0, 1, 2, 0xffffffff, 0x80000000):
            for n in range(0, 12):
                cs.append(case(HDR + frame(OPCODE[name], [v] * n)))
    # very long lists: any size the word count can express
    for name in READABLE:
        for k, kind in enumerate(FIELDS[name]):
            a = kind.split(':')[0]
            if a in ('vecid', 'vecu32', 'phi') and name != 'OpExtInst':
                fix = g.inst(name)
                fix[k + 1] = []
                most = 65535 - len(words(fix))
                ns = {511, 1024, 2049, 4096, 5000, 8193} if tier != 'quick' else {rng.choice([500, 1000, 1024, 1025]), rng.choice([4095, 4096, 4097, 5000])}
                ns |= set(near(250, 9000, 8))
                if tier != 'quick' or name in ('OpTypeStruct', 'OpPhi', 'OpEntryPoint'):
                    ns |= {16385, 32768, most - 1, most} | set(near(9000, most, 4))
                for n in sorted(ns):
                    n = min(n, most)
                    n -= n % (2 if a == 'phi' else 1)
                    fix[k + 1] = [str(v) for v in rng.choices([0, 1, 7, 1 << 16, 0xffffffff, 12345], k=n)]
                    cs.append(case(HDR + words(fix) + words(I('OpNop'))))
    # a run of modules with several instructions
    for _ in range(400 if tier == 'quick' else 5000):
        insts = g.module_insts(rng.randrange(2, 12), ['G', 'A'])
        ws = module(insts)
        if len(ws) < 400:
            cs.append(case(ws, ['G', 'A'], big=rng.random() < 0.3))
    cs += neighbour_cases(rng, g)
    return cs


# ---- C06 ----
def opcode_cases(rng, tier, extra):
    g = Gen(rng, extra)
    cs = []
    for op in range(65536):
        n = rng.choice([0, 1, 2, 3, 4, 5, 9])
        cs.append(case(HDR + frame(op, [rng.choice([0, 1, 2, 3, 5, 50, 1 << 16, 0xffffffff]) for _ in range(n)])))
    for op in range(0, 700):
        for n in (0, 1, 2, 3, 4, 5, 6, 8, 15, 40):
            cs.append(case(HDR + frame(op, [1] * n) + words(I('OpNop'))))
    for op in (8, 9, 13, 18, 41, 57, 194, 251, 300, 401, 5000, 65535):
        for n in (255, 256, 1000, 32767, 65534):
            if n < 2000 or tier == 'thorough' or op in (57, 401):
                cs.append(case(HDR + frame(op, [0] * n)))
    for name in READABLE:
        if name in ('OpExtInst', 'OpExtInstImport'):
            continue
        for _ in range(15):
            cs.append(case(HDR + words(I('OpNop')) + words(g.inst(name)) + words(I('OpReturn')), big=rng.random() < 0.3))
    return cs


def wide_cases(rng, tier):
    """One instruction with any word count, the operands all the same word."""
    counts = [17, 255, 256, 257, 4096, 16383, 16384, 32767, 32768, 65534, 65535] + near(17, 65535, 4) + [rng.randrange(2, 65536)]
    ops = list(range(0, 340)) + [rng.randrange(340, 65536) for _ in range(60)]
    cs = [(op, n) for op in ops for n in counts] + [(rng.randrange(65536), rng.randrange(1, 65536)) for _ in range(2000 if tier == 'quick' else 20000)]
    if tier != 'quick':
        cs += [(op, rng.randrange(1, 65536)) for op in range(65536)]
    return [{'op': 'read', 'b': pack(HDR + [n << 16 | op]).hex(), 's': [], 'brief': 1, 'at': [0], 'opc': op, 'wc': n,
             'rep': [{'b': pack([rng.choice([0, 0, 1, 2, 0x61616161, 0xffffffff])]).hex(), 'n': n - 1, 'v': []}]} for op, n in cs]


def wide_record(n, c, r):
    return {'n': n, 'op': c['opc'], 'wc': c['wc'], 'k': r['k'], 'cnt': r.get('cnt', 0), 'got': [x[:1] for x in r.get('got', [])], 'e': r.get('e', [])}


# ---- C07 ----
def enum_fields():
    """(instruction, index of the field, kind)"""
    for name in READABLE:
        for k, kind in enumerate(FIELDS[name]):
            if kind.split(':')[0] in ('enum', 'optenum', 'mask', 'optmask', 'comp', 'srclang'):
                yield name, k, kind


def enum_pairs(g):
    """Each pair of values of two enumerated operands of one instruction, the others at random."""
    out = []
    for name in READABLE:
        ks = [(k, x.split(':')) for k, x in enumerate(FIELDS[name]) if x.split(':')[0] in ('enum', 'optenum')]
        for (j, x), (k, y) in itertools.combinations(ks, 2):
            for v in list(ENUMVALS[x[1]]) + [None] * (x[0] == 'optenum'):
                for w in list(ENUMVALS[y[1]]) + [None] * (y[0] == 'optenum'):
                    i = g.inst(name)
                    i[j + 1] = [v] if v else []
                    i[k + 1] = [w] if w else []
                    out.append(i)
    return out


def enum_cases(rng, tier, extra):
    g = Gen(rng, extra)
    cs = []
    top = 200 if tier == 'quick' else 7000
    for name, k, kind in enum_fields():
        a, _, b = kind.partition(':')
        vals = set(range(0, top)) | {1 << s for s in range(32)} | {(1 << s) - 1 for s in range(33)} | set(BOUNDARY) | set(extra)
        known = list(ENUMVALS.get(b, LANG).values()) if a != 'mask' and a != 'optmask' else list(range(32))
        for v in known:
            vals |= {v + (1 << s) for s in (8, 16, 24, 31)} | {v ^ 0x80000000, 0xffffffff - v, (v << 8) & 0xffffffff, (v << 16) & 0xffffffff, (v << 24) & 0xffffffff}
        if a in ('mask', 'optmask'):
            vals |= set(range(0, 256)) | {x | (1 << s) for x in range(0, 32) for s in range(4, 32)}
        vals |= {rng.randrange(1 << 32) for _ in range(60)} | {rng.randrange(1 << 16) for _ in range(60)}
        if name in ('OpMemberDecorate',) or (a == 'enum' and b == 'StorageClass' and tier == 'quick'):
            vals = {v for v in vals if v < 100 or rng.random() < 0.4}
        for v in sorted(v for v in vals if v < 1 << 32):
            i = g.inst(name)
            ws = []
            for kk, f in zip(FIELDS[name][:k], i[1:]):
                ws += wfield(kk, f)
            tail = []
            for kk, f in zip(FIELDS[name][k + 1:], i[k + 2:]):
                tail += wfield(kk, f)
            if a == 'comp':
                back = {x: y for y, x in ENUMVALS[b].items()}
                if v in back:
                    mine = wfield(kind, g.comp(b, back[v]))
                else:
                    mine = [v] + [rng.randrange(8) for _ in range(rng.randrange(0, 3))]
            elif b == 'LoopControl' and v & 8 and rng.random() < 0.7:
                mine = [v, g.num()]
            else:
                mine = [v]
            cs.append(case(HDR + frame(OPCODE[name], ws + mine + tail), big=v % 7 == 0))
        if tier == 'quick':      # numbers of later versions and vendors
            for v in rng.sample(range(200, 7000), 40):
                if a != 'comp':
                    i = g.inst(name)
                    pre = sum((wfield(kk, f) for kk, f in zip(FIELDS[name][:k], i[1:])), [])
                    post = sum((wfield(kk, f) for kk, f in zip(FIELDS[name][k + 1:], i[k + 2:])), [])
                    cs.append(case(HDR + frame(OPCODE[name], pre + [v] + post)))
    for i in enum_pairs(g):
        cs.append(case(HDR + words(i), big=rng.random() < 0.2))
    # every mask that has an operand, with every value of it
    for v in range(16):
        for x in sorted(set(BOUNDARY) | set(range(0, 20)) | set(extra) if v & 8 else {0, 1, 8}):
            cs.append(case(HDR + frame(246, [5, 6, v] + ([x] if v & 8 else [])), big=x % 3 == 0))
            if x < 10:
                cs.append(case(HDR + frame(246, [5, 6, v, x] + ([0] if v & 8 else [])), big=x % 3 == 0))
    # the operands of enumerants: too few, too many, every value of nested enumerants and masks
    for b, name in (('Decoration', 'OpDecorate'), ('Decoration', 'OpMemberDecorate'), ('ExecutionMode', 'OpExecutionMode')):
        pre = [5, 3] if name == 'OpMemberDecorate' else [5]
        for v, num in ENUMVALS[b].items():
            for n in range(0, 5):
                for w in ([1] * n, [0] * n, [rng.randrange(1 << 32) for _ in range(n)]):
                    cs.append(case(HDR + frame(OPCODE[name], pre + [num] + w)))
            for kk in COMPARGS[b][v]:
                if kk.split(':')[0] in ('enum', 'mask'):
                    vals = list(range(0, 300)) + [1 << s for s in range(32)] + BOUNDARY + [rng.randrange(1 << 32) for _ in range(50)]
                    for x in vals:
                        mine = [num, x] if v != 'LinkageAttributes' else [num] + wstr(b'fn') + [x]
                        cs.append(case(HDR + frame(OPCODE[name], pre + mine)))
                if kk.split(':')[0] in ('u32', 'id'):
                    for x in BOUNDARY:
                        f = g.comp(b, v)
                        f[1 + rng.randrange(len(f) - 1)] = str(x)
                        cs.append(case(HDR + frame(OPCODE[name], pre + wfield('comp:' + b, f))))
    return cs


# ---- C08 ----
def string_sites():
    """How to place raw string words: (opcode, words before, words after, sets)."""
    yield 2, [], [], ()
    yield 3, [2, 450, 9], [], ()
    yield 4, [], [], ()
    yield 5, [7], [], ()
    yield 6, [7, 1], [], ()
    yield 7, [7], [], ()
    yield 10, [], [], ()
    yield 15, [4, 9], [], ()
    yield 15, [4, 9], [3, 4, 5], ()
    yield 15, [0, 0xffffffff], [0x61626364], ()
    yield 15, [4, 9], [0], ()
    yield 15, [4, 9], [0, 9], ()
    yield 15, [4, 9], [0, 0, 0], ()
    yield 31, [7], [], ()
    yield 71, [7, 41], [0], ()
    yield 71, [7, 41], [1], ()
    yield 72, [7, 2, 41], [1], ()
    yield 11, [7], [], ('G', 'U', 'E')


def string_bytes(rng, tier, extra):
    out = []
    for n in LENS + [300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8200, 16384, 65535, 65536, 262131] + near(70, 262000, 10):
        out.append(bytes(0x61 + k % 26 for k in range(n)))
        if n > 20:      # the character that is special, far inside
            e = rng.choice(['\u00e9', '\u4e2d', '\U0001f600']).encode()
            at = rng.choice([n - len(e), n // 2, rng.randrange(n - 4)])
            out.append(b'k' * at + e + b'k' * (n - at - len(e)))
            out.append(b'k' * at + e[:-1] + b'k' * (n - at - len(e) + 1))
    for b in range(1, 256):
        out.append(bytes([b]))
        out.append(b'ab' + bytes([b]) + b'cd')
    for b in range(0x80, 0x100, 1):
        out.append(bytes([b, 0x80]))
        out.append(bytes([b, 0xbf, 0x80]))
        out.append(bytes([b, 0x80, 0x80, 0x80]))
        out.append(b'x' * rng.randrange(4) + bytes([b, rng.randrange(0x80, 0xc0), rng.randrange(0x80, 0xc0), rng.randrange(0x80, 0xc0)]) + b'y' * rng.randrange(3))
    for s in STRINGS:
        e = s.encode('utf8', 'surrogatepass')
        for k in range(4):
            out.append(b'q' * k + e)
            out.append(e + b'q' * k)
    for cp in [0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1ffff, 0xfffff, 0x100000, 0x10ffff, 0xfeff]:
        e = chr(cp).encode('utf8', 'surrogatepass')
        for k in range(4):
            out += [b'w' * k + e, b'w' * k + e + e, b'w' * k + e[:-1], b'w' * k + e + e[1:]]
    out += [b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xc0\x80', b'\xc1\xbf', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xed\xa0\x80', b'\xff', b'\xfe']
    for s in harvest_strings():
        out.append(s.encode())
    for _ in range(150 if tier == 'quick' else 3000):
        out.append(bytes(rng.randrange(1, 256) for _ in range(rng.randrange(0, 9))))
        out.append(bytes(rng.choice([0xc3, 0xa9, 0xe4, 0xb8, 0xad, 0x41, 0xf0, 0x9f, 0x98, 0x80]) for _ in range(rng.randrange(1, 9))))
    return out


def string_cases(rng, tier, extra):
    cs = []
    sites = list(string_sites())
    strings = string_bytes(rng, tier, extra)
    for n, bs in enumerate(strings):
        some = sites if tier == 'thorough' or len(bs) < 3 and n % 8 == 0 else rng.sample(sites, 4)
        if len(bs) > 5000:
            some = rng.sample(sites[:-1], 1 if len(bs) > 20000 else 2)
        for op, pre, post, sets in some:
            if len(bs) // 4 + len(pre) + len(post) > 65532:
                continue
            cs.append(case(HDR + frame(op, pre + wstr(bs) + post), sets, big=rng.random() < 0.4))
        op, pre, post, sets = rng.choice(sites)
        if len(bs) > 20000:
            continue
        x = rng.random()
        full = bs + b'\0' * (4 - len(bs) % 4)
        if x < 0.3:      # no terminator
            t_ = bs + b'z' * (-len(bs) % 4)
            cs.append(case(HDR + frame(op, pre + list(struct.unpack('<%dI' % (len(t_) // 4), t_))), sets))
        elif x < 0.6:    # other bytes after the terminator, in its word
            pad = bytes(rng.choice([0, 1, 0x41, 0xff]) for _ in range(3 - len(bs) % 4))
            t_ = bs + b'\0' + pad
            cs.append(case(HDR + frame(op, pre + list(struct.unpack('<%dI' % (len(t_) // 4), t_)) + post), sets))
        elif x < 0.9:    # words after the terminator
            cs.append(case(HDR + frame(op, pre + wstr(bs) + [rng.choice([0, 1, 0x61616161])] * rng.randrange(1, 3) + post), sets))
        else:            # a zero byte earlier
            t_ = bytearray(full)
            if len(bs):
                t_[rng.randrange(len(bs))] = 0
            cs.append(case(HDR + frame(op, pre + list(struct.unpack('<%dI' % (len(t_) // 4), bytes(t_))) + post), sets))
    for op, pre, post, sets in sites:   # each length, what follows is small
        for n in range(0, 26):
            cs.append(case(HDR + frame(op, pre + wstr(bytes(rng.randrange(97, 123) for _ in range(n))) + post), sets, big=n % 3 == 0))
    for op, pre, post, sets in sites:   # words of every zero-byte pattern
        for m in range(16):
            w = sum((0 if m >> k & 1 else 0x41 + k) << (8 * k) for k in range(4))
            cs.append(case(HDR + frame(op, pre + [w] + post), sets))
            cs.append(case(HDR + frame(op, pre + [0x64636261, w] + post), sets))
        cs.append(case(HDR + frame(op, pre), sets))
        if tier == 'thorough':
            for n in (65535 * 2, 65000 * 4 - 1 - len(pre) * 4 - len(post) * 4):
                cs.append(case(HDR + frame(op, pre + wstr(b'k' * n) + post), sets))
    return cs


# ---- C09 ----
def nearly(rng, name):
    """Names a little longer, shorter or different."""
    segs = name.split('.')
    v = [name + x for x in ('.', '.1', '.ext', '.x.y', ' ', '/', ':', '-', '_', '1', 'a', '\n', '\u00e9', name, '.' + name, '\x01')]
    v += [x + name for x in ('.', 'a', ' ', 'x.', 'OpenCL.', '1', name + '.')]
    v += [name[:k] for k in range(len(name))] + [name[k:] for k in range(1, len(name) + 1)]
    v += [name[:k] + name[k + 1:] for k in range(len(name))] + [name[:k] + 'x' + name[k + 1:] for k in range(len(name))] + [name[:k] + 'x' + name[k:] for k in range(len(name))]
    v += ['.'.join(segs[:k]) for k in range(len(segs))] + ['.'.join(segs[k:]) for k in range(len(segs))] + ['.'.join(segs[::-1]), '/'.join(segs), ''.join(segs)]
    v += [name.upper(), name.lower(), name.title(), name.swapcase(), name[::-1]] + [name[:k] + name[k].swapcase() + name[k + 1:] for k in range(len(name))]
    for k in range(len(name) - 1):
        v.append(name[:k] + name[k + 1] + name[k] + name[k + 2:])
    return list(dict.fromkeys(v))


def extinst_cases(rng, tier, extra):
    from .layout import LGen as LayoutGen
    g = Gen(rng, extra)
    cs = []
    keys = list(SETNAMES)
    ids = [1, 2, 3, 0, 7, 257, 65537, 0x80000001, 0xffffffff]

    def imp(i, name):
        return frame(11, [i] + wstr(name.encode()))

    def use(sid, n, ops, ty=None, res=None):
        return frame(12, [g.num() if ty is None else ty, g.num() if res is None else res, sid, n] + ops)
    for _ in range(6000 if tier == 'quick' else 60000):
        sets = rng.sample(keys, rng.randrange(0, 5))
        if rng.random() < 0.1:
            sets += sets[:1]
        names = [SETNAMES[k] for k in sets] * 3 + ['GLSL.std.450', 'T.a', 'nope', 'GLSL.std.450 ', 'glsl.std.450', 'GLSL', '', 'T.', 'T.aa']
        pool = rng.sample(ids, rng.randrange(1, 5))
        ws = list(HDR)
        bound = {}
        for _ in range(rng.randrange(1, 9)):
            x = rng.random()
            if x < 0.5 and (not bound or rng.random() < 0.6):
                i, nm = rng.choice(pool), rng.choice(names)
                if rng.random() < 0.85:      # mostly imports that succeed
                    free = [y for y in pool if y not in bound]
                    if not free or not sets:
                        continue
                    i, nm = rng.choice(free), SETNAMES[rng.choice(sets)]
                bound.setdefault(i, nm)
                ws += imp(i, nm)
            elif x < 0.92:
                if bound and rng.random() < 0.85:
                    sid = rng.choice(sorted(bound))
                    n = rng.choice([13, 14]) if bound[sid] == 'GLSL.std.450' else rng.choice([0, 1, 2, 3, 4, 7, 100, 150, 199])
                    k = 1 if n in (13, 14) else n if n < 8 else rng.randrange(0, 6)
                    ws += use(sid, n, [g.num() for _ in range(k)])
                    continue
                n = rng.choice([13, 14, 13, 14, 0, 1, 2, 3, 4, 12, 15, 99, 100, 101, 199, 200, 13 + 65536, 14 + (1 << 31), rng.randrange(256)])
                k = 1 if n in (13, 14) and rng.random() < 0.7 else (n if n < 8 and rng.random() < 0.7 else rng.randrange(0, 6))
                ws += use(rng.choice(pool), n, [g.num() for _ in range(k)])
            else:
                ws += words(rng.choice([I('OpNop'), I('OpTypeVoid', [str(rng.choice(pool))]), I('OpString', [str(rng.choice(pool))], ['41'])]))
        cs.append(case(ws, sets, big=rng.random() < 0.3))
    # names that are almost those of the sets
    for sets in (['G'], ['A'], ['U'], ['Q'], ['P'], ['E'], ['B', 'A', 'G'], ['P', 'Q', 'G']):
        for k in sets:
            for nm in nearly(rng, SETNAMES[k]):
                if len(nm) < 300:
                    cs.append(case(HDR + imp(6, nm), sets))
                    cs.append(case(HDR + imp(5, SETNAMES[k]) + imp(6, nm), sets))
    # every instruction number of the library's own set; every operand count
    for n in list(range(0, 300)) + [1 << s for s in range(32)] + [13 | 1 << s for s in range(4, 32)] + [14 | 1 << s for s in range(4, 32)] + [rng.randrange(1 << 32) for _ in range(100)]:
        for k in (0, 1, 2):
            cs.append(case(HDR + imp(1, 'GLSL.std.450') + use(1, n, [5] * k), ['G']))
    for n in (13, 14):
        for v in BOUNDARY + list(extra):
            cs.append(case(HDR + imp(1, 'GLSL.std.450') + use(1, n, [v]), ['A', 'G']))
            cs.append(case(HDR + imp(v, 'GLSL.std.450') + use(v, n, [v], v, v), ['G']))
            cs.append(case(HDR + imp(v, 'GLSL.std.450') + use(v ^ 1, n, [v]), ['G']))
            cs.append(case(HDR + imp(v, 'GLSL.std.450') + use((v + 65536) & 0xffffffff, n, [v]), ['G']))
            cs.append(case(HDR + imp(v, 'GLSL.std.450') + use(v ^ 0x80000000, n, [v]), ['G']))
    # between an import and its uses anything may come, functions too
    for name in READABLE:
        if name in ('OpExtInstImport', 'OpExtInst'):
            continue
        for nm, n, k in (('GLSL.std.450', 13, 1), ('T.a', 3, 3)):
            x = words(g.inst(name))
            cs.append(case(HDR + imp(5, nm) + x + use(5, n, [7] * k) + x + use(5, n, [8] * k), ['G', 'A']))
            cs.append(case(HDR + imp(5, nm) + x + imp(5, nm), ['G', 'A']))
            cs.append(case(HDR + x + use(5, n, [7] * k) + imp(5, nm), ['G', 'A']))
    for _ in range(150 if tier == 'quick' else 2000):
        ls = LayoutGen(rng, extra)
        insts = [ls.of(c) for c in ls.module_classes()]
        a, b = rng.sample(range(1, 40), 2)
        ins = [[['OpExtInst'], [g.id()], [g.id()], [str(a)], ['G', rng.choice(['Sin', 'Cos']), g.id()]],
               [['OpExtInst'], [g.id()], [g.id()], [str(b)], ['A', '2', g.id(), g.id()]]]
        insts = [x for x in insts if x[0][0] not in ('OpExtInst', 'OpExtInstImport')]
        for _ in range(rng.randrange(1, 6)):
            insts.insert(rng.randrange(len(insts) + 1), rng.choice(ins))
        cs.append(case(HDR + imp(a, 'GLSL.std.450') + imp(b, 'T.a') + sum(map(words, [x for x in insts if x[0][0] in READABLE]), []), ['G', 'A']))
    # short extended instructions
    for k in range(0, 5):
        cs.append(case(HDR + imp(1, 'GLSL.std.450') + frame(12, [9, 8, 1, 13, 5][:k]), ['G']))
        cs.append(case(HDR + frame(12, [9, 8, 1, 13, 5][:k]), ['G']))
    # many imports; the position of the set in the caller's list; operand counts
    for n in [1, 2, 5, 8, 16, 17, 31, 32, 33, 64, 100] + EDGES + near(3, 600, 8):
        names = [rng.choice(['GLSL.std.450', 'T.a', 'T.b', 'caf\u00e9', 'GLSL.std.4500']) for _ in range(n)]
        ws = list(HDR)
        for k, nm in enumerate(names):
            ws += imp(k * rng.choice([1, 1, 3]) * 7 + 1 if False else k + 1, nm)
        for k in rng.sample(range(n), min(n, 12)):
            ws += use(k + 1, 13 if names[k] == 'GLSL.std.450' else 2, [k] if names[k] == 'GLSL.std.450' else [k, k + 1])
        cs.append(case(ws, ['U', 'Q', 'B', 'A', 'G']))
        cs.append(case(ws, ['A2', 'G', 'Q', 'A', 'B', 'U']))
        cs.append(case(ws + use(n + 1, 13, [1]), ['U', 'Q', 'B', 'A', 'G']))
        cs.append(case(ws + imp(rng.randrange(1, n + 1), 'T.a'), ['U', 'Q', 'B', 'A', 'G']))
        cs.append(case(ws + imp(n + 1, 'other'), ['U', 'Q', 'B', 'A', 'G']))
    # many sets to choose from
    for n in [5, 16, 33, 64, 100] + EDGES + near(4, 2000, 6):
        for last, nm, k in (('G', 'GLSL.std.450', 1), ('Q', SETNAMES['Q'], 13)):
            for at in {0, n // 2, n - 1, n}:
                others = [rng.choice(['A', 'B', 'U', 'P']) for _ in range(n)]
                cs.append(case(HDR + imp(7, nm) + imp(8, 'T.a') + use(7, 13, [1] * k), others[:at] + [last] + others[at:]))
        cs.append(case(HDR + imp(7, 'GLSL.std.450'), ['A'] * n))
    for n in LENS + [1000, 4097, 20000, 65530] + near(5, 65530, 12):
        cs.append(case(HDR + imp(4, 'T.a') + use(4, 150, [g.num() for _ in range(n)]) + words(I('OpNop')), ['A']))
        cs.append(case(HDR + imp(4, 'T.a') + use(4, min(n, 99), [g.num() for _ in range(n)]), ['A']))
    return cs


# ---- C01 ----
def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        x = rng.random()
        if not b:
            break
        p = rng.randrange(len(b))
        if p < 20 < len(b) and rng.random() < 0.9:
            p = rng.randrange(20, len(b))
        q = p - p % 4
        if x < 0.3:
            b[p] ^= 1 << rng.randrange(8)
        elif x < 0.5:
            b[p] = rng.randrange(256)
        elif x < 0.75:
            b[q:q + 4] = struct.pack('<I', rng.choice(BOUNDARY + [(rng.randrange(8) << 16) | rng.randrange(260), rng.randrange(1 << 32)]))
        elif x < 0.85:
            del b[p:]
        elif x < 0.92:
            del b[q:q + 4]
        else:
            b[q:q] = struct.pack('<I', rng.choice(BOUNDARY))
    return bytes(b)


def total_cases(rng, tier, extra):
    g = Gen(rng, extra)
    cs = []
    for op in list(range(0, 330)) + [400, 4000, 65535]:
        for n in list(range(0, 11)) + [13, 20]:
            for v in (0, 0xffffffff, None):
                w = [v if v is not None else g.num() for _ in range(n)]
                b = pack(HDR + frame(op, w))
                cs.append(case(b, ['G', 'A']))
    for _ in range(9000 if tier == 'quick' else 150000):
        sets = rng.choice([['G'], ['G', 'A', 'B'], []])
        ws = module(g.module_insts(rng.randrange(0, 9), sets))
        if len(ws) > 250:
            continue
        cs.append(case(mutate(rng, pack(ws, rng.random() < 0.3)), sets))
    for _ in range(1500):
        cs.append(case(bytes(rng.randrange(256) for _ in range(rng.randrange(0, 60)))))
        cs.append(case(pack(HDR, rng.random() < 0.5) + bytes(rng.randrange(256) for _ in range(rng.randrange(0, 40)))))
    return cs


CORPORA = {'C01': total_cases, 'C02': header_cases, 'C04': framing_cases, 'C05': operand_cases, 'C06': opcode_cases, 'C07': enum_cases, 'C08': string_cases, 'C09': extinst_cases}


def order_cases(rng, tier, extra):
    """C03: a bit of everything, each read in both byte orders."""
    cs = []
    for k in ('C01', 'C02', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09'):
        part = CORPORA[k](rng, 'quick', extra)
        n = {'C06': 3000}.get(k, 4000) * (1 if tier == 'quick' else 8)
        cs += rng.sample(part, min(n, len(part)))
    for c in cs:
        c.pop('pre', None)
        c['swap'] = 1
    # inputs that end in an incomplete word
    for c in rng.sample(cs, min(2000, len(cs))):
        b = bytes.fromhex(c['b'])
        if len(b) > 4:
            cs.append(case(b[:-rng.randrange(1, 4)], c['s'], swap=1))
    return cs


CORPORA['C03'] = order_cases


def other_headers(rng, cases):
    """Gives some of the inputs another generator and bound, which must not change how the instructions are read."""
    for c in cases:
        b = bytes.fromhex(c['b'])
        if len(b) <= 20 or rng.random() < 0.5:
            continue
        for big in (False, True):
            if b.startswith(pack(HDR, big)):
                body = b[20:20 + 4 * ((len(b) - 20) // 4)]
                ids = struct.unpack(('>' if big else '<') + '%dI' % (len(body) // 4), body)[:40]
                tool = rng.choice([rng.randrange(14), rng.randrange(14), rng.randrange(65536)])
                bound = rng.choice([rng.choice(BOUNDARY), rng.randrange(1 << 32), (rng.choice(ids or (0,)) + rng.choice([-1, 0, 1])) % (1 << 32), max(ids or (0,))])
                c['b'] = (pack([MAGIC, 0x10000, tool << 16 | rng.choice([0, 1, 2, 3, 7, 255, 65535, rng.randrange(65536)]), bound, 0], big) + b[20:]).hex()
    return cases


def count_insts(ws):
    n = p = 0
    while p < len(ws):
        n, p = n + 1, p + (ws[p] >> 16)
    return n


def big_cases(rng, tier):
    """Large inputs (C01): pieces [words, instructions in it, times]; each comes with a small version."""
    m = 1 if tier == 'quick' else 6
    imp = frame(11, [1] + wstr(b'GLSL.std.450'))
    nop, void, ret = words(I('OpNop')), words(I('OpTypeVoid', ['5'])), words(I('OpReturn'))
    L = lambda f, hi, lo: (f(hi), f(lo))     # a long instruction and the like of it
    big = [[(nop, 1, 300000 * m)], [(nop, 1, 1100000)], [(void, 1, 200000 * m)], [(words(I('OpName', ['5'], ['61'] * 40)), 1, 30000 * m)],
           [(L(lambda n: frame(30, [1] + [2] * n), 65533, 6), 1, 8 * m)], [(L(lambda n: frame(7, [1] + wstr(b'x' * (4 * n))), 65531, 5), 1, 8 * m)],
           [(imp, 1, 1), (frame(12, [1, 2, 1, 13, 5]), 1, 100000 * m)], [(nop, 1, 100000 * m), ([0xffff0000], 0, 1)],
           [(nop, 1, 100000 * m), ([0], 0, 1)], [(nop, 1, 100000 * m), ([1], 0, 1)], [(L(lambda n: frame(245, [1, 2] + [3] * n), 65532, 8), 1, 8 * m)],
           [(ret, 1, 200000 * m), ([(2 << 16) | 400, 1], 0, 1)], [(ret, 1, 200000 * m), ([(3 << 16) | 19, 1, 1], 0, 1)],
           [(L(lambda n: frame(15, [4, 1] + wstr(b'm' * n) + [7] * (n // 3)), 100000, 9), 1, 4 * m)], [(L(lambda n: nop * n, 1000, 1000), 1000, 200 * m)],
           [(L(lambda n: frame(71, [7, 41] + wstr(b'z' * n) + [1]), 200000, 9), 1, 4 * m)], [(L(lambda n: frame(80, [1, 2] + [3] * n), 1000, 5), 1, 300 * m)],
           [(L(lambda n: frame(5, [7] + wstr('\u00e9'.encode() * n)), 30000, 7), 1, 20 * m)], [(frame(3, [2, 450]), 1, 100000 * m)],
           [(frame(246, [5, 6, 0]), 1, 100000 * m)], [(frame(250, [1, 2, 3, 4, 5]), 1, 100000 * m)],
           [(L(lambda n: frame(9, [0] * n), 65534, 6), 0, 4)], [(L(lambda n: frame(7, [1] + [0x61616161] * n), 65533, 5), 0, 2)],
           [(L(lambda n: frame(4, wstr(b'q' * n) + [1]), 200000, 5), 0, 2)]]
    big = [[p + ((),) for p in ps] for ps in big]
    # the marked words are different in each repetition
    for w, v, n in ((void, [4], 150000), (words(I('OpName', ['5'], ['61'] * 8)), [4], 60000), (words(I('OpString', ['5'], ['61'] * 8)), [4], 60000),
                    (frame(71, [5, 0]), [4], 100000), (frame(43, [5, 6, 7]), [8, 12], 100000), (frame(43, [5, 6, 7]), [4, 8, 12], 100000), (frame(248, [5]), [4], 150000),
                    (frame(54, [1, 2, 0, 3]), [8], 60000), (frame(59, [1, 2, 7]), [4, 8], 80000), (frame(61, [1, 2, 3]), [4, 8, 12], 80000), (frame(245, [1, 2, 3, 4]), [8, 12], 60000),
                    (frame(30, [1, 2, 3, 4]), [4, 8, 16], 60000), (frame(250, [1, 2, 3]), [8, 12], 60000), (frame(32, [1, 2, 3]), [4, 12], 60000),
                    (frame(248, [5]) + frame(128, [1, 2, 3, 4]) + frame(249, [9]), [4, 16, 32], 40000), (frame(10, wstr(b'ext0001')), [4], 0)):
        if n:
            big.append([(w, len(w) and count_insts(w), n * m, v)])
    big.append([(imp, 1, 1, ()), (frame(12, [1, 2, 1, 13, 5]), 1, 60000 * m, [4, 8, 20])])
    for n in near(3, 300000, 6):
        big.append([(void, 1, n, [4])])
        big.append([(imp, 1, 1, ()), (frame(12, [1, 2, 1, 13, 5]), 1, n, [8])])
    # very many of each instruction
    g = Gen(rng)
    for name in READABLE:
        if name in ('OpExtInst', 'OpExtInstImport'):
            continue
        for _ in range(50):
            w = words(g.inst(name))
            if len(w) < 10:
                big.append([(w, 1, 50000 * m, ())])
                break
    big = [[((w[0], w[1]) if isinstance(w, tuple) else (w, w), k, n, v) for w, k, n, v in ps] for ps in big]
    h = pack(HDR).hex()
    out = []
    for ps in big:
        b = {'op': 'read', 'b': h, 's': ['G', 'A'], 'brief': 1, 'rep': [{'b': pack(w[0]).hex(), 'n': n, 'v': list(v)} for w, _, n, v in ps], 'ps': [{'n': n, 'insts': k} for _, k, n, _ in ps]}
        total = sum(k * n for _, k, n, _ in ps)
        b['at'] = [p for p in sorted({0, 1, total - 1, total - 2, total // 2} | {(1 << j) + d for j in range(4, 21) for d in (-1, 0, 1)} | {rng.randrange(max(1, total)) for _ in range(20)}
                                     | set(near(0, 2000000))) if 0 <= p < total and all(len(w[0]) < 60 for w, _, _, _ in ps)]
        if b['at']:
            for q, (w, k, n, v) in zip(b['ps'], ps):
                q['w'], q['v'], j = [], [], 0
                while j < len(w[0]) and k:
                    c = w[0][j] >> 16
                    q['w'].append([[x >> 16, x & 0xffff] for x in w[0][j:j + c]])
                    q['v'].append([x // 4 - j + 1 for x in v if j <= x // 4 < j + c])
                    j += c
        few = [w[1] for w, _, n, _ in ps for _ in range(min(n, 2))]
        out.append((b, case(HDR + sum(few, []), ['G', 'A'])))
    # many imports under different ids
    ws = []
    for k in range(20000):
        ws += frame(11, [k] + wstr(b'T.a'))
    out.append(({'op': 'read', 'b': pack(HDR + ws).hex(), 's': ['A'], 'brief': 1, 'ps': [{'n': 20000, 'insts': 1}]}, case(HDR + ws[:9], ['A'])))
    two = lambda k: frame(11, [k] + wstr(b'T.a'))
    out.append(({'op': 'read', 'b': h, 's': ['A'], 'brief': 1, 'rep': [{'b': pack(two(1)).hex(), 'n': 400000 * m, 'v': [4]}], 'ps': [{'n': 400000 * m, 'insts': 1}]}, case(HDR + two(1) + two(2), ['A'])))
    return out


def cost_record(n, c, r):
    return {'n': n, 'ps': [dict({'w': [], 'v': []}, **p) for p in c['ps']], 'at': c.get('at', []), 'got': r.get('got', []), 'k': r['k'], 'cnt': r.get('cnt', 0), 'e': r.get('e', []), 'len': r.get('len', 0), 'mem': r.get('mem', 0), 'tmem': r.get('tmem', 0),
            'ms': r.get('ms', 0), 'small': c['small']}
