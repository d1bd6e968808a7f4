"""Extended instruction sets that take their operands in every way (C25)."""
from . import asm
from .asm import frame, pack, t

SCALARS = ['id', 'res', 'u32', 'ver', 'member', 'str', 'srclang', 'pair', 'weightpair']
KINDS = [(k, '') for k in SCALARS] + [('enum', n) for n in t.ENUMS if not n.startswith('Sampler')] + [('mask', n) for n in t.MASKS] + [('comp', n) for n in t.COMPS]
HOWS = ('one', 'opt', 'all')


def case(insts, hdr=asm.HDR, big=False, between=(), nums=None):
    """insts: (operand words, script) per instruction; between: instructions to put before each; nums: their numbers, all different."""
    nums = nums or list(range(len(insts)))
    ws = list(hdr) + frame(11, [1] + asm.wstr(b'T.s'))
    for k, (w, s) in enumerate(insts):
        for b in between:
            ws += asm.words(b)
        ws += frame(12, [90 + k, 100 + k, 1, nums[k]] + list(w))
    return {'op': 'offer', 'b': pack(ws, big).hex(), 'm': [list(w) for w, s in insts], 't': [[list(x) for x in s] for w, s in insts], 'u': [str(x) for x in nums]}


def record(n, c, r):
    return {'n': n, 'k': r['k'], 'e': r.get('e', []), 'l': r.get('l', []), 'num': c['u'],
            'w': [[[x >> 16, x & 0xffff] for x in w] for w in c['m']], 's': c['t']}


def value(rng, kind, extra):
    """Words of an operand of the kind, mostly good."""
    k, n = kind
    r = rng.random()
    if k == 'str':
        b = bytes(rng.choice([0x41, 0x42, 0x7f, 0x20]) for _ in range(rng.randrange(0, 14)))
        if r < 0.1:
            b += '\u00e9\u20ac\U0001f600'.encode()[:rng.randrange(1, 10)]
        w = asm.wstr(b)
        return w[:-1] if r > 0.95 else w
    if k in ('pair', 'weightpair'):
        return [rng.choice(asm.BOUNDARY), rng.choice(asm.BOUNDARY)]
    if k == 'enum':
        return [rng.choice(sorted(asm.ENUMVALS[n].values()))] if r < 0.93 else [rng.choice(asm.BOUNDARY + extra)]
    if k == 'mask':
        top = 1 << len(asm.MASKBITS[n])
        v = rng.randrange(top) if r < 0.93 else rng.choice(asm.BOUNDARY + extra + [top, top + 1, 2 * top])
        return [v] + ([rng.choice(asm.BOUNDARY)] if 'DependencyLength' in asm.MASKBITS[n] and v < top and v >= top // 2 else [])
    if k == 'comp':
        if r > 0.95:
            return [rng.choice(asm.BOUNDARY + extra)]
        a = rng.choice(sorted(asm.ENUMVALS[n]))
        ws = [asm.ENUMVALS[n][a]]
        for z in asm.COMPARGS[n][a]:
            p, _, q = z.partition(':')
            ws += value(rng, (p, q), extra)
        return ws
    if k == 'srclang':
        return [rng.choice([0, 1, 2, 3, 4, 5, 6, 0x10000, 0xffffffff])]
    return [rng.choice(asm.BOUNDARY + extra) if r < 0.7 else rng.randrange(2 ** 32)]


def number(rng, extra):
    return rng.choice([rng.randrange(16), rng.randrange(300), rng.choice(asm.BOUNDARY + extra) & 0xffffffff, rng.randrange(2 ** 32)])


def word_ways(rng):
    return rng.choice([('one', 'word', ''), ('one', 'opid', '')])


def cases(rng, tier, extra):
    out = []
    # each way of taking each kind, of none to several operands, and of what is cut short or too long
    for kind in KINDS:
        for how in HOWS:
            step = (how,) + kind
            for n in (0, 1, 2, 3, 5):
                ws = [w for _ in range(n) for w in value(rng, kind, [])]
                out.append(case([(ws, [step])]))
                out.append(case([(ws, [('one', 'word', ''), step, ('opt', 'u32', ''), ('all', 'id', '')])]))
                if ws:
                    out.append(case([(ws[:-1], [step])], big=True))
                    out.append(case([(ws + [7], [step, ('one', 'opid', '')])], big=n % 2 == 1))
                    out.append(case([(ws, [step] * n)]))
                out.append(case([([3] + ws, [('one', 'word', ''), step, step, ('all',) + kind])]))
    # every value an enumerated operand can have, all at once and in turn
    for n in [n for k, n in KINDS if k in ('enum', 'mask')]:
        k = 'enum' if n in t.ENUMS else 'mask'
        vs = sorted(asm.ENUMVALS[n].values()) if k == 'enum' else [v for v in range(1 << len(asm.MASKBITS[n])) if 'DependencyLength' not in asm.MASKBITS[n] or v < 4]
        out.append(case([(vs, [('all', k, n)])]))
        out.append(case([(vs, [('one', k, n)] * len(vs))]))
        out.append(case([(vs, [('opt', k, n)] * (len(vs) + 1))]))
        for v in sorted(set(range(70)) | {65535, 65536, 0xffffffff}):
            out.append(case([([v], [('one', k, n)])]))
            out.append(case([([vs[0], v, vs[-1]], [('all', k, n)])]))
    # any number may be that of an instruction
    for n in sorted(set(range(300)) | {1 << k for k in range(32)} | {(1 << k) - 1 for k in range(33)} | set(asm.BOUNDARY) | set(x & 0xffffffff for x in extra)):
        out.append(case([([7, 8], [('one', 'word', ''), ('all', 'id', '')])], nums=[n], big=n % 2 == 1))
        out.append(case([([7], [('one', 'u32', '')]), ([9, 0], [('all', 'u32', '')])], nums=[n, n ^ rng.choice([1, 0x80000000, 0x10000, 0x100])]))
    # a set that refuses, at once or after some operands, with any error
    for name, k, _ in t.ERRORS:
        for n in (rng.choice([1, 13, 200]), rng.choice([65535, 65536, 0x5000d, 0xffffffff]), number(rng, extra)):
            e = ['fail', name]
            if k.startswith('unhex'):
                e += ['41', '42']
            elif k.startswith('leak'):
                e += ['T.s'] + [str(n)] * (k.count('s[2]'))
            elif k:
                w = 255 if 'u8' in k else 65535 if 'u16' in k else 0xffffffff
                e += [str(rng.choice([n, rng.randrange(1 << 32)]) & w) for _ in range(k.count('num('))] or [str(n)]
            for m in (0, 1, 3):
                ws = [rng.choice(asm.BOUNDARY) for _ in range(rng.choice([m, m, 3, 5]))]
                out.append(case([(ws, [word_ways(rng)] * m + [e])], nums=[n], big=m == 1))
            out.append(case([([7], [('one', 'u32', '')]), ([8, 9], [('all', 'id', ''), e]), ([7], [('one', 'u32', '')])], nums=[n, n ^ 0x10000, n ^ 1]))
    # long lists
    for kind in KINDS:
        n = rng.choice([17, 64, 200])
        ws = [w for _ in range(n) for w in value(rng, kind, [])][:3000]
        out.append(case([(ws, [('all',) + kind])]))
    for n in sorted({15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096} | set(asm.near(1, 6000))):
        ws = [rng.randrange(2 ** 32) for _ in range(n)]
        out.append(case([(ws, [('all', 'u32', '')])]))
        out.append(case([(ws, [('one', 'word', ''), ('opt', 'id', ''), ('all', 'id', '')])]))
        if n <= 300:
            out.append(case([(ws, [word_ways(rng) for _ in range(n)])]))
            out.append(case([(ws, [word_ways(rng) for _ in range(n - 1)])]))
            out.append(case([(ws, [word_ways(rng) for _ in range(n + 1)])]))
            out.append(case([(asm.wstr(b'x' * n), [('one', 'str', '')])]))
            out.append(case([(asm.wstr(b'x' * n) + ws[:3], [('one', 'str', ''), ('all', 'u32', '')])]))
    # random scripts over words made for them (and a few words more or less), several instructions in a module
    for _ in range(4000 if tier == 'quick' else 60000):
        insts = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            sc, ws = [], []
            for _ in range(rng.randrange(0, 7)):
                if rng.random() < 0.2:
                    sc.append(word_ways(rng))
                    ws.append(rng.choice(asm.BOUNDARY))
                    continue
                kind = rng.choice(KINDS)
                how = rng.choice(['one', 'one', 'one', 'opt', 'all'])
                sc.append((how,) + kind)
                for _ in range(1 if how != 'all' else rng.randrange(0, 4)):
                    ws += value(rng, kind, extra)
            r = rng.random()
            if r < 0.1:
                ws.append(rng.choice(asm.BOUNDARY))
            elif r < 0.2 and ws:
                ws.pop()
            elif r < 0.25 and ws:
                ws[rng.randrange(len(ws))] = rng.choice(asm.BOUNDARY)
            insts.append((ws, sc))
        between = [rng.choice([[['OpNop']], [['OpName'], ['5'], ['61', '62']], [['OpCapability'], ['Shader']]]) for _ in range(rng.randrange(0, 2))]
        nums = [n for n in dict.fromkeys(number(rng, extra) for _ in range(12))][:len(insts)]
        out.append(case(insts, big=rng.random() < 0.4, between=between, nums=nums if rng.random() < 0.5 and len(nums) == len(insts) else None))
    return out


def wrong(r, rng):
    """A wrong copy of a record."""
    full = [(i, j) for i, x in enumerate(r['l']) for j, _ in enumerate(x[1])]
    k = rng.randrange(5)
    if k == 0 and full:
        i, j = rng.choice(full)
        r['l'][i][1][j][0] += 1
    elif k == 1 and full:
        i, j = rng.choice(full)
        r['l'][i][1][j][1] = not r['l'][i][1][j][1]
    elif k == 2 and full:
        i, j = rng.choice(full)
        v = r['l'][i][1][j][2]
        if not v:
            v.append(['0'])
        else:
            v.pop()
    elif k == 3:
        r['k'], r['e'] = ('err', ['InstructionHadExcessData']) if r['k'] == 'ok' else ('ok', [])
    elif k == 4 and r['l']:
        r['l'][0][0] = str(int(r['l'][0][0]) + 1)
    else:
        return None
    return r
