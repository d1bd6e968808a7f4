"""Corpora for texts (C18, C19) and for equality and copies (C20)."""
import copy, itertools, random
from . import flow
from .asm import *
from .layout import LGen, place

TOOLNAMES = [a for v, a, x in t.TOOLS]
NUMS = sorted(set(BOUNDARY + [10 ** k - 1 for k in range(1, 11)] + [10 ** k for k in range(10)]))
NUMS = [n for n in NUMS if n < 2 ** 32]


def masks(name):
    out = []
    bits = MASKBITS[name]
    for k in range(1 << len(bits)):
        f = [x for j, x in enumerate(bits) if k >> j & 1]
        if 'DependencyLength' in f:
            for n in ('0', '1', '77', '4294967295'):
                out.append(f + [n])
        else:
            out.append(f)
    return out


def variety(g, k):
    """Values of an operand that together show everything about it."""
    r = g.r
    a, _, b = k.partition(':')
    if a in ('id', 'res', 'u32', 'ver', 'member'):
        return [[str(n)] for n in r.sample(NUMS, 6)] + [['0'], ['4294967295'], ['2147483648']]
    if a == 'optid':
        return [[], ['0'], ['4294967295'], [g.id()]]
    if a == 'str':
        return [[hex2(x) for x in s.encode('utf8')] for s in STRINGS if not any(0xd800 <= ord(c) < 0xe000 for c in s)]
    if a == 'optstr':
        return [[]] + [['some'] + v for v in variety(g, 'str')]
    if a in ('vecid', 'vecu32'):
        return [[g.id() for _ in range(n)] for n in (0, 1, 2, 3, 4, 5, 8, 9, 16, 17)]
    if a == 'phi':
        return [[g.id() for _ in range(2 * n)] for n in (0, 1, 2, 3, 8)]
    if a == 'weights':
        return [[], ['0', '0'], ['0', '1'], ['1', '0'], ['4294967295', '4294967294'], ['1', '1'], [g.id(), g.id()]]
    if a == 'enum':
        return [[v] for v in ENUMVALS[b]]
    if a == 'optenum':
        return [[]] + [[v] for v in ENUMVALS[b]]
    if a == 'mask':
        return masks(b)
    if a == 'optmask':
        return [[]] + [['some'] + v for v in masks(b)]
    if a == 'srclang':
        return [[v] for v in LANG] + [['Other', str(n)] for n in (5, 6, 99, 65535, 4294967295)]
    if a == 'comp':
        out = []
        for v in ENUMVALS[b]:
            if v == 'LinkageAttributes':
                out += [[v, l] + s for l in ENUMVALS['LinkageType'] for s in variety(g, 'str')[::4]]
                continue
            ks = COMPARGS[b][v]
            if not ks:
                out.append([v])
            elif ks[0].startswith('mask'):
                out += [[v] + m for m in masks(ks[0][5:])]
            elif ks[0].startswith('enum'):
                out += [[v, e] for e in ENUMVALS[ks[0][5:]]]
            else:
                for _ in range(3):
                    out.append([v] + [str(r.choice(NUMS)) for _ in ks])
                out.append([v] + [str(j) for j in range(len(ks))])
        return out
    if a == 'ext':
        out = [['G', n, i] for n in ('Sin', 'Cos') for i in ('0', '9', '4294967295')]
        for s in ('A', 'B', 'A2', 'P', 'Q', 'L'):
            out += [[s, '0'], [s, '1', g.id()], [s, '3', g.id(), g.id(), g.id()], [s, '150'], [s, '101', g.id(), g.id()]]
        return out
    raise ValueError(k)


def hex2(b):
    return '%02x' % b


def systematic(g, name):
    """Instances of an instruction in which each operand takes each of its values."""
    out = []
    for j, k in enumerate(FIELDS[name]):
        for v in variety(g, k):
            i = g.inst(name)
            i[j + 1] = v
            out.append(i)
    return out or [[[name]]]


def headers(rng, g):
    v = rng.choice([['1', '0'], ['1', '0'], [str(rng.randrange(256)), str(rng.randrange(256))]])
    tool = [rng.choice(TOOLNAMES)] if rng.random() < 0.7 else ['Other', str(rng.choice([12, 13, 255, 256, 65535, rng.randrange(12, 65536)]))]
    return [v, tool, [str(rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)]))], [g.id()]]


def dis_cases(rng, tier, extra):
    g = LGen(rng, extra)
    insts = []
    for name in ALLOPS:
        for _ in range(2 if tier == 'quick' else 8):
            insts += systematic(g, name)
        for _ in range(12 if tier == 'quick' else 100):
            insts.append(g.inst(name))
    # a source text without a file exists as a value
    for s in variety(g, 'optstr')[::3]:
        insts.append([['OpSource'], ['Glsl'], ['450'], [], s])
    from .reader import enum_pairs
    insts += enum_pairs(g)
    out_rows = rows(g, ALLOPS)
    rng.shuffle(insts)
    out, k = [{'op': 'dis', 'h': headers(rng, g), 'i': row} for row in out_rows], 0
    while k < len(insts):
        n = rng.choice([1, 2, 4, 8, 12])
        out.append({'op': 'dis', 'h': headers(rng, g), 'i': insts[k:k + n]})
        k += n
    out.append({'op': 'dis', 'h': headers(rng, g), 'i': []})
    # each line directly after each
    for ns in neighbours(rng, READABLE if tier == 'quick' else ALLOPS, 60):
        out.append({'op': 'dis', 'h': headers(rng, g), 'i': [g.inst(n) for n in ns]})
    # long strings, long lists, long modules
    sizes = [100, 127, 128, 129, 255, 256, 257, 500, 1000, 1023, 1024, 1025, 2000, 2048, 4096, 4097, 5000] + near(70, 60000, 10)
    for n in sizes + [10000, 20000, 65530]:
        for _ in range(2 if n < 6000 else 1):
            name, j = rng.choice([(a, k) for a in ALLOPS for k, x in enumerate(FIELDS[a]) if x.split(':')[0] in ('str', 'optstr')])
            b = [rng.randrange(32, 127) for _ in range(n)] if rng.random() < 0.5 else list(''.join(rng.choice(TOKENS) for _ in range(n // 3)).encode())
            i = g.inst(name)
            i[j + 1] = (['some'] if FIELDS[name][j] == 'optstr' else []) + [hex2(x) for x in b]
            out.append({'op': 'dis', 'h': headers(rng, g), 'i': [i]})
        for _ in range(2 if n < 6000 else 1):
            name, j, a = rng.choice([(a, k, x.split(':')[0]) for a in ALLOPS for k, x in enumerate(FIELDS[a]) if x.split(':')[0] in ('vecid', 'vecu32', 'phi')])
            i = g.inst(name)
            i[j + 1] = [str(v) for v in rng.choices([0, 1, 7, 65536, 0xffffffff, 12345, rng.randrange(1 << 32)], k=n - n % 2)]
            out.append({'op': 'dis', 'h': headers(rng, g), 'i': [i]})
        if n < 1100:
            out.append({'op': 'dis', 'h': headers(rng, g), 'i': [g.inst(rng.choice(['OpNop', 'OpReturn', 'OpTypeVoid', 'OpLabel', 'OpIAdd', 'OpTypeInt', 'OpCapability'])) for _ in range(n)]})
    i = g.inst('OpExtInst')
    for n in [64, 300, 5000]:
        out.append({'op': 'dis', 'h': headers(rng, g), 'i': [i[:4] + [['A', '150'] + [g.id() for _ in range(n)]]]})
    for x in [[a] for a in TOOLNAMES] + [['Other', str(n)] for n in (12, 100, 65535)]:
        for v in ('0', '7', '65535'):
            out.append({'op': 'dis', 'h': [['1', '0'], x, [v], [str(rng.choice(NUMS))]], 'i': []})
    for n in NUMS:
        out.append({'op': 'dis', 'h': [[str(n % 256), str(n // 256 % 256)], ['Intel'], [str(n % 65536)], [str(n)]], 'i': [[['OpLabel'], [str(n)]]]})
    # to destinations that fail: with no room, with room for the header, within a line, at its end, for nearly all
    for c in out:
        if len(c['i']) < 13 and rng.random() < (0.3 if tier == 'quick' else 1):
            c['lim'] = limits(rng, 80 + 30 * len(c['i']))
    return out


def limits(rng, n):
    """Room in bytes, times two, plus one when the destination fails only once."""
    return [2 * rng.choice([0, 1, 9, 26, rng.randrange(n), rng.randrange(n), rng.randrange(n), 10 * n]) + rng.randrange(2) for _ in range(4)]


def dis_record(n, c, r):
    return {'n': n, 'h': c['h'], 'i': c['i'], 'k': r['k'], 'w': r.get('w', ''), 's': r.get('s', []), 'g': r.get('g', []), 'l': r.get('l', [])}


def wrong_dis(r, rng):
    if not r['s']:
        return None
    x = rng.randrange(5)
    if x == 4:
        if not r['l']:
            return None
        l = rng.choice(r['l'])
        if rng.random() < 0.5:
            l['k'] = 'err' if l['k'] == 'ok' else 'ok'
        else:
            l['t'] = l['t'] + 'x'
    elif x == 0:
        ls = r['w'].split('\\0a')
        if len(ls) < 8:
            return None
        k = rng.randrange(5, len(ls) - 2)
        ls[k], ls[k + 1] = ls[k + 1], ls[k]
        r['w'] = '\\0a'.join(ls)
    elif x == 1:
        k = rng.randrange(len(r['s']))
        if len(r['s'][k].split()) < 3:
            return None
        r['s'][k] = r['s'][k].rsplit(' ', 1)[0]
    elif x == 2:
        r['w'] = r['w'].replace('%', '', 1)
    else:
        ks = [k for k in range(len(r['g'])) if r['g'][k]]
        if not ks:
            return None
        r['g'][rng.choice(ks)] = 'OpNop'
    return r


# ---- printed control flow ----
def print_cases(rng, tier, extra, tmp):
    n = 1200 if tier == 'quick' else 12000
    out = flow.program_cases(rng, tier, extra, tmp, n)
    out += flow.function_cases(rng, tier, extra, small=False, n=n)
    P = flow.Programs(rng, extra)
    # every instruction as a body instruction
    for name in CODE + ['OpVariable']:
        for _ in range(2 if tier == 'quick' else 8):
            p = P.program(rng.choice([1, 2, 3, 5]), 3)
            bs = flow.lower(p)
            for b in bs:
                for _ in range(rng.randrange(0, 3)):
                    i = P.g.inst(name)
                    b[1].append(i)
            out.append(flow.fcase(bs))
    # long bodies, many blocks
    for n in EDGES + near(20, 2000, 6):
        code = [P.g.inst(rng.choice(['OpNop', 'OpIAdd', 'OpLoad', 'OpUndef'])) for _ in range(n)]
        out.append(flow.fcase([flow.block(1, flow.jump(2), None, code), flow.block(2, flow.RET)]))
        out.append(flow.fcase([flow.block(1, flow.cond(2, 3), flow.selm(3)), flow.block(2, flow.jump(3), None, code), flow.block(3, flow.RET, None, code[:3])]))
    for c in out:
        c['txt'] = 1
        if len(c['blocks']) < 20 and rng.random() < (0.2 if tier == 'quick' else 1):
            c['lim'] = limits(rng, 60 * len(c['blocks']) + 1)
    return out


def print_record(n, c, r):
    return {'n': n, 'blocks': c['blocks'], 'k': r['k'], 'c': flow.chain(r), 't': r.get('t', []), 'p': r.get('p', []), 'lt': r.get('lt', []), 'lp': r.get('lp', [])}


def wrong_print(r, rng):
    w = rng.choice(['t', 'p', 'lt', 'lp'])
    if w in ('lt', 'lp'):
        if not r[w]:
            return None
        l = rng.choice(r[w])
        if rng.random() < 0.5:
            l['k'] = 'err' if l['k'] == 'ok' else 'ok'
        else:
            l['t'] = l['t'] + 'x'
        return r
    if len(r[w]) < 3:
        return None
    k = rng.randrange(len(r[w]) - 1)
    x = rng.randrange(4)
    if x == 0:
        r[w][k], r[w][k + 1] = r[w][k + 1], r[w][k]
    elif x == 1:
        r[w][k] = '    ' + r[w][k]
    elif x == 2:
        del r[w][k]
    else:
        r[w][k] = r[w][k].replace('1', '2', 1)
    return r


# ---- equality and copies ----
def other_value(g, k, v):
    """A different value of the same operand, often a close one."""
    r = g.r
    a, _, b = k.partition(':')
    for _ in range(40):
        x = r.random()
        w = list(v)
        if a in ('optid', 'optmask', 'optstr', 'weights') and x < 0.35:
            # not there, and there but empty
            empty = {'optid': ['0'], 'weights': ['0', '0']}.get(a, ['some'])
            w = [] if v == empty else empty if not v else r.choice([[], empty])
        elif a in ('id', 'res', 'u32', 'ver', 'member'):
            n = int(v[0])
            w = [str(r.choice([n ^ 1, n ^ (1 << r.randrange(32)), (n + 1) % 2 ** 32, (n + 65536) % 2 ** 32, (n + 256) % 2 ** 32, g.num()]))]
        elif a in ('vecid', 'vecu32') and v and x < 0.8:
            p = r.randrange(len(v))
            if x < 0.3:
                w[p] = str(int(v[p]) ^ (1 << r.randrange(32)))
            elif x < 0.5:
                del w[p]
            elif x < 0.65:
                w.append(g.id())
            else:
                r.shuffle(w)
        elif a == 'str' and v and x < 0.8:
            p = r.randrange(len(v))
            if x < 0.4 and int(v[p], 16) < 0x7e:
                w[p] = '%02x' % (int(v[p], 16) + 1)
            elif x < 0.6 and int(v[-1], 16) < 0x80:
                w = w[:-1]
            else:
                w = w + ['61']
        elif a == 'phi' and len(v) > 1 and x < 0.6:
            p = r.randrange(len(v))
            if x < 0.3:
                w[p] = str(int(v[p]) ^ 1)
            else:
                w = w[:-2] if x < 0.45 else w[2:] + w[:2]
        elif a == 'weights' and v and x < 0.7:
            w = [v[1], v[0]] if x < 0.2 else [v[0], str(int(v[1]) ^ 1)] if x < 0.45 else [str(int(v[0]) ^ 1), v[1]]
        elif a == 'ext' and x < 0.8:
            if v[0] == 'G':
                w = ['G', 'Cos' if v[1] == 'Sin' else 'Sin', v[2]] if x < 0.3 else ['G', v[1], str(int(v[2]) ^ 1)]
            elif x < 0.3:
                w = [r.choice(['A', 'B', 'A2', 'P'])] + v[1:]
            elif len(v) > 2:
                p = r.randrange(2, len(v))
                w[p] = str(int(v[p]) ^ 1)
            else:
                w = [v[0], '100']
        elif a == 'comp' and len(v) > 1 and x < 0.6 and v[0] != 'LinkageAttributes' and COMPARGS[b][v[0]][0] in ('u32', 'id'):
            p = r.randrange(1, len(v))
            w[p] = str(int(v[p]) ^ (1 << r.randrange(32)))
        elif a == 'comp' and v[0] == 'LinkageAttributes' and x < 0.6:
            w = [v[0], 'Import' if v[1] == 'Export' else 'Export'] + v[2:] if x < 0.3 else v + ['62']
        else:
            w = r.choice(variety(g, k))
        if w != v:
            return w
    return None


def rows(g, names, reps=1):
    """Short runs of one instruction whose neighbours are equal but for one operand."""
    r, out = g.r, []
    for name in names:
        for k, kind in enumerate(FIELDS[name]):
            a, _, b = kind.partition(':')
            firsts = [g.inst(name) for _ in range(reps)]
            if a == 'comp':
                for v in ENUMVALS[b]:
                    if COMPARGS[b][v] or v == 'LinkageAttributes':
                        i = g.inst(name)
                        i[k + 1] = g.comp(b, v)
                        firsts.append(i)
            for i in firsts:
                for _ in range(6):
                    w = other_value(g, kind, i[k + 1])
                    if a != 'comp' or w is None or w[0] == i[k + 1][0] or len(i[k + 1]) < 2:
                        break
                if w is None:
                    continue
                j = i[:k + 1] + [w] + i[k + 2:]
                if name == 'OpSource' and not j[3] and j[4]:
                    continue
                x = r.random()
                out.append([i, j] if x < 0.5 else [i, j, i] if x < 0.7 else [i, i, j] if x < 0.85 else [i, g.inst(name), j])
    return out


def permuted(g, name, reps):
    """Pairs of instructions with the same operands in different places: two of a kind exchanged, lists in another order."""
    r, out = g.r, []
    ks = FIELDS[name]
    one = [j for j, k in enumerate(ks) if k in ('id', 'res', 'u32', 'member', 'ver')]
    for a, b in itertools.combinations(one, 2):
        for _ in range(reps):
            i = g.inst(name)
            if i[a + 1] == i[b + 1]:
                i[b + 1] = [str(int(i[a + 1][0]) ^ 1)]
            i2 = list(i)
            i2[a + 1], i2[b + 1] = i[b + 1], i[a + 1]
            out.append((i, i2))
    for j, k in enumerate(ks):
        if k.split(':')[0] not in ('vecid', 'vecu32', 'phi', 'weights', 'ext', 'str'):
            continue
        for q in range(4 * reps):
            i = g.inst(name)
            n = r.choice([2, 2, 3, 4, 5, 8])
            v = [str(x) for x in r.sample(range(1, 60), 2 * n)]
            if k == 'ext':
                v = ['A', '150'] + v
            elif k == 'str':
                v = ['%02x' % x for x in r.sample(range(97, 123), n)]
            elif k == 'weights':
                v = v[:2]
            elif k != 'phi':
                v = v[:n]
            w = list(v)
            lo = 2 if k == 'ext' else 0
            if q % 4 == 0:
                w[lo:] = w[lo:][::-1]
            elif q % 4 == 1:
                w[lo], w[-1] = w[-1], w[lo]
            elif q % 4 == 2:
                w = w[:lo] + sorted(w[lo:])
            elif k == 'phi':            # whole pairs exchanged, or the two of every pair
                w = [x for c in range(len(v) - 2, -1, -2) for x in v[c:c + 2]] if r.random() < 0.5 else [v[c ^ 1] for c in range(len(v))]
            else:
                w = w[:lo] + w[lo + 1:] + w[lo:lo + 1]
            if w != v:
                i[j + 1] = v
                i2 = list(i)
                i2[j + 1] = w
                out.append((i, i2))
    # an operand of one list moved to the operand before it, or repeated
    for j, k in enumerate(ks):
        if k.split(':')[0] in ('vecid', 'vecu32') and j and ks[j - 1] in ('id', 'res', 'u32'):
            for _ in range(reps):
                i = g.inst(name)
                i[j + 1] = [g.id(), g.id()]
                i2 = list(i)
                i2[j], i2[j + 1] = [i[j + 1][0]], [i[j][0], i[j + 1][1]]
                if i != i2:
                    out.append((i, i2))
    return out


def loose_cases(rng, tier, extra):
    g = LGen(rng, extra)
    out = []
    q = tier == 'quick'
    for name in LOOSE:
        for i in systematic(g, name):
            out.append({'op': 'loose', 'a': i, 'b': copy.deepcopy(i)})
        for _ in range(6 if q else 60):
            for j, k in enumerate(FIELDS[name]):
                i = g.inst(name)
                w = other_value(g, k, i[j + 1])
                if w is not None:
                    i2 = list(i)
                    i2[j + 1] = w
                    out.append({'op': 'loose', 'a': i, 'b': i2})
            out.append({'op': 'loose', 'a': g.inst(name), 'b': g.inst(name)})
        for i, i2 in permuted(g, name, 2 if q else 10):
            out.append({'op': 'loose', 'a': i, 'b': i2})
        for j, k in enumerate(FIELDS[name]):
            if k in ('vecid', 'vecu32'):
                for n in [31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 5000, 65530] + near(20, 60000, 8):
                    i = g.inst(name)
                    i[j + 1] = [str(v) for v in rng.choices([0, 1, 7, 65536, 0xffffffff, 12345, rng.randrange(1 << 32)], k=n)]
                    i2 = list(i)
                    i2[j + 1] = list(i[j + 1])
                    p = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
                    i2[j + 1][p] = '424242'
                    out.append({'op': 'loose', 'a': i, 'b': i2})
        if not FIELDS[name]:
            out.append({'op': 'loose', 'a': [[name]], 'b': [[name]]})
    for n in NEWN:
        if n < 2 ** 32:
            for name in LOOSE:
                one = [j for j, k in enumerate(FIELDS[name]) if k in ('id', 'res', 'u32', 'member')]
                for j in one:
                    i = g.inst(name)
                    i[j + 1] = [str(n)]
                    i2 = list(i)
                    i2[j + 1] = [str((n + 1) % 2 ** 32)]
                    out.append({'op': 'loose', 'a': i, 'b': i2})
                if len(out) > (30000 if q else 200000):
                    break
    return out


def loose_record(n, c, r):
    d = {'n': n, 'k': r['k'], 'a': c['a'], 'b': c['b'], 'pa': r.get('pa', []), 'pb': r.get('pb', []), 'ta': r.get('ta', ''), 'tb': r.get('tb', '')}
    for k in ('eq', 'ne', 'sym', 'refl', 'copy'):
        d[k] = r.get(k, -1)
    return d


def wrong_loose(r, rng):
    k = rng.choice(['eq', 'ne', 'sym', 'refl', 'copy', 'ta', 'tb', 'pa'])
    if k in ('ta', 'tb'):
        r[k] = rng.choice([r[k] + ' ', ' ' + r[k], r[k][:-1], r[k].replace('%', '', 1)])
    elif k == 'pa':
        if len(r['pa']) < 2:
            return None
        r['pa'] = r['pa'][:-1]
    else:
        r[k] = 1 - r[k]
    return r


def err_cases(rng, tier, extra):
    g = LGen(rng, extra)
    vals = {}

    def args(k):
        n = lambda: str(rng.choice(NUMS + [rng.randrange(1 << 32)]))
        if k == '':
            return []
        if k == 'u32' or k.startswith('OpId') or k.startswith('ResultId'):
            return [n()]
        if k.startswith('unhex'):
            return rng.choice(variety(g, 'str'))
        if k == 'leak(&s[1])':
            return [rng.choice(ALLOPS + ['', 'x', 'OpLine'])]
        if k.startswith('leak'):
            return [rng.choice(['GLSL.std.450', 'T.a', 'T.b', '', 'GLSL.std.45']), n()]
        if k.startswith('Version'):
            return [str(rng.randrange(256)), str(rng.randrange(256))]
        if k.count('u8') == 4:
            return [str(rng.choice([0, 1, 255, rng.randrange(256)])) for _ in range(4)]
        return [str(rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)])) for _ in range(2)]
    kinds = {n: k for n, k, x in t.ERRORS}
    out = []
    reps = 30 if tier == 'quick' else 400

    def near_to(k, a):
        if not a:
            return a
        b = list(a)
        p = rng.randrange(len(b))
        if k.startswith('unhex'):
            cased = [('%02x' % (int(x, 16) ^ 32)) if chr(int(x, 16)).isascii() and chr(int(x, 16)).isalpha() else x for x in b]
            return rng.choice([b[:-1], b + ['41'], b + ['20'], ['20'] + b, b[::-1], cased, cased[:p + 1] + b[p + 1:], b + ['cc', '81'], [('%02x' % (int(b[0], 16) ^ 1)) if int(b[0], 16) < 0x80 else b[0]] + b[1:]])
        if k.startswith('leak') and p == 0:
            return [rng.choice([b[0] + 'x', b[0][:-1], b[0].swapcase(), b[0][:1].swapcase() + b[0][1:], b[0] + ' ', ' ' + b[0], b[0][::-1]])] + b[1:]
        w = 8 if k.count('u8') else 16 if 'u16' in k else 32
        b[p] = str(int(b[p]) ^ (1 << rng.randrange(w)))
        if len(b) == 2 and not k.startswith('leak') and rng.random() < 0.3:
            b = [a[1], a[0]]
        return b

    def ok(k, a):
        try:
            return not k.startswith('unhex') or bytes(int(x, 16) for x in a).decode('utf8') is not None
        except UnicodeDecodeError:
            return False
    for n, k in kinds.items():
        for _ in range(reps if k else 3):
            a = args(k)
            b = near_to(k, a)
            out.append({'op': 'err', 'a': [n] + a, 'b': [n] + a})
            if ok(k, a) and ok(k, b):
                out.append({'op': 'err', 'a': [n] + a, 'b': [n] + b})
        if k.startswith('unhex'):
            # long names that differ at one place
            for size in [9, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1025, 5000, 70000] + near(8, 70000, 10):
                a = ['%02x' % rng.choice([97, 97, 98, 46]) for _ in range(size)]
                for at in {0, size - 1, size // 2, rng.randrange(size)}:
                    out.append({'op': 'err', 'a': [n] + a, 'b': [n] + a[:at] + ['7a'] + a[at + 1:]})
                out.append({'op': 'err', 'a': [n] + a, 'b': [n] + a[:-1]})
                out.append({'op': 'err', 'a': [n] + a, 'b': [n] + a})
        # other errors with the same operands
        for m, l in kinds.items():
            a = args(k)
            out.append({'op': 'err', 'a': [n] + a, 'b': [m] + (a if l == k else args(l))})
    V = ['ExpectedOpFunction', 'ExpectedOpFunctionEnd', 'ExpectedBranch', 'UnexpectedInstruction']
    for n in V:
        for m in V:
            for _ in range(10):
                x = rng.choice(NUMS)
                out.append({'op': 'err', 'a': [n, str(x)], 'b': [m, str(rng.choice([x, x, x + 1, x ^ 256, rng.choice(NUMS)]))]})
        for k in range(64):     # each bit of a position
            x = rng.choice(NUMS + [rng.randrange(1 << 64)])
            out.append({'op': 'err', 'a': [n, str(x)], 'b': [n, str(x ^ 1 << k)]})
            out.append({'op': 'err', 'a': [n, str(x)], 'b': [n, str(x)]})
        out.append({'op': 'err', 'a': [n, '0'], 'b': ['MemoryModelMissing']})
    out.append({'op': 'err', 'a': ['MemoryModelMissing'], 'b': ['MemoryModelMissing']})
    return out


def err_record(n, c, r):
    d = {'n': n, 'k': r['k'], 'a': c['a'], 'b': c['b']}
    for k in ('eq', 'ne', 'sym', 'refl'):
        d[k] = r.get(k, -1)
    for k in ('ta', 'tb', 'da', 'db'):
        d[k] = r.get(k, '')
    return d


def wrong_err(r, rng):
    k = rng.choice(['eq', 'ne', 'sym', 'refl', 'ta', 'db'])
    if k in ('ta', 'db'):
        if not r[k]:
            return None
        r[k] = 'unknown'
    else:
        r[k] = 1 - r[k]
    return r


def chain_cases(rng, tier, extra):
    """Pairs of functions that are the same but for one thing in their structure."""
    P = flow.Programs(rng, extra)
    out = []

    def pair(a, b):
        out.append({'op': 'chains', 'a': flow.fcase(a), 'b': flow.fcase(b)})
    for _ in range(500 if tier == 'quick' else 8000):
        p = P.program(rng.choice([2, 4, 6, 9]), 4)
        bs = flow.lower(p)
        pair(bs, copy.deepcopy(bs))
        for _ in range(3):
            b2 = copy.deepcopy(bs)
            b = rng.choice(b2)
            x = rng.random()
            if b[3][0] == ['OpBranchConditional'] and x < 0.3:
                b[3][2], b[3][3] = b[3][3], b[3][2]
            elif b[3][0] == ['OpBranchConditional'] and x < 0.6:
                w = other_value(P.g, 'weights', b[3][4])
                b[3][4] = w if w is not None else b[3][4]
            elif b[2]:
                b[2][0][-1] = P.hints('sel' if b[2][0][0] == ['OpSelectionMerge'] else 'loop')
            elif x < 0.8:
                # a block under another number
                old, new = b[0][1][0], str(rng.randrange(5000, 6000))
                for c in b2:
                    for i in [c[0]] + c[2] + [c[3]]:
                        for k, f in enumerate(FIELDS[i[0][0]]):
                            if f in ('id', 'res') and i[k + 1] == [old]:
                                i[k + 1] = [new]
            pair(bs, b2)
        q = P.program(rng.choice([2, 3, 4]), 3)
        pair(bs, flow.lower(q))
    # differences deep in a nest
    for kind in flow.NESTS:
        for n in [3, 8, 17, 30, 40, 60] + ([100, 150] if tier != 'quick' else []) + near(5, 100, 3):
            p = flow.nest(kind, n, 10) + [flow.st('atom', 5)]
            a = flow.lower(p)
            pair(a, a)
            ids = [b[0][1][0] for b in a]
            for old in [max(ids, key=int)] + rng.sample(ids, min(len(ids), 4)):
                new = str(rng.randrange(5000, 6000))
                pair(a, flow.lower(flow.renumber(p, dict({i: i for i in flow.all_ids(p)}, **{old: new}))))
                b2 = copy.deepcopy(a)
                b = [x for x in b2 if x[0][1][0] == old][0]
                if b[2]:
                    b[2][0][-1] = P.hints('sel' if b[2][0][0] == ['OpSelectionMerge'] else 'loop')
                elif b[3][0] == ['OpBranchConditional']:
                    w = other_value(P.g, 'weights', b[3][4])
                    b[3][4] = w if w is not None else b[3][4]
                pair(a, b2)
    for n in [2, 10, 50, 300] + EDGES[:6] + near(5, 350, 8):
        a = [flow.block(k + 1, flow.jump(k + 2)) for k in range(n - 1)] + [flow.block(n, flow.RET)]
        b = copy.deepcopy(a)
        b[-1] = flow.block(n + 5, flow.RET)
        if n > 1:
            b[-2] = flow.block(n - 1, flow.jump(n + 5))
        pair(a, b)
        pair(a, a)
        b = copy.deepcopy(a)        # one block more
        b[-1] = flow.block(n, flow.jump(n + 1))
        b.append(flow.block(n + 1, flow.RET))
        pair(a, b)
        pair(b, a)
    return out


def chain_record(n, c, r):
    d = {'n': n, 'k': r['k'], 'ca': r.get('ca', []), 'cb': r.get('cb', [])}
    for k in ('eq', 'ne', 'sym', 'refl'):
        d[k] = r.get(k, -1)
    return d


def wrong_chain(r, rng):
    if r['k'] != 'ok':
        return None
    k = rng.choice(['eq', 'ne', 'sym', 'refl'])
    r[k] = 1 - r[k]
    return r


def eq_cases(rng, tier, extra):
    g = LGen(rng, extra)
    out = []

    def pair(a, b, ha=None, hb=None):
        ha = ha or headers(rng, g)
        out.append({'op': 'eq', 'a': a, 'b': b, 'ha': ha, 'hb': hb or ha})
    reps = 8 if tier == 'quick' else 60
    for name in ALLOPS:
        for j, k in enumerate(FIELDS[name]):
            vs = variety(g, k)
            n = max(reps, min(len(vs), 30)) if k.split(':')[0] in ('enum', 'optenum', 'mask', 'optmask', 'comp', 'srclang', 'ext', 'weights') else reps
            for q in range(n):
                i = g.inst(name)
                if q < len(vs) and n > reps:
                    i[j + 1] = vs[(q * 7 + 3) % len(vs)]
                if name == 'OpVariable' and k == 'enum:StorageClass' and i[3] == ['Function']:
                    i[3] = ['Input']
                w = other_value(g, k, i[j + 1])
                if w is None or name == 'OpVariable' and k == 'enum:StorageClass' and w == ['Function']:
                    continue
                m, p = place(g, i)
                i2 = list(i)
                i2[j + 1] = w
                m2 = list(m)
                m2[p] = i2
                pair(m, m2)
        # an operand that is not there, and one that is there but empty
        for j, k in enumerate(FIELDS[name]):
            empty = {'optid': ['0'], 'weights': ['0', '0'], 'optmask': ['some'], 'optstr': ['some'], 'vecid': ['0'], 'vecu32': ['0'], 'phi': ['0', '0']}.get(k.split(':')[0])
            if empty:
                i = g.inst(name)
                m, p = place(g, i[:j + 1] + [[]] + i[j + 2:])
                m2 = list(m)
                m2[p] = i[:j + 1] + [empty] + i[j + 2:]
                pair(m, m2)
        for _ in range(2):
            m, p = place(g, g.inst(name))
            pair(m, copy.deepcopy(m))
    # the same operands in other places
    for name in ALLOPS:
        for i2, i in permuted(g, name, 2 if tier == 'quick' else 10):
            if name == 'OpVariable' and ['Function'] in (i[3], i2[3]):
                continue
            m, p = place(g, i)
            m2 = list(m)
            m2[p] = i2
            pair(m, m2)
    # extended instructions of two kinds that look the same in every way
    for _ in range(12 if tier == 'quick' else 100):
        m, p = place(g, g.inst('OpExtInst'))
        x = [rng.choice(['Sin', 'Cos']), g.id()]
        y = rng.choice([x, x, [x[0], g.id()], [rng.choice(['Sin', 'Cos']), x[1]]])
        for s, t in (('G', 'TW'), ('TW', 'G'), ('TW', 'TW'), ('G', 'G')):
            a, b = list(m), list(m)
            a[p], b[p] = m[p][:4] + [[s] + x], m[p][:4] + [[t] + y]
            pair(a, b)
    # different instructions with the same operands
    by = {}
    for name in ALLOPS:
        by.setdefault(tuple(FIELDS[name]), []).append(name)
    for ks, ns in by.items():
        for a in ns:
            for b in rng.sample(ns, min(3, len(ns))):
                if a != b:
                    i = g.inst(a)
                    pair([i], [[[b]] + i[1:]])
    # long lists, strings and modules that differ at one far place only
    for q in range(60 if tier == 'quick' else 400):
        n = rng.choice([60, 130, 260, 300, 1000] if q % 4 > 1 else [60, 130, 300, 1025, 5000, 20000])
        kind = q % 4
        if kind == 0:
            i = g.inst('OpString')
            v = ['%02x' % rng.randrange(33, 127) for _ in range(n)]
            w = list(v)
            w[rng.choice([n - 1, n // 2, rng.randrange(n)])] = '21' if v[-1] != '21' else '22'
            a, b = [[i[0], i[1], v]], [[i[0], i[1], w]]
        elif kind == 1:
            i = g.inst('OpTypeStruct')
            v = [g.id() for _ in range(n)]
            w = list(v)
            p = rng.choice([n - 1, n // 2, rng.randrange(n)])
            w[p] = str(int(v[p]) ^ (1 << rng.randrange(32)))
            a, b = [[i[0], i[1], v]], [[i[0], i[1], w]]
        else:
            a = [g.of('mem')] + [g.of('global') for _ in range(n)]
            b = list(a)
            p = rng.choice([n, n // 2, rng.randrange(1, n + 1)])
            if kind == 2:
                b[p] = g.of('global')
            elif p > 1:
                b[p], b[p - 1] = b[p - 1], b[p]
        pair(a, b)
    for n in near(20, 60000, 8):
        for k_ in range(4):
            v = [g.id() for _ in range(n)]
            w = list(v)
            w[[n - 1, n // 2, rng.randrange(n), 0][k_]] = '424242'
            i = g.inst('OpTypeStruct')
            pair([[i[0], i[1], v]], [[i[0], i[1], w]])
            x = ['%02x' % rng.randrange(33, 120) for _ in range(n)]
            y = list(x)
            y[[n - 1, n // 2, rng.randrange(n), 0][k_]] = '7a'
            i = g.inst('OpString')
            pair([[i[0], i[1], x]], [[i[0], i[1], y]])
            if n < 3000:
                a = [g.inst('OpTypeVoid') for _ in range(n)]
                b = list(a)
                b[[n - 1, n // 2, rng.randrange(n), 0][k_]] = g.inst('OpTypeBool')
                pair(a, b)
    # lists of each kind of which one is a beginning of the other
    for n in EDGES[:6] + [rng.choice(EDGES[6:])] + near(20, 1100, 6):
        mem, fn, lab, end = g.of('mem'), g.of('func'), g.of('label'), g.of('end')
        tail = [lab, g.of('branch'), end]
        row = lambda c, k: [g.of(c) for _ in range(k)]
        for c in ('cap', 'debug', 'annot', 'global', 'param', 'code', 'block', 'def', 'any'):
            x = {'block': lambda: sum(([g.of('label'), g.of('branch')] for _ in range(n + 1)), []), 'def': lambda: sum(([g.of('func'), g.of('label'), g.of('branch'), g.of('end')] for _ in range(n + 1)), []),
                 'any': lambda: [g.inst('OpNop') for _ in range(n + 1)]}.get(c, lambda: row(c, n + 1))()
            y = x[:len(x) // (n + 1) * n]
            a, b = [{'cap': v + [mem], 'param': [mem, fn] + v + tail, 'code': [mem, fn, lab] + v + tail[1:], 'block': [mem, fn] + v + [end], 'any': v}.get(c, [mem] + v) for v in (x, y)]
            pair(a, b)
            pair(b, a)
        for nm, e in (('OpTypeStruct', g.id()), ('OpString', '21')):
            i = g.inst(nm)
            v = [e] * n
            pair([[i[0], i[1], v]], [[i[0], i[1], v + [e]]])
            pair([[i[0], i[1], v + [e]]], [[i[0], i[1], v]])
    # functions, blocks, parameters, instructions and sections in another order, doubled or left out
    def parts():
        mem = [g.of('mem')]
        secs = [[[g.of(x)] for _ in range(rng.randrange(0, 4))] for x in ('cap', 'ext', 'imp')] + [[mem]]
        secs += [[[g.of(x)] for _ in range(rng.randrange(0, 4))] for x in ('entry', 'mode', 'debug', 'annot', 'global')]
        blk = lambda: [g.of('label')] + [g.of('code') for _ in range(rng.randrange(0, 3))] + [g.of('merge')][:rng.randrange(2)] + [g.of('branch')]
        dec = lambda: [[g.of('func')], [[g.of('param')] for _ in range(rng.randrange(0, 4))], [], [g.of('end')]]
        fun = lambda: [[g.of('func')], [[g.of('param')] for _ in range(rng.randrange(0, 4))], [blk() for _ in range(rng.randrange(1, 4))], [g.of('end')]]
        return secs, [dec() for _ in range(rng.randrange(0, 3))], [fun() for _ in range(rng.randrange(0, 3))]

    def joined(secs, decs, funs):
        return sum([sum(s, []) for s in secs], []) + [i for f in decs + funs for i in f[0] + sum(f[1], []) + sum(f[2], []) + f[3]]
    for q in range(500 if tier == 'quick' else 5000):
        secs, decs, funs = parts()
        lists = [s for s in secs if len(s) > 1] + [f[1] for f in decs + funs if len(f[1]) > 1] + [f[2] for f in funs if len(f[2]) > 1] + [l for l in (decs, funs) if len(l) > 1]
        if not lists:
            continue
        a = joined(secs, decs, funs)
        l = lists[q % len(lists)]
        x = q % 5
        k, j = rng.sample(range(len(l)), 2)
        if x < 3:
            l[k], l[j] = l[j], l[k]
        elif x == 3:
            l[k] = l[j]
        else:
            del l[k]
        pair(a, joined(secs, decs, funs))
    # lists that differ in length or order only, headers that differ in one part
    for _ in range(150 if tier == 'quick' else 2000):
        m = [g.of(x) for x in g.module_classes()]
        x = rng.random()
        if x < 0.3:
            m2 = list(m)
            p = rng.randrange(len(m))
            m2.insert(p, m[p])
        elif x < 0.5:
            m2 = list(m)
            p, q = rng.randrange(len(m)), rng.randrange(len(m))
            m2[p], m2[q] = m2[q], m2[p]
        elif x < 0.7:
            m2 = m[:-1]
        else:
            m2 = m
        h = headers(rng, g)
        h2 = copy.deepcopy(h)
        if rng.random() < 0.5:
            j = rng.randrange(4)
            h2[j] = headers(rng, g)[j]
        pair(m, m2, h, h2)
    for j in range(4):
        for _ in range(10):
            h, h2 = headers(rng, g), headers(rng, g)
            pair([], [], h, h[:j] + [h2[j]] + h[j + 1:])
    return out


def eq_record(n, c, r):
    d = {'n': n, 'k': r['k'], 'a': c['a'], 'b': c['b'], 'ha': c['ha'], 'hb': c['hb']}
    for k in ('eq', 'ne', 'sym', 'refl', 'copy', 'kept'):
        d[k] = r.get(k, -1)
    d['per'], d['log'] = r.get('per', []), r.get('log', '')
    return d


def wrong_eq(r, rng):
    k = rng.choice(['eq', 'ne', 'sym', 'refl', 'copy', 'kept', 'per', 'log'])
    if k == 'per':
        if not r['per']:
            return None
        p = rng.randrange(len(r['per']))
        r['per'][p] = '1' if r['per'][p] == '0' else '0'
    elif k == 'log':
        if r['log'] not in ('0', '1'):
            return None
        r['log'] = '1' if r['log'] == '0' else '0'
    else:
        r[k] = 1 - r[k]
    return r


def vals_cases(rng, tier, extra):
    g = LGen(rng, extra)
    out = []

    def small():
        while True:
            cl = g.module_classes()
            if len(cl) < 14:
                return [g.of(x) for x in cl]

    def history(n, mods, pick=None):
        st, ops = {}, []
        for k in range(n):
            full = [s for s in (1, 2, 3) if s in st]
            x = rng.random()
            o = {'op': '', 's': 1, 't': 1, 'at': 1, 'h': [], 'i': []}
            if not full or x < 0.2:
                s = rng.choice((1, 2, 3))
                m = rng.choice(mods)
                st[s] = ('raw', copy.deepcopy(m[1]))
                o.update(op='new', s=s, h=m[0], i=m[1])
            elif x < 0.5:
                s, t_ = rng.choice(full), rng.choice((1, 2, 3))
                st[t_] = copy.deepcopy(st[s])
                o.update(op='copy', s=s, t=t_)
            elif x < 0.6:
                s = rng.choice(full)
                del st[s]
                o.update(op='drop', s=s)
            elif x < 0.9:
                s = rng.choice(full)
                kind, ins = st[s]
                if kind == 'log':
                    o.update(op='cap', s=s)
                    st[s] = (kind, [[['OpCapability'], ['Matrix']]] + ins)
                else:
                    y = rng.random()
                    if ins and y < 0.6:
                        p = rng.randrange(len(ins))
                        i = copy.deepcopy(ins[p])
                        ks = FIELDS[i[0][0]]
                        if ks:
                            j = rng.randrange(len(ks))
                            if i[0][0] == 'OpVariable' and j == 2:
                                j = 0
                            w = other_value(g, ks[j], i[j + 1])
                            if w is not None:
                                i[j + 1] = w
                        ins[p] = i
                        o.update(op='set', s=s, at=p + 1, i=[i])
                    elif ins and y < 0.8:
                        ins.pop()
                        o.update(op='remove', s=s)
                    else:
                        o.update(op='bound', s=s, i=[[[g.id()]]])
            else:
                raws = [s for s in full if st[s][0] == 'raw']
                if not raws:
                    continue
                s, t_ = rng.choice(raws), rng.choice((1, 2, 3))
                st[t_] = ('log', copy.deepcopy(st[s][1]))
                o.update(op='log', s=s, t=t_)
                # validation may refuse what has been cut: such a history ends here
                ops.append(o)
                if not legal(st[t_][1]):
                    del st[t_]
                continue
            ops.append(o)
        return {'op': 'vals', 'ops': ops}
    for _ in range(350 if tier == 'quick' else 5000):
        mods = [(headers(rng, g), small()) for _ in range(2)]
        out.append(history(rng.choice([4, 6, 10]), mods))
    # extended instructions, which have copies and comparisons of their own
    for _ in range(150 if tier == 'quick' else 1500):
        mods = []
        for _ in range(2):
            mods.append((headers(rng, g), [g.of('mem'), g.of('func'), g.of('label'), g.inst('OpExtInst'), g.inst('OpExtInst'), g.of('branch'), g.of('end')]))
        out.append(history(rng.choice([4, 8]), mods))
    return out


def legal(ins):
    """Only what the histories can produce: a legal module, perhaps cut at the end."""
    cl = [SECTION[i[0][0]] for i in ins]
    if cl.count('mem') != 1:
        return False
    fs = [k for k, c in enumerate(cl) if c == 'func']
    return not fs or cl[-1] == 'end'


def vals_record(n, c, r):
    return {'n': n, 'k': r['k'], 'ops': c['ops'], 'obs': r.get('obs', [])}


def wrong_vals(r, rng):
    if not r['obs']:
        return None
    o = rng.choice(r['obs'])
    full = [s for s in range(3) if o['slots'][s]['k'] != 'none']
    if not full:
        return None
    s = rng.choice(full)
    if rng.random() < 0.5 and o['slots'][s]['i']:
        o['slots'][s]['i'].pop()
    else:
        o['eq'][s][s] = '0'
    return r
