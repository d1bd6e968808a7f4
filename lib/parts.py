"""Operands and other parts of a listing by themselves (C26)."""
from . import asm
from .show import LGen, TOOLNAMES, other_value, systematic, variety
from .asm import CODE, FIELDS, t

SIMPLE = {'id': 'id', 'ver': 'u32', 'member': 'u32', 'line': 'u32', 'column': 'u32', 'srclang': 'srclang', 'pair': 'phi', 'weightpair': 'weights'}
BRANCH = [n for n in asm.ALLOPS if asm.SECTION[n] == 'branch']


def case(kind, a, b):
    return {'op': 'part', 'kind': kind, 'a': a, 'b': b}


def values(g, kind):
    """Many values of the kind, among them all that can be listed."""
    k, _, n = kind.partition(':')
    if k in ('pair', 'weightpair'):
        out = [[g.id(), g.id()] for _ in range(40)]
        return out + [v[::-1] for v in out[:10]] + [v[:1] * 2 for v in out[:5]]
    if k == 'mask':
        bits = asm.MASKBITS[n]
        return [[x for j, x in enumerate(bits) if m >> j & 1] + ([g.id()] if 'DependencyLength' in bits and m >> len(bits) - 1 & 1 else []) for m in range(1 << len(bits))]
    if k == 'srclang':
        return [[x] for x in asm.LANG] + [['Other', str(v)] for v in asm.BOUNDARY if v > 4]
    return list(variety(g, SIMPLE.get(kind, kind))) + [g.field(SIMPLE.get(kind, kind)) for _ in range(30)]


def cases(rng, tier, extra):
    g = LGen(rng, extra)
    q = tier == 'quick'
    out = []
    kinds = list(SIMPLE) + ['enum:' + n for n in t.ENUMS] + ['mask:' + n for n in t.MASKS] + ['comp:' + n for n in t.COMPS]
    for kind in kinds:
        vs = values(g, kind)
        k = kind.split(':')[0]
        if k == 'enum':
            for a in vs:
                for b in (vs if len(vs) <= 12 or not q else rng.sample(vs, 12) + [a]):
                    out.append(case(kind, a, b))
            continue
        for a in vs:
            out.append(case(kind, a, list(a)))
            for b in rng.sample(vs, min(len(vs), 4 if q else 40)):
                out.append(case(kind, a, b))
            if kind not in ('pair', 'weightpair'):
                b = other_value(g, SIMPLE.get(kind, kind), a)
                if b:
                    out.append(case(kind, a, b))
    tools = [[x] for x in TOOLNAMES] + [['Other', str(v)] for v in (12, 13, 255, 256, 65535) + tuple(rng.randrange(12, 65536) for _ in range(20))]
    out += [case('tool', a, b) for a in tools for b in tools]
    for kind, names in (('code', CODE + ['OpVariable']), ('branch', BRANCH)):
        for name in names:
            for _ in range(2 if q else 12):
                for a in systematic(g, name):
                    out.append(case(kind, a, [list(x) for x in a]))
                    if len(a) > 1:
                        j = rng.randrange(1, len(a))
                        w = other_value(g, FIELDS[name][j - 1], a[j])
                        if w is not None:
                            out.append(case(kind, a, a[:j] + [w] + a[j + 1:]))
            for other in rng.sample(names, min(len(names), 4)):
                out.append(case(kind, g.inst(name), g.inst(other)))
    exts = []
    for s in ('G', 'TW', 'A', 'A2', 'B', 'P'):
        for _ in range(12):
            if s in ('G', 'TW'):
                f = [s, rng.choice(['Sin', 'Cos']), g.id()]
            else:
                n = rng.randrange(4)
                f = [s, str(n)] + [g.id() for _ in range(n)]
            exts.append([['OpExtInst'], ['1'], ['2'], ['3'], f])
    for a in exts:
        out.append(case('ext', a, [list(x) for x in a]))
        for b in rng.sample(exts, 8):
            out.append(case('ext', a, b))
        if a[4][0] in ('G', 'TW'):
            f = a[4]
            for w in ([f[0], 'Cos' if f[1] == 'Sin' else 'Sin', f[2]], [f[0], f[1], str((int(f[2]) + 1) % 2 ** 32)], ['TW' if f[0] == 'G' else 'G', f[1], f[2]]):
                out.append(case('ext', a, a[:4] + [w]))
    return out


def record(n, c, r):
    k, _, m = c['kind'].partition(':')
    d = {'n': n, 'k': r['k'], 'kind': [k, m], 'a': c['a'], 'b': c['b'], 'pa': r.get('pa', []), 'pb': r.get('pb', []), 'ta': r.get('ta', ''), 'tb': r.get('tb', ''),
         'na': r.get('na', ''), 'nb': r.get('nb', '')}
    if r['k'] != 'ok' and k == 'tool':
        d['na'] = d['nb'] = []
    for x in ('eq', 'ne', 'sym', 'refl', 'copy'):
        d[x] = r.get(x, -1)
    return d


def wrong(r, rng):
    """A wrong copy of a record."""
    k = rng.choice(['eq', 'ne', 'sym', 'refl', 'copy', 'ta', 'tb', 'pa', 'na'])
    if k in ('ta', 'tb'):
        r[k] = rng.choice([r[k] + ' ', ' ' + r[k], r[k] + '%'])
    elif k == 'pa':
        r['pa'] = r['pa'] + [['1']]
    elif k == 'na':
        if r['kind'][0] == 'tool':
            r['na'] = r['na'][:-1] if r['na'] else ['Khronos']
        elif r['kind'][0] == 'ext' and r['a'][4][0] in ('G', 'TW'):
            r['na'] += 'h'
        else:
            return None
    else:
        r[k] = 1 - r[k]
    return r
