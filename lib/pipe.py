"""Whole modules through all stages (C22)."""
import copy, random
from . import flow
from .asm import *
from .layout import LGen, CLASSES


def make(rng, P, g, size=None, funcs=None, wide=1, given=None):
    """A well-formed module with structured functions: bytes, what they were made from."""
    sets = ['G', 'A', 'B']
    insts, bound = [], {}
    fresh = iter(rng.sample(range(1, 4000), 3000))
    for s in CLASSES[:9]:
        n = 1 if s == 'mem' else rng.choice([0, 0, 1, 1, 2, 4]) * (wide if rng.random() < 0.5 else 1)
        for _ in range(n):
            if s == 'imp':
                k = rng.choice(sets)
                i = str(next(fresh))
                bound[i] = k
                insts.append([['OpExtInstImport'], [i], ['%02x' % x for x in SETNAMES[k].encode()]])
                continue
            while True:
                i = g.of(s)
                if OPCODE[i[0][0]] is not None:
                    break
            insts.append(i)

    def code(i):
        """A body instruction that can be read: extended ones need an import."""
        if i[0][0] != 'OpExtInst':
            return i
        if not bound:
            return None
        s = rng.choice(sorted(bound))
        if bound[s] == 'G':
            return [['OpExtInst'], [g.id()], [g.id()], [s], ['G', rng.choice(['Sin', 'Cos']), g.id()]]
        m = rng.randrange(0, 4)
        return [['OpExtInst'], [g.id()], [g.id()], [s], [bound[s], str(m)] + [g.id() for _ in range(m)]]
    for _ in range(rng.choice([0, 0, 1, 2])):
        insts += [g.of('func')] + [g.of('param') for _ in range(rng.choice([0, 1, 2]))] + [g.of('end')]
    asts = []
    for _ in range(funcs if funcs is not None else rng.choice([0, 1, 1, 2, 3])):
        p = given or P.program(size or rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([2, 4, 6]))
        asts.append(p)
        insts += [g.of('func')] + [g.of('param') for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        for b in P.dress(flow.lower(p)):
            insts += [b[0]] + [x for x in map(code, b[1]) if x] + b[2] + [b[3]]
        insts.append(g.of('end'))
    hdr = [MAGIC, 0x00010000, (rng.choice([0, 1, 6, 7, 8, 11, 12, 500, 65535]) << 16) | rng.choice([0, 1, 65535, rng.randrange(65536)]), g.num(), 0]
    return {'op': 'pipe', 'b': pack(module(insts, hdr), rng.random() < 0.3).hex(), 's': sets, 'i': insts, 'asts': asts}


def cases(rng, tier, extra):
    P = flow.Programs(rng, extra)
    g = LGen(rng, extra)
    out = []
    for k in range(500 if tier == 'quick' else 6000):
        if k % 25 == 0:
            out.append(make(rng, P, g, rng.choice([20, 30, 45]), rng.choice([1, 2])))
        elif k % 25 == 1:
            out.append(make(rng, P, g, rng.choice([1, 2, 3]), rng.choice([8, 12, 17, 33, 70])))
        elif k % 25 == 2:
            out.append(make(rng, P, g, wide=rng.choice([5, 20])))
        else:
            out.append(make(rng, P, g))
    # deep nests
    for kind in flow.NESTS:
        for n in [3, 9, 20, 33, 45, 60, rng.choice([41, 50, 70])] + ([80, 90, 100] if tier != 'quick' else []) + near(3, 100, 4):
            p = flow.nest(kind, n, 10) + [flow.st('atom', 5)]
            ids = flow.all_ids(p)
            out.append(make(rng, P, g, funcs=1, given=flow.renumber(p, dict(zip(ids, (str(x) for x in P.ids(len(ids))))))))
    # counts near powers of two
    for n in [63, 64, 65, 127, 128, 129, 255, 256, 257]:
        out.append(make(rng, P, g, wide=n))
        out.append(make(rng, P, g, 1, n))
        out.append(make(rng, P, g, funcs=1, given=[flow.st('atom', k + 1) for k in range(n)]))
    for n in near(3, 120, 5):
        out.append(make(rng, P, g, 2, n))
        out.append(make(rng, P, g, wide=n))
        out.append(make(rng, P, g, n, 1))
    return out


NOTHING = {'k': '', 'h': [], 'i': [], 'secs': [], 'decls': [], 'defs': [], 'cf': []}


def record(n, c, r):
    o = dict(NOTHING, k=r['k'])
    if r['k'] == 'ok':
        o = {k: r[k] for k in ('k', 'h', 'i', 'secs', 'decls', 'defs')}
        o['cf'] = [{'k': x['k'], 'c': flow.chain(x)} for x in r['cf']]
    return {'n': n, 'b': list(bytes.fromhex(c['b'])), 's': c['s'], 'i': c['i'], 'asts': [flow.tokens(p) for p in c['asts']], 'o': o}


def wrong(r, rng):
    o = r['o']
    if o['k'] != 'ok':
        return None
    x = rng.randrange(6)
    if x == 0:
        r['o'] = dict(NOTHING, k=rng.choice(['err', 'panic']))
    elif x == 1:
        o['h'][3] = [str(int(o['h'][3][0]) ^ 1)]
    elif x == 2:
        o['i'].pop(rng.randrange(len(o['i'])))
    elif x == 3:
        s = rng.choice([s for s in o['secs'] if s])
        s.pop(rng.randrange(len(s)))
    elif x == 4 and o['defs']:
        d = rng.choice(o['defs'])
        d[2].pop(rng.randrange(len(d[2])))
    elif x == 5 and o['cf']:
        f = rng.choice(o['cf'])
        ks = [k for k, x in enumerate(f['c']) if x['t'] == 'atom']
        if len(f['c']) > 1:
            del f['c'][rng.choice(ks)]
    else:
        return None
    return r
