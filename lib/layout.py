"""Corpora for validation (C10-C13)."""
import itertools, random
from .asm import *

BYCLASS = {}
for n_ in ALLOPS:
    s_ = SECTION[n_]
    if s_ == 'var':
        BYCLASS.setdefault('code', []).append(n_)
        BYCLASS.setdefault('global', []).append(n_)
    else:
        BYCLASS.setdefault(s_, []).append(n_)
CLASSES = ['cap', 'ext', 'imp', 'mem', 'entry', 'mode', 'debug', 'annot', 'global', 'func', 'param', 'end', 'label', 'code', 'merge', 'branch']
FUNC = ['func', 'param', 'end', 'label', 'code', 'merge', 'branch']


class LGen(Gen):
    def of(self, cls):
        name = self.r.choice(BYCLASS[cls])
        i = self.inst(name)
        if name == 'OpVariable':
            if cls == 'code':
                i[3] = ['Function']
            else:
                while i[3] == ['Function']:
                    i[3] = [self.r.choice(list(ENUMVALS['StorageClass']))]
        return i

    def inst(self, name=None):
        # keep the values small, they are compared one by one
        for _ in range(50):
            i = super().inst(name)
            if all(len(f) <= 24 for f in i):
                return i
        return i

    def block_classes(self):
        return ['label'] + ['code'] * self.r.choice([0, 0, 1, 2, 3, 5]) + (['merge'] if self.r.random() < 0.4 else []) + ['branch']

    def def_classes(self):
        r = self.r
        cs = ['func'] + ['param'] * r.choice([0, 0, 1, 2, 3])
        for _ in range(r.choice([1, 1, 2, 3])):
            cs += self.block_classes()
        return cs + ['end']

    def module_classes(self):
        r = self.r
        cs = []
        for s in CLASSES[:9]:
            cs += ['mem'] if s == 'mem' else [s] * r.choice([0, 0, 1, 1, 2, 3, 6])
        for _ in range(r.choice([0, 0, 1, 2])):
            cs += ['func'] + ['param'] * r.choice([0, 1, 2]) + ['end']
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            cs += self.def_classes()
        return cs


def place(g, i):
    """A legal module around an instruction; gives the list and the position."""
    name = i[0][0]
    c = SECTION[name]
    if c == 'var':
        c = 'code' if i[3] == ['Function'] else 'global'
    mem = g.of('mem')
    pre = {'cap': [], 'ext': [g.of('cap')], 'imp': [], 'mem': [g.of('cap')]}
    if c in ('cap', 'ext', 'imp'):
        return pre[c] + [i, mem], len(pre[c])
    if c == 'mem':
        return [g.of('cap'), i], 1
    if c in ('entry', 'mode', 'debug', 'annot', 'global'):
        return [mem, g.of(c), i], 2
    body = {'func': [i, g.of('label'), g.of('branch'), g.of('end')], 'param': [g.of('func'), i, g.of('label'), g.of('branch'), g.of('end')],
            'label': [g.of('func'), i, g.of('branch'), g.of('end')], 'code': [g.of('func'), g.of('label'), g.of('code'), i, g.of('branch'), g.of('end')],
            'merge': [g.of('func'), g.of('label'), i, g.of('branch'), g.of('end')], 'branch': [g.of('func'), g.of('label'), i, g.of('end')],
            'end': [g.of('func'), i]}[c]
    return [mem] + body, 1 + body.index(i)


def place_row(g, row):
    """A legal module around several instructions of one kind."""
    m, p = place(g, row[0])
    c = class_of(m[p])
    if c == 'mem':
        return m[:p] + row
    if c == 'end':
        return m
    between = {'branch': [g.of('label')], 'label': [g.of('branch')], 'merge': [g.of('branch'), g.of('label')], 'func': [g.of('label'), g.of('branch'), g.of('end')]}.get(c, [])
    run = [row[0]]
    for i in row[1:]:
        run += between + [i]
    return m[:p] + run + m[p + 1:]


def vcase(insts, **kw):
    c = {'op': 'val', 'i': insts}
    c.update(kw)
    return c


def record(n, c, r):
    return {'n': n, 'i': c['i'], 'o': {'k': r['k'], 'secs': r.get('secs', []), 'decls': r.get('decls', []), 'defs': r.get('defs', []), 'e': r.get('e', [])}}


def sequence_cases(rng, tier, extra):
    """All class sequences to a length, in several contexts."""
    g = LGen(rng, extra)
    cs = []
    n = 3 if tier == 'quick' else 4
    seqs = [s for k in range(n) for s in itertools.product(CLASSES, repeat=k)]
    last = list(itertools.product(CLASSES, repeat=n))
    seqs += last
    for s in seqs:
        cs.append(list(s))
    for pre in (['mem'], ['mem', 'func'], ['mem', 'func', 'label'], ['mem', 'func', 'label', 'branch'], ['mem', 'func', 'end'], ['mem', 'func', 'label', 'merge'],
                ['mem', 'func', 'label', 'branch', 'end'], ['mem', 'global'], ['cap', 'ext', 'imp'], ['mem', 'func', 'param', 'label', 'code']):
        for k in range(0, n + 1 if len(pre) < 3 else n):
            for s in itertools.product(FUNC + ['global', 'debug', 'mem'], repeat=k):
                if k < n or tier == 'thorough' or rng.random() < 0.25:
                    cs.append(pre + list(s))
    out = []
    for c in cs:
        out.append(vcase([g.of(x) for x in c]))
    return headed(rng, out)


def module_cases(rng, tier, extra, count=None):
    """Legal modules and modules with a few changes."""
    g = LGen(rng, extra)
    out = []
    for _ in range(count or (2500 if tier == 'quick' else 25000)):
        cl = g.module_classes()
        insts = [g.of(x) for x in cl]
        out.append(vcase(insts))
        for _ in range(rng.choice([1, 2])):
            m = list(insts)
            for _ in range(rng.choice([1, 1, 1, 2])):
                x = rng.random()
                if not m:
                    break
                p = rng.randrange(len(m))
                if x < 0.25:
                    del m[p]
                elif x < 0.4:
                    q = rng.randrange(len(m))
                    m[p], m[q] = m[q], m[p]
                elif x < 0.65:
                    m.insert(p, g.of(rng.choice(CLASSES)))
                elif x < 0.75:
                    m.insert(p, m[rng.randrange(len(m))])
                elif x < 0.85:
                    m = m[:p]
                elif x < 0.92:
                    m.append(g.of(rng.choice(CLASSES)))
                else:
                    i = m.pop(p)
                    m.insert(rng.randrange(len(m) + 1), i)
            out.append(vcase(m))
    # every instruction in each place where its class may be
    for name in ALLOPS:
        for _ in range(3 if tier == 'quick' else 12):
            i = g.inst(name)
            if name == 'OpVariable':
                i[3] = [rng.choice(list(ENUMVALS['StorageClass']))]
            c = SECTION[name]
            if c == 'var':
                c = 'code' if i[3] == ['Function'] else 'global'
            mem = g.of('mem')
            body = lambda *x: [mem] + [g.of('func')] + list(x) + [g.of('end')]
            if c in CLASSES[:3]:
                m = [i, g.of(c), mem]
            elif c == 'mem':
                m = [i]
            elif c in CLASSES[4:9]:
                m = [mem, g.of(c), i, g.of(c)]
            elif c == 'func':
                m = [mem, i, g.of('end')]
            elif c == 'param':
                m = body(g.of('param'), i, g.of('label'), g.of('branch'))
            elif c == 'label':
                m = body(i, g.of('branch'))
            elif c == 'code':
                m = body(g.of('label'), g.of('code'), i, g.of('branch'))
            elif c == 'merge':
                m = body(g.of('label'), i, g.of('branch'))
            elif c == 'branch':
                m = body(g.of('label'), i)
            else:
                m = body(g.of('label'), g.of('branch'))
            out.append(vcase(m))
            out.append(vcase([i]))
            out.append(vcase([mem, i]))
            out.append(vcase([mem, i, i]))
            out.append(vcase(body(g.of('label'), i, g.of('branch'))))
            out.append(vcase(body(i, g.of('label'), g.of('branch'))))
            out.append(vcase(body(g.of('label'), g.of('branch')) + [i]))
            out.append(vcase(body(g.of('label'), g.of('branch')) + [i, i]))
    for sc in ENUMVALS['StorageClass']:
        v = [['OpVariable'], ['1'], ['2'], [sc], []]
        w = [['OpVariable'], ['1'], ['2'], [sc], ['9']]
        mem = g.of('mem')
        for x in (v, w):
            out.append(vcase([mem, x]))
            out.append(vcase([mem, g.of('global'), x, g.of('global')]))
            out.append(vcase([mem, g.of('func'), g.of('label'), x, g.of('branch'), g.of('end')]))
            out.append(vcase([mem, x, g.of('func'), g.of('label'), x, g.of('code'), g.of('branch'), g.of('end')]))
    # each instruction directly after each of the same part
    for c in CLASSES:
        names = [n for n in ALLOPS if SECTION[n] == c or SECTION[n] == 'var' and c in ('global', 'code')]
        if len(names) < 2 or c in ('func', 'param', 'end', 'label', 'mem'):
            continue
        for ns in neighbours(rng, names, 50):
            part = []
            for n in ns:
                i = g.inst(n)
                if n == 'OpVariable':
                    i[3] = ['Function'] if c == 'code' else ['Uniform']
                part.append(i)
            mem = g.of('mem')
            if c in CLASSES[:3]:
                m = part + [mem]
            elif c in CLASSES[4:9]:
                m = [mem] + part
            elif c == 'code':
                m = [mem, g.of('func'), g.of('label')] + part + [g.of('branch'), g.of('end')]
            elif c == 'branch':
                m = [mem, g.of('func')] + [x for b in part for x in (g.of('label'), b)] + [g.of('end')]
            else:
                m = [mem, g.of('func')] + [x for b in part for x in (g.of('label'), b, g.of('branch'))] + [g.of('end')]
            out.append(vcase(m))
    # nearly equal instructions side by side
    from .show import rows
    for row in rows(g, ALLOPS, 1 if tier == 'quick' else 6):
        out.append(vcase(place_row(g, row)))
    # long operands in each place
    longs = [(a, k, x.split(':')[0]) for a in ALLOPS for k, x in enumerate(FIELDS[a]) if x.split(':')[0] in ('str', 'optstr', 'vecid', 'vecu32', 'phi')]
    for name, k, a in longs:
        for n in [rng.choice([25, 64, 100]), rng.choice([256, 257, 300, 1000]), rng.choice([1025, 4097, 9000])] + near(25, 20000, 6):
            i = g.inst(name)
            i[k + 1] = g.list(n - n % 2) if 'str' not in a else (['some'] if a == 'optstr' else []) + ['%02x' % rng.randrange(32, 127) for _ in range(n)]
            m, _ = place(g, i)
            out.append(vcase(m))
    # sizes of each part
    for k in [0, 1, 2, 3, 5, 8, 9, 15, 16, 17, 31, 32, 33, 40, 65] + EDGES + near(4, 600, 6):
        mem = g.of('mem')
        for c in CLASSES[:9]:
            if c == 'mem':
                continue
            part = [g.of(c) for _ in range(k)]
            out.append(vcase(part + [mem] if CLASSES.index(c) < 3 else [mem] + part))
        f, lab = g.of('func'), g.of('label')
        out.append(vcase([mem, f] + [g.of('param') for _ in range(k)] + [lab, g.of('branch'), g.of('end')]))
        out.append(vcase([mem, f] + [g.of('param') for _ in range(k)] + [g.of('end')]))
        out.append(vcase([mem, f, lab] + [g.of('code') for _ in range(k)] + [g.of('merge'), g.of('branch'), g.of('end')]))
        out.append(vcase([mem, f] + sum([[g.of('label'), g.of('branch')] for _ in range(k)], []) + [g.of('end')]))
        out.append(vcase([mem] + sum([[g.of('func'), g.of('end')] for _ in range(k)], [])))
        out.append(vcase([mem] + sum([[g.of('func'), g.of('label'), g.of('branch'), g.of('end')] for _ in range(k)], [])))
    return headed(rng, out)


# ---- large modules (C13) ----
def class_of(i):
    c = SECTION[i[0][0]]
    return c if c != 'var' else ('code' if i[3] == ['Function'] else 'global')


def size_record(n, c, r):
    ps = [{'c': [class_of(i) for i in p['i']], 'n': p['n']} for p in c['rep']]
    return {'n': n, 'ps': ps, 'k': r['k'], 'sz': r['sz'] if r['k'] == 'ok' else [], 'flat': r.get('flat', -1), 'e': r.get('e', []), 'mem': r.get('mem', 0), 'ms': r.get('ms', 0)}


def headed(rng, cases):
    """Modules under headers of all kinds, on which their layout does not depend."""
    for k, c in enumerate(cases):
        if k % 3 and 'h' not in c:
            ids = [f[0] for i in c['i'] for f in i[1:] if len(f) == 1 and f[0].isdigit()]
            bound = rng.choice([0, 1, 2, 5, 10, 30, 100, 1000, 65536, 4294967295] + ([int(rng.choice(ids)), int(rng.choice(ids)) + 1] if ids else [])) % (1 << 32)
            tool = rng.choice([['KhronosReserved'], ['KhronosGlslang'], ['Valve'], ['KhronosLLvmTranslator'], ['KhronosAssembler'], ['Other', '12'], ['Other', '65535']])
            c['h'] = [['1', '0'], tool, [str(rng.choice([0, 1, 2, 7, 65535]))], [str(bound)]]
    return cases


def pieces(rng, g):
    """Makes modules of pieces: (classes, times)."""
    def tiny(cls):
        for _ in range(200):
            i = g.of(cls)
            if sum(len(f) for f in i) < 8:
                return i
        return i

    def mk(*ps):
        vary = rng.random()
        rep = []
        for p in ps:
            r = {'i': [tiny(c) for c in p[0].split()], 'n': p[1]}
            if vary < 0.65 and p[1] > 1:
                # ids and numbers that are different each time
                at = [[a, f + 1] for a, i in enumerate(r['i']) for f, k in enumerate(FIELDS[i[0][0]]) if k.split(':')[0] in ('id', 'res', 'u32', 'member')]
                r['v'] = at if vary < 0.4 else [x for x in at if rng.random() < 0.5]
            rep.append(r)
        return {'op': 'val', 'brief': 1, 'i': [], 'rep': rep}
    return mk


def late_cases(rng, tier, extra):
    """Large modules that are right, or wrong at a late place (C10-C12)."""
    one = pieces(rng, LGen(rng, extra))
    out = []
    mk = lambda *ps: out.append(one(*ps))
    D = 'func label branch end'
    for n in [300, 5000, 33000, 66000, 70000] + ([140000, 270000, 540000, 1100000] if tier != 'quick' else [140000]) + near(3, 300000, 6):
        for s in ('cap', 'ext', 'imp'):
            mk((s, n), ('mem', 1), ('cap', 1), ('func end', 1))
            mk((s, n), ('mem', 1), ('func', 1), ('param', 3), ('label branch', 2), ('end', 1))
        for s in ('entry', 'mode', 'debug', 'annot', 'global'):
            mk(('mem', 1), (s, n), ('func end', 2), (D, 2))
            mk(('mem', 1), (s, n), ('func label', 1), ('code', 2), ('end', 1))
            mk(('mem', 1), (s, n), ('mem', 1), (D, 2))
        mk(('mem', 1), ('func', 1), ('param', n), ('label code', 1), ('branch', 1), ('end', 1))
        mk(('mem', 1), ('func', 1), ('param', n), ('code', 1))
        mk(('mem', 1), ('func label', 1), ('code', n), ('branch end', 1))
        mk(('mem', 1), ('func label', 1), ('code', n), ('merge merge branch end', 1))
        mk(('mem', 1), ('func', 1), ('label branch', n // 2), ('end', 1))
        mk(('mem', 1), ('func', 1), ('label code merge branch', n // 4), ('code', 1), ('end', 1))
        mk(('mem', 1), ('func end', n // 2), ('end', 1), ('mem', 1))
        mk(('mem', 1), ('func end', n // 3), (D, 10), ('func end', 1))
        mk(('mem', 1), (D, n // 4), ('global', 1), (D, 3))
        mk(('mem', 1), ('func param label code code branch label branch end', n // 8))
        mk(('mem', 1), (D, n // 4), ('func label', 1))
        mk(('mem', 1), (D, n // 4), ('func', 1))
    # many of a kind, then anything
    for n in (20, 350, 1200) + ((9000, 70000) if tier != 'quick' else ()):
        for pre, s, q in [('', s, 'mem') for s in ('cap', 'ext', 'imp')] + [('mem', s, '') for s in ('entry', 'mode', 'debug', 'annot', 'global', 'func end', D)] + [
                ('mem func', 'param', 'end'), ('mem func', 'label branch', 'end'), ('mem func label', 'code', 'branch end'), (D.join(['mem ', ' func label']), 'code', 'branch end')]:
            for c in CLASSES:
                if tier == 'quick' and n > 500 and rng.random() < 0.5:
                    continue
                mk(*([(pre, 1)] if pre else []), (s, n), (c, rng.choice([1, 1, 2])), *([(q, 1)] if q else []))
    return headed(rng, out)


def size_cases(rng, tier, extra):
    G = LGen(rng, extra)
    one = pieces(rng, G)
    big = 1 if tier == 'quick' else 5
    out = []
    mk = lambda *ps: out.append(one(*ps))
    D = 'func label branch end'
    for n in (1000, 20000, 250000 * big):
        for s in CLASSES[:9]:
            pre = CLASSES.index(s) < 3
            mk((s, n), ('mem', 1)) if pre else mk(('mem', 1), (s, n))
            if s != 'mem':
                mk((s, n)) if pre else mk(('mem', 1), (s, n), ('cap', 1))
                mk((s, n), ('mem', 1), ('debug', 5), ('mem', 1)) if pre else mk(('mem', 1), (s, n), ('func', 1))
        mk(('mem', 1), ('func', 1), ('param', n), ('end', 1))
        mk(('mem', 1), ('func', 1), ('param', n), ('label branch end', 1))
        mk(('mem', 1), ('func', 1), ('param', n))
        mk(('mem', 1), ('func', 1), ('param', n), ('cap', 1))
        mk(('mem', 1), ('func label', 1), ('code', n), ('branch end', 1))
        mk(('mem', 1), ('func label', 1), ('code', n), ('merge branch end', 1))
        mk(('mem', 1), ('func label', 1), ('code', n), ('merge code', 1))
        mk(('mem', 1), ('func label', 1), ('code', n))
        mk(('mem', 1), ('func', 1), ('label branch', n // 2), ('end', 1))
        mk(('mem', 1), ('func', 1), ('label code merge branch', n // 4), ('end', 1))
        mk(('mem', 1), ('func', 1), ('label branch', n // 2))
        mk(('mem', 1), ('func', 1), ('label branch', n // 2), ('branch', 1))
        mk(('mem', 1), ('func', 1), ('label', n))
        mk(('mem', 1), ('func end', n // 2))
        mk(('mem', 1), ('func param end', n // 3), ('func', 1))
        mk(('mem', 1), ('func end', n // 2), (D, n // 4))
        mk(('mem', 1), (D, n // 4))
        mk(('mem', 1), ('func param label code branch label code merge branch end', n // 10), ('end', 1))
        mk(('mem', 1), (D, n // 4), ('func end', 1))
        mk(('mem', 1), (D, n // 4), ('global', 1), (D, 3))
        mk(('mem', n))
        mk(('func', n))
        mk(('mem', 1), ('func', n))
        mk(('end', n))
        mk(('code', n))
        mk(('label', n))
        mk(('cap', n // 6), ('ext', n // 6), ('imp', n // 6), ('mem', 1), ('entry', n // 6), ('mode', n // 6), ('debug', n // 6), ('annot', n // 6), ('global', n // 6),
           ('func param end', n // 20), ('func param label code merge branch label branch end', n // 20))
    # very many of each instruction
    for cls, before, after in (('code', 'mem func label', 'branch end'), ('global', 'mem', 'func end'), ('annot', 'mem', ''), ('debug', 'mem', '')):
        for name in [x for x in ALLOPS if SECTION.get(x) in (cls, 'var')]:
            for vary in (False, True):
                c = one(*([(before, 1), (cls, 100000 * big)] + ([(after, 1)] if after else [])))
                r = c['rep'][1]
                for _ in range(200):
                    i = G.inst(name)
                    if sum(len(f) for f in i) < 8 and class_of(i) == cls:
                        break
                else:
                    continue
                r['i'] = [i]
                r.pop('v', None)
                if vary:
                    r['v'] = [[0, f + 1] for f, k in enumerate(FIELDS[name]) if k.split(':')[0] in ('id', 'res', 'u32', 'member')][:2]
                    if not r['v']:
                        continue
                out.append(c)
    # sizes near powers of two, where buffers may be grown or split
    for n in [255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537] + near(3, 300000, 16):
        mk(('mem', 1), ('global', n))
        mk(('cap', n), ('mem', 1), ('func', 1), ('param', n), ('label', 1), ('code', n), ('branch end', 1))
        mk(('mem', 1), ('func', 1), ('label branch', n), ('end', 1))
        mk(('mem', 1), ('func end', n))
        mk(('mem', 1), ('func label branch end', n))
    for _ in range(100 if tier == 'quick' else 1000):
        ps = []
        for s in CLASSES[:9]:
            if s == 'mem':
                if rng.random() < 0.95:
                    ps.append(('mem', 1))
            elif rng.random() < 0.6:
                ps.append((s, rng.choice([1, 3, 100, rng.randrange(3000)])))
        for _ in range(rng.randrange(0, 4)):
            ps.append((rng.choice(['func end', 'func param end']), rng.randrange(1, 300)))
        for _ in range(rng.randrange(0, 4)):
            ps.append((rng.choice([D, 'func param param label code branch end', 'func label merge branch label code code branch end']), rng.randrange(1, 1000)))
        if rng.random() < 0.3:
            ps.insert(rng.randrange(len(ps) + 1), (rng.choice(CLASSES), rng.randrange(1, 4)))
        if ps:
            mk(*ps)
    return headed(rng, out)
