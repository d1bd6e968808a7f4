"""Corpora for control flow (C14-C17, C19) and structured programs."""
import itertools, json, os, random, sys
from . import run
from .asm import *
from .layout import BYCLASS, LGen

sys.setrecursionlimit(20000)
HSEL = [[], ['Flatten'], ['DontFlatten'], ['Flatten', 'DontFlatten']]
LOOPBITS = MASKBITS['LoopControl']


def label(i):
    return [['OpLabel'], [str(i)]]


def jump(t):
    return [['OpBranch'], [str(t)]]


def cond(t, f, w=(), c='900'):
    return [['OpBranchConditional'], [str(c)], [str(t)], [str(f)], [str(x) for x in w]]


RET = [['OpReturn']]


def selm(m, h=()):
    return [['OpSelectionMerge'], [str(m)], list(h)]


def loopm(m, c, h=()):
    return [['OpLoopMerge'], [str(m)], [str(c)], list(h)]


def block(i, br, m=None, code=()):
    return [label(i), list(code), [m] if m else [], br]


def fcase(blocks, **kw):
    c = {'op': 'cfa', 'blocks': blocks}
    c.update(kw)
    return c


def token(t, i='', h=(), w=()):
    return {'t': t, 'id': str(i), 'h': list(h), 'w': list(w)}


EMPTY = [token('block'), token('end')]


def bare(b):
    """A block without the body, which the search does not look at."""
    return [b[0], [], b[2], b[3]]


def chain(r):
    """The recorded chain: tokens."""
    return r.get('c', EMPTY)


def tokens(p):
    """A program as a flat list."""
    out = []
    for s in p:
        out.append(token(s['t'], s['id'], s['h'], s['w']))
        if s['t'] in ('sel', 'loop'):
            out += tokens(s['a'])
            if s['t'] == 'sel':
                out += [token('else')] + tokens(s['b'])
            out.append(token('end'))
    return out


def record(n, c, r):
    return {'n': n, 'blocks': [bare(b) for b in c['blocks']], 'o': {'k': r['k'], 'e': r.get('e', []), 'c': chain(r)}}


def srecord(n, c, r):
    d = record(n, c, r)
    d['p'] = tokens(c['ast'])
    return d


# ---- structured programs ----
def st(t, i, a=(), b=(), h=(), w=()):
    return {'t': t, 'id': str(i), 'a': list(a), 'b': list(b), 'h': list(h), 'w': [str(x) for x in w]}


def lower(p, exit='', head='', merge='', g=None):
    out = []
    for k, s in enumerate(p):
        after = p[k + 1]['id'] if k + 1 < len(p) else exit
        ent = lambda q, x: q[0]['id'] if q else x
        if s['t'] == 'atom':
            out.append(block(s['id'], jump(after) if after else RET))
        elif s['t'] == 'sel':
            out.append(block(s['id'], cond(ent(s['a'], after), ent(s['b'], after), s['w']), selm(after, s['h'])))
            out += lower(s['a'], after, head, merge) + lower(s['b'], after, head, merge)
        elif s['t'] == 'loop':
            out.append(block(s['id'], jump(ent(s['a'], s['id'])), loopm(after, s['id'], s['h'])))
            out += lower(s['a'], s['id'], s['id'], after)
        else:
            out.append(block(s['id'], cond(after, merge if s['t'] == 'brk' else head, s['w'])))
    return out


class Programs:
    def __init__(self, rng, extra=()):
        self.r = rng
        self.g = LGen(rng, extra)

    def weights(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return []
        if x < 0.5:
            return r.choice([[0, 0], [0, 1], [1, 0], [4294967295, 0], [1, 4294967295]])
        return [self.g.num(), self.g.num()]

    def hints(self, t):
        r = self.r
        if t == 'sel':
            return r.choice(HSEL)
        if t == 'loop':
            return self.g.mask('LoopControl') if r.random() < 0.6 else []
        return []

    def seq(self, n, depth, exit_is_head, in_loop):
        """About n statements; ids are given later."""
        r = self.r
        out = []
        while n > 0:
            x = r.random()
            last = n <= 1
            if x < 0.35 or n < 1:
                out.append(['atom', [], []])
                n -= 1
            elif x < 0.62:
                m = r.randrange(0, n) if depth > 0 else 0
                i = r.choice([0, m, r.randrange(0, m + 1)])
                # an arm runs into the header of the loop when the selection is last and the sequence does
                lastone = r.random() < 0.35 or n - 1 - m <= 0
                a = self.seq(i, depth - 1, exit_is_head and lastone, in_loop)
                b = self.seq(m - i, depth - 1, exit_is_head and lastone, in_loop)
                out.append(['sel', a, b])
                n -= 1 + m
                if lastone:
                    return out
            elif x < 0.82:
                m = r.randrange(0, n) if depth > 0 else 0
                out.append(['loop', self.seq(m, depth - 1, True, True), []])
                n -= 1 + m
            elif in_loop and exit_is_head:
                out.append([r.choice(['brk', 'cont']), [], []])
                n -= 1
            else:
                out.append(['atom', [], []])
                n -= 1
        return out

    def number(self, p, ids):
        out = []
        for t, a, b in p:
            i = next(ids)
            out.append(st(t, i, self.number(a, ids), self.number(b, ids), self.hints(t), [] if t in ('atom', 'loop') else self.weights()))
        return out

    def ids(self, n):
        r = self.r
        x = r.random()
        if x < 0.3:
            v = list(range(1, n + 1))
        elif x < 0.6:
            v = r.sample(range(0, 4 * n + 10), n)
        elif x < 0.8:
            v = r.sample(sorted(set(BOUNDARY) | set(range(200))), n) if n < 150 else list(range(n, 0, -1))
        elif x < 0.9:
            b = r.choice([0, 250, 65530, 0x7ffffff0, 0xffffffff - 2 * n - 5])
            v = r.sample(range(b, b + 2 * n), n)
        else:
            v = [k * 65536 + 7 for k in r.sample(range(0, 60000), n)]
        if r.random() < 0.2:
            v.sort(reverse=True)
        return v

    def program(self, n, depth=6):
        p = self.seq(n, depth, False, False) + [['atom', [], []]]
        return self.number(p, iter(self.ids(count(p))))

    def dress(self, blocks, order=None):
        """Bodies, condition ids, continue targets: things the structure does not depend on."""
        r = self.r
        rest = blocks[1:]
        if order != 'keep' and r.random() < 0.7:
            r.shuffle(rest)
        elif r.random() < 0.3:
            rest.reverse()
        out = []
        for b in [blocks[0]] + rest:
            b = [b[0], [self.g.of('code') for _ in range(r.choice([0, 0, 0, 1, 2]))], [[list(f) for f in m] for m in b[2]], [list(f) for f in b[3]]]
            if b[3][0] == ['OpBranchConditional']:
                b[3][1] = [self.g.id()]
            if b[2] and b[2][0][0] == ['OpLoopMerge'] and r.random() < 0.7:
                b[2][0][2] = [r.choice([blocks[r.randrange(len(blocks))][0][1][0], self.g.id()])]
            out.append(b)
        return out


def count(p):
    return sum(1 + count(a) + count(b) for t, a, b in p)


def renumber(p, m):
    return [dict(s, id=m[s['id']], a=renumber(s['a'], m), b=renumber(s['b'], m)) for s in p]


def all_ids(p):
    return [i for s in p for i in [s['id']] + all_ids(s['a']) + all_ids(s['b'])]


def generated(tmp, cfg):
    """The programs TLC enumerates from the specification."""
    out = os.path.join(tmp, cfg + '.ndjson')
    r = run.tlc(tmp, 'GenStruct', {'OUT': out}, heap='6g', cfg=cfg + '.cfg')
    if not os.path.exists(out):
        raise run.ToolError('TLC wrote no programs:\n' + r['out'][-2000:])
    with open(out) as f:
        return [json.loads(x) for x in f]


NESTS = ('selT', 'selF', 'selTF', 'loop', 'loopb', 'loopc', 'mix')


def nest(kind, n, base):
    if n == 0:
        return [st('atom', base)]
    inner = nest(kind, n - 1, base + 3)
    if kind == 'selT':
        return [st('sel', base, inner, [], HSEL[n % 4], [n, 1])]
    if kind == 'selF':
        return [st('sel', base, [], inner, HSEL[n % 4], [])]
    if kind == 'selTF':
        return [st('sel', base, inner, [st('atom', base + 1)], [], [1, n]), st('atom', base + 2)]
    if kind == 'loop':
        return [st('loop', base, inner, [], ['Unroll'] if n % 2 else [])]
    if kind == 'loopb':
        return [st('loop', base, [st('brk', base + 1, [], [], [], [n, n])] + inner), st('atom', base + 2)]
    if kind == 'loopc':
        return [st('loop', base, [st('cont', base + 1)] + inner + [st('brk', base + 2)])]
    if kind == 'mix':
        return [st('loop', base, [st('sel', base + 1, inner, [], ['Flatten'])])] if n % 2 else [st('sel', base, [], [st('loop', base + 1, inner, [], [])])]


def program_cases(rng, tier, extra, tmp, n=None):
    """From the specification (all small ones) and random larger ones."""
    P = Programs(rng, extra)
    out = []
    for g in generated(tmp, 'GenStruct' if tier == 'quick' else 'GenStruct5'):
        out.append(fcase(g['blocks'], ast=g['p']))
        ids = all_ids(g['p'])
        m = dict(zip(ids, (str(x) for x in P.ids(len(ids)))))
        q = renumber(g['p'], m)
        out.append(fcase(P.dress(lower(q)), ast=q))
    for k in range(n or (2500 if tier == 'quick' else 20000)):
        p = P.program(rng.choice([3, 5, 6, 8, 10, 12, 15, 20]) if k % 20 else rng.choice([30, 40, 60]), rng.choice([2, 4, 6, 10]))
        out.append(fcase(P.dress(lower(p)), ast=p))
    # shapes that matter: deep nests, long sequences, wide alternations
    for kind in NESTS:
        for n in ([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17] if tier == 'quick' else list(range(1, 34))):
            p = nest(kind, n, 10) + [st('atom', 5)]
            out.append(fcase(P.dress(lower(p)), ast=p))
    for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] + near(3, 300, 5):
        p = [st('atom', k + 1) for k in range(n)]
        out.append(fcase(P.dress(lower(p)), ast=p))
        p = [st('sel', k + 1, [], [], HSEL[k % 4], [k, 0] if k % 2 else []) for k in range(n)] + [st('atom', n + 1)]
        out.append(fcase(P.dress(lower(p)), ast=p))
        p = [st('loop', k + 1, [], [], []) for k in range(n)] + [st('atom', n + 1)]
        out.append(fcase(P.dress(lower(p)), ast=p))
        p = [st('loop', 9000, [st(('brk', 'cont')[k % 2], k + 1) for k in range(n)], [], []), st('atom', 9001)]
        out.append(fcase(P.dress(lower(p)), ast=p))
        p = [st('loop', 9000, [st('atom', k + 1) for k in range(n)], [], ['Unroll']), st('atom', 9001)]
        out.append(fcase(P.dress(lower(p)), ast=p))
    # large ones, well within what the stack allows
    for size in ((150, 300) if tier == 'quick' else (150, 200, 250, 300, 350, 400)):
        for _ in range(6 if tier == 'quick' else 20):
            p = P.program(size, rng.choice([3, 8, 30]))
            out.append(fcase(P.dress(lower(p)), ast=p))
        p = [st('atom', k + 1) for k in range(size)]
        out.append(fcase(P.dress(lower(p)), ast=p))
    for kind in NESTS:
        for n in [27, 33, 64, 65, 66, 100, rng.choice([128, 129, 130, 150])] + ([200, 256, 257, 300] if tier != 'quick' else []) + near(18, 220, 5):
            p = nest(kind, n, 10) + [st('atom', 5)]
            out.append(fcase(P.dress(lower(p)), ast=p))
    # every hint and weight
    for h in HSEL:
        for w in ([], [0, 0], [1, 2], [4294967295, 4294967294], [2, 1]):
            for a, b in (([], []), ([st('atom', 3)], []), ([], [st('atom', 3)]), ([st('atom', 3)], [st('atom', 4)])):
                p = [st('sel', 1, a, b, h, w), st('atom', 2)]
                out.append(fcase(lower(p), ast=p))
    for k in range(16):
        h = [x for j, x in enumerate(LOOPBITS) if k >> j & 1]
        if 'DependencyLength' in h:
            h = h + [str(k * 77)]
        p = [st('loop', 1, [st('brk', 2, [], [], [], [k, 9])], [], h), st('atom', 3)]
        out.append(fcase(lower(p), ast=p))
    # one block, and few
    for n in (1, 1, 1, 1, 2, 2, 3) * 6:
        p = [st('atom', i) for i in P.ids(n)]
        out.append(fcase(P.dress(lower(p)), ast=p))
    return headed(rng, out)


CONTROLS = [[], ['Inline'], ['DontInline'], ['Pure'], ['Const'], ['Inline', 'Pure'], ['DontInline', 'Const'], ['Inline', 'DontInline', 'Pure', 'Const']]


def headed(rng, cases):
    """Functions of every kind of head: controls, ids and parameters, on which nothing depends."""
    for k, c in enumerate(cases):
        if k % 2 or 'f' in c:
            continue
        ids = [b[0][1][0] for b in c['blocks']] + ['1', '2', '900']
        pick = lambda: rng.choice(ids) if rng.random() < 0.5 else str(rng.choice([0, 7, 4000, 4294967295, rng.randrange(1, 5000)]))
        c['f'] = [['OpFunction'], [pick()], [pick()], rng.choice(CONTROLS), [pick()]]
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9, 17, 33]) if k % 64 else rng.choice([64, 65, 128, 255, 256, 257, 300])
        c['p'] = [[['OpFunctionParameter'], [pick()], [pick()]] for _ in range(n)]
    return cases


# ---- any functions ----
def small_functions(n=2):
    ids = range(1, n + 2)
    merges = [None] + [selm(m, ['Flatten']) for m in ids] + [loopm(m, m, ['Unroll']) for m in ids]
    branches = [RET] + [jump(t) for t in ids] + [cond(t, f, [3, 4]) for t in ids for f in ids]
    return [(m, b) for m in merges for b in branches]


def function_cases(rng, tier, extra, small=True, n=None):
    P = Programs(rng, extra)
    out = []
    if small:
        bodies = small_functions(2)
        for x in itertools.product(bodies, repeat=2):
            out.append(fcase([block(k + 1, b, m) for k, (m, b) in enumerate(x)]))
    # three and more blocks, arms drawn so that many make sense
    for _ in range(n or (6000 if tier == 'quick' else 60000)):
        k = rng.choice([3, 3, 4, 4, 5, 6, 8])
        ids = P.ids(k)
        miss = rng.random() < 0.1
        pool = ids + ([9999] if miss else [])
        bs = []
        for j, i in enumerate(ids):
            later = ids[j + 1:] or ids
            pick = lambda: rng.choice(later) if rng.random() < 0.75 else rng.choice(pool)
            x = rng.random()
            if j == k - 1 and rng.random() < 0.7 or x < 0.08:
                bs.append(block(i, RET, None if rng.random() < 0.95 else selm(pick())))
            elif x < 0.35:
                bs.append(block(i, jump(pick())))
            elif x < 0.6:
                bs.append(block(i, cond(pick(), pick(), P.weights()), selm(pick(), P.hints('sel'))))
            elif x < 0.8:
                bs.append(block(i, jump(pick()), loopm(pick(), rng.choice(pool), P.hints('loop'))))
            elif x < 0.95:
                bs.append(block(i, cond(pick(), pick(), P.weights())))
            elif x < 0.97:
                bs.append(block(i, cond(pick(), pick()), loopm(pick(), pick())))
            else:
                bs.append(block(i, jump(pick()), selm(pick())))
        if rng.random() < 0.05:
            bs.append(block(rng.choice(ids), RET))
        if rng.random() < 0.4:
            bs[1:] = rng.sample(bs[1:], len(bs) - 1)
        out.append(fcase(bs))
    # programs with a small change in the blocks
    for _ in range(n or (5000 if tier == 'quick' else 50000)):
        p = P.program(rng.choice([3, 4, 5, 6, 8, 10, 14]), rng.choice([2, 4, 6]))
        bs = P.dress(lower(p))
        ids = [b[0][1][0] for b in bs]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            b = rng.choice(bs)
            x = rng.random()
            t = rng.choice(ids + ['77777'] if rng.random() < 0.1 else ids)
            if x < 0.2 and b[3][0] == ['OpBranch']:
                b[3] = jump(t)
            elif x < 0.45 and b[3][0] == ['OpBranchConditional']:
                b[3][rng.choice([2, 3])] = [t]
            elif x < 0.55 and b[3][0] == ['OpBranchConditional']:
                b[3][2], b[3][3] = b[3][3], b[3][2]
            elif x < 0.7 and b[2]:
                b[2][0][1] = [t]
            elif x < 0.75 and b[2]:
                b[2] = []
            elif x < 0.8:
                b[2] = [selm(t)] if rng.random() < 0.5 else [loopm(t, t)]
            elif x < 0.85:
                b[3] = RET
            elif x < 0.9:
                b[3] = rng.choice([jump(t), cond(t, rng.choice(ids))])
            elif x < 0.93 and len(bs) > 2:
                bs.remove(b)
                if not bs:
                    break
            elif x < 0.96:
                b[0] = label(rng.choice(ids))
            else:
                q = rng.choice(bs)
                b[3], q[3] = q[3], b[3]
        out.append(fcase(bs))
    out += shapes(rng, tier) + twice(rng, tier) + bent(rng, tier)
    return headed(rng, out)


def shapes(rng, tier):
    """Cycles, missing blocks, duplicates, odd merges, unreachable blocks."""
    out = [fcase([])]
    for n in (1, 2, 3, 4, 7, 8, 9, 16, 20, 33):
        # a cycle of n blocks, entered at once or after k blocks, with or without a merge on the way
        for pre in (0, 1, 3):
            bs = [block(k + 1, jump(k + 2)) for k in range(pre)]
            bs += [block(pre + k + 1, jump(pre + 1 + (k + 1) % n)) for k in range(n)]
            out.append(fcase(bs))
        # a cycle inside a selection arm, inside a loop body, after a loop
        cyc = lambda b: [block(b + k, jump(b + (k + 1) % n)) for k in range(n)]
        out.append(fcase([block(1, cond(10, 2), selm(2)), block(2, RET)] + cyc(10)))
        out.append(fcase([block(1, cond(2, 10), selm(2)), block(2, RET)] + cyc(10)))
        out.append(fcase([block(1, jump(10), loopm(2, 1)), block(2, RET)] + cyc(10)))
        out.append(fcase([block(1, jump(1), loopm(10, 1))] + cyc(10)))
        # straight lines that end in a missing block, or in each kind of odd block
        line = [block(k + 1, jump(k + 2)) for k in range(n)]
        out.append(fcase(line))
        out.append(fcase(line + [block(n + 1, RET, selm(1))]))
        out.append(fcase(line + [block(n + 1, RET, loopm(1, 1))]))
        out.append(fcase(line + [block(n + 1, jump(1), selm(1))]))
        out.append(fcase(line + [block(n + 1, cond(1, 1), loopm(1, 1))]))
        out.append(fcase(line + [block(n + 1, cond(1, 1))]))
        out.append(fcase(line + [block(n + 1, jump(n + 1))]))
        out.append(fcase(line + [block(n + 1, RET), block(n + 1, RET)]))
        out.append(fcase([block(1, RET)] * n))
        out.append(fcase([block(1, RET)] + [block(k + 2, jump(k + 3)) for k in range(n)]))
        # unreachable blocks that are wrong do not matter
        out.append(fcase([block(1, RET)] + [block(k + 2, cond(99, 98)) for k in range(n)]))
        out.append(fcase([block(1, RET)] + [block(k + 2, jump(k + 2), selm(1)) for k in range(n)]))
        # selections that do not rejoin: by return, by loop head, by an outer merge
        nestm = [block(k + 1, cond(k + 2, 100), selm(100)) for k in range(n)]
        out.append(fcase(nestm + [block(n + 1, RET), block(100, RET)]))
        out.append(fcase(nestm + [block(n + 1, jump(100)), block(100, RET)]))
        nestd = [block(k + 1, cond(k + 2, 100 + k), selm(100 + k)) for k in range(n)]
        tail = [block(100 + k, jump(100 + k - 1) if k else RET) for k in range(n)]
        out.append(fcase(nestd + [block(n + 1, jump(100 + n - 1))] + tail))
        out.append(fcase(nestd + [block(n + 1, jump(100))] + tail))
        out.append(fcase(nestd + [block(n + 1, jump(1))] + tail))
        # loops: body returns, body goes to the merge, body goes to an outer head
        nl = [block(k + 1, jump(k + 2), loopm(100 + k, k + 1)) for k in range(n)]
        lt = [block(100 + k, jump(k) if k else RET) for k in range(n)]
        for t in (n, 1, 100, 100 + n - 1, 500):
            out.append(fcase(nl + [block(n + 1, jump(t))] + lt))
            out.append(fcase(nl + [block(n + 1, cond(n, t))] + lt))
            out.append(fcase(nl + [block(n + 1, cond(t, 100 + n - 1))] + lt))
        out.append(fcase(nl + [block(n + 1, RET)] + lt))
    for a in (None, selm(2), loopm(2, 1), selm(1), loopm(1, 1), selm(3), loopm(3, 3)):
        for b in (RET, jump(1), jump(2), jump(3), cond(1, 1), cond(1, 2), cond(2, 1), cond(2, 2), cond(2, 3), cond(3, 2)):
            out.append(fcase([block(1, b, a)]))
            out.append(fcase([block(1, jump(2)), block(2, b, a), block(3, RET)]))
            out.append(fcase([block(9, jump(1), loopm(2, 9)), block(1, b, a), block(2, RET)]))
            out.append(fcase([block(9, jump(1), loopm(3, 9)), block(1, b, a), block(2, jump(9)), block(3, RET)]))
            out.append(fcase([block(9, cond(1, 3), selm(3)), block(1, b, a), block(2, jump(3)), block(3, RET)]))
    return out


def bent(rng, tier):
    """Nests of every kind and depth with one reference of one block pointed elsewhere."""
    out = []
    for kind in NESTS:
        for n in ((2, 3, 4, 6) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 10)):
            bs = lower(nest(kind, n, 10) + [st('atom', 5)])
            ids = [b[0][1][0] for b in bs]
            for k, b in enumerate(bs):
                slots = [(3, j) for j in {'OpBranch': [1], 'OpBranchConditional': [2, 3]}.get(b[3][0][0], [])] + ([(2, 1)] if b[2] else [])
                for at, j in slots:
                    for t in ['1', '60000', b[0][1][0]] + rng.sample(ids, 2 if tier == 'quick' else min(6, len(ids))):
                        q = [list(b[0]), [], [[list(f) for f in m] for m in b[2]], [list(f) for f in b[3]]]
                        (q[3] if at == 3 else q[2][0])[j] = [t]
                        out.append(fcase(bs[:k] + [q] + bs[k + 1:]))
    return out


def twice(rng, tier):
    """Functions in which one block's id comes a second time, near or far, reached or not."""
    out = []
    for n in [2, 3, 5, 9, 17, 33, 65, 70, 130, 200, 260] + ([100, 150, 300, 400, 520] if tier != 'quick' else []) + near(2, 400, 4):
        ids = list(range(1, n + 1)) if n % 2 else rng.sample(range(1, 5000), n)
        line = [block(i, jump(j)) for i, j in zip(ids, ids[1:])] + [block(ids[-1], RET)]
        alone = [block(ids[0], RET)] + [block(i, RET) for i in ids[1:]]
        for bs in (line, alone):
            far = sorted({(0, n - 1), (0, n), (1, n), (n // 2, n), (n - 1, n), (n // 3, n // 3 + n // 2), (0, n // 2)})
            for a, b in far:
                if a < b and a < n:
                    out.append(fcase(bs[:b] + [block(ids[a], RET if b % 2 else jump(ids[-1]))] + bs[b:]))
        out.append(fcase(line))
    return out


def long_functions(rng, tier):
    """Long and deep ones for the search itself, a good way below where its recursion ends."""
    out = []
    for n in [100, 128, 255, 256, 257] + ([400, 512] if tier != 'quick' else []) + near(34, 400, 4):
        line = [block(k + 1, jump(k + 2)) for k in range(n)]
        out.append(fcase(line + [block(n + 1, RET)]))
        out.append(fcase(line + [block(n + 1, jump(1))]))
        out.append(fcase(line))
        out.append(fcase(line + [block(n + 1, cond(1, 2))]))
    for n in [30, 70, 110] + near(20, 200, 4):
        nestd = [block(k + 1, cond(k + 2, 1000 + k), selm(1000 + k)) for k in range(n)]
        tail = [block(1000 + k, jump(1000 + k - 1) if k else RET) for k in range(n)]
        out.append(fcase(nestd + [block(n + 1, jump(1000 + n - 1))] + tail))
        out.append(fcase(nestd + [block(n + 1, jump(1000))] + tail))
        out.append(fcase(nestd + [block(n + 1, RET)] + tail))
        nl = [block(k + 1, jump(k + 2), loopm(1000 + k, k + 1)) for k in range(n)]
        lt = [block(1000 + k, jump(k) if k else RET) for k in range(n)]
        for t in (n, 1, 1000, 1000 + n - 1):
            out.append(fcase(nl + [block(n + 1, jump(t))] + lt))
            out.append(fcase(nl + [block(n + 1, cond(n, t))] + lt))
    return out


def rows(rng, tier):
    """Many constructs of a kind, one after the other and one in the other, all with the same hint: work done twice for one
    of them is work done beyond all measure for the whole."""
    A = ['atom', [], []]
    units = [lambda x: ['loop', x + [A], []], lambda x: ['loop', [['brk', [], []]] + x + [A], []], lambda x: ['loop', [['cont', [], []]] + x + [A], []],
             lambda x: ['sel', x + [A], []], lambda x: ['sel', [], x + [A]], lambda x: ['sel', [A], x + [A]], lambda x: ['sel', x + [A], [A]],
             lambda x: ['loop', [['sel', x + [A], [A]], A], []], lambda x: ['sel', [['loop', x + [A], []]], [A]], lambda x: ['loop', [['loop', x + [A], []], A], []]]
    out = []

    def put(p, hs, hl, w):
        P = Programs(rng)
        P.hints = lambda t: hs if t == 'sel' else hl if t == 'loop' else []
        P.weights = lambda: w
        out.append(fcase(lower(P.number(p, iter(range(1, 5000))))))
    ls = [[], ['Unroll'], ['DontUnroll'], ['Unroll', 'DontUnroll'], ['DependencyInfinite'], ['DependencyLength', '4']]
    ls = [[x for x in l if x in LOOPBITS or x == '4'] for l in ls]
    for k, u in enumerate(units):
        for j, hl in enumerate(ls if tier != 'quick' else ls[:4]):
            hs = HSEL[(k + j) % 4]
            w = [[], [1, 0], [0, 0], [7, 7]][(k + 2 * j) % 4]
            put([u([]) for _ in range(36)] + [A], hs, hl, w)
            if j % 2 == k % 2 or tier != 'quick':
                x = []
                for _ in range(30 if k < 7 else 18):
                    x = [u(x)]
                put(x + [A], hs, hl, w)
                put([u([u([])]) for _ in range(18)] + [A], hs, hl, w)
    # a row that goes wrong only at its end, and whose last block is missing
    for c in [c for c in out[::7]]:
        b = c['blocks']
        out.append(fcase(b[:-1]))
        out.append(fcase(b[:-1] + [block(b[-1][0][1][0], jump(b[0][0][1][0]))]))
    return headed(rng, out)


def diamond(n):
    """Nested selections that lead to the same block on both sides: the chain doubles with each level."""
    bs = [block(k + 1, cond(k + 2, k + 2), selm(1000 + k)) for k in range(n)]
    return bs + [block(n + 1, jump(1000 + n - 1))] + [block(1000 + k, jump(1000 + k - 1) if k else RET) for k in range(n)]
