"""Sessions: histories and concurrent calls (C21)."""
import copy, json, random
from . import flow, pipe, reader, run, show
from .asm import *
from .layout import LGen, vcase


MM = [['OpMemoryModel'], ['Logical'], ['Simple']]
FN = [['OpFunction'], ['1'], ['2'], [], ['3']]


def tweak_bytes(rng, b):
    """The same length, one word different."""
    b = bytearray(b)
    if len(b) < 24:
        return bytes(b)
    p = rng.randrange(5, len(b) // 4) * 4
    b[p + rng.randrange(4)] ^= 1 << rng.randrange(8)
    return bytes(b)


def families(rng, tier, extra):
    """Groups of calls that resemble each other, so that an answer kept for one may be given to another."""
    g = LGen(rng, extra)
    P = flow.Programs(rng, extra)
    out = []
    n = 14 if tier == 'quick' else 80
    for k in range(n):
        sets = rng.choice([['G'], ['G', 'A'], ['A', 'B'], ['A', 'A2'], ['A2', 'A'], ['G', 'A', 'B', 'P']])
        b = pack(module(g.module_insts(rng.choice([3, 6, 12]), sets)))
        f = [reader.case(b, sets), reader.case(reader.swapped(b), sets), reader.case(b, []), reader.case(b[:-4], sets)]
        f += [reader.case(tweak_bytes(rng, b), sets) for _ in range(4)]
        f += [reader.case(b, sets[::-1]), reader.case(b, sets, txt=1)]
        out.append(f)
    # the same import bound to different sets, the same ids to different names, an import that is missing here
    imp = lambda i, nm: [['OpExtInstImport'], [str(i)], ['%02x' % x for x in nm.encode()]]
    use = lambda s, f: [['OpExtInst'], ['1'], ['2'], [str(s)], f]
    for i in (1, 7):
        w = lambda *xs: module(list(xs))
        out.append([reader.case(w(imp(i, 'T.a'), use(i, ['A', '1', '5'])), ['A']), reader.case(w(imp(i, 'T.a'), use(i, ['A', '1', '5'])), ['A2']),
                    reader.case(w(imp(i, 'T.b'), use(i, ['A', '1', '5'])), ['A', 'B']), reader.case(w(use(i, ['A', '1', '5'])), ['A', 'B']),
                    reader.case(w(imp(i, 'T.a'), imp(i + 1, 'T.b'), use(i + 1, ['A', '1', '5'])), ['A', 'B']),
                    reader.case(w(imp(i + 1, 'T.a'), use(i, ['A', '1', '5'])), ['A', 'B']), reader.case(w(imp(i, 'T.a')), []),
                    reader.case(w(imp(i, 'T.a'), imp(i, 'T.a')), ['A']), reader.case(w(imp(i, 'GLSL.std.450'), use(i, ['G', 'Sin', '5'])), ['G'])])
    for k in range(n):
        m = [g.of(x) for x in g.module_classes()]
        f = [vcase(m), vcase(m[:-1]), vcase(m[1:]), vcase(m + [g.of('func')])]
        for _ in range(3):
            m2 = copy.deepcopy(m)
            i = rng.choice(m2)
            ks = FIELDS[i[0][0]]
            if ks:
                j = rng.randrange(len(ks))
                w = show.other_value(g, ks[j], i[j + 1])
                if w is not None:
                    i[j + 1] = w
            f.append(vcase(m2))
        out.append(f)
    for k in range(n):
        p = P.program(rng.choice([4, 6, 9]), 4)
        bs = P.dress(flow.lower(p))
        f = [flow.fcase(bs, txt=1), flow.fcase(bs, txt=1, lim=show.limits(rng, 40 * len(bs)) + show.limits(rng, 40 * len(bs)))]
        for _ in range(5):
            b2 = copy.deepcopy(bs)
            b = rng.choice(b2)
            if b[3][0] == ['OpBranchConditional'] and rng.random() < 0.5:
                b[3][2], b[3][3] = b[3][3], b[3][2]
            elif b[2]:
                b[2][0][-1] = P.hints('sel' if b[2][0][0] == ['OpSelectionMerge'] else 'loop')
            else:
                b[3] = flow.RET
            f.append(flow.fcase(b2, txt=1))
        f.append(flow.fcase(bs[:-1], txt=1))
        out.append(f)
    # functions with several faults of a kind: which one is told must not depend on chance
    for k in range(n):
        f = []
        for _ in range(6):
            m = rng.choice([4, 6, 9, 14])
            ids = rng.sample(range(1, 4000), m)
            bs = [flow.block(a, flow.jump(b)) for a, b in zip(ids, ids[1:])] + [flow.block(ids[-1], flow.RET)]
            x = rng.randrange(3)
            if x == 0:      # several ids twice
                bs += [flow.block(a, flow.RET) for a in rng.sample(ids, rng.randrange(2, m))]
            elif x == 1:    # branches to several blocks that are not there
                bs = [flow.block(a, flow.cond(5000 + a, 6000 + a), flow.selm(7000 + a)) for a in ids]
            else:
                bs = [flow.block(a, flow.cond(rng.choice(ids), rng.choice(ids + [9999])), rng.choice([None, flow.selm(rng.choice(ids)), flow.loopm(rng.choice(ids), a)])) for a in ids]
            f.append(flow.fcase(bs, txt=1))
        out.append(f)
    for c in rng.sample(flow.function_cases(rng, 'quick', extra, small=False, n=400), 8 * (n // 2)):
        if c.get('blocks') is not None and len(c['blocks']) < 40:
            if len(out[-1]) >= 8 or out[-1] and 'loose' not in out[-1][0]:
                out.append([])
            out[-1].append(dict(c, txt=1, loose=1))
    for k in range(n):
        i = [g.inst() for _ in range(3)]
        f = [{'op': 'dis', 'h': show.headers(rng, g), 'i': i} for _ in range(2)] + [{'op': 'dis', 'h': [], 'i': i[:2]}, {'op': 'dis', 'h': [], 'i': i, 'lim': show.limits(rng, 300) + show.limits(rng, 300)}]
        out.append(f)
    for k in range(n // 2):
        m = pipe.make(rng, P, g)
        b = bytes.fromhex(m['b'])
        out.append([m] + [dict(m, b=tweak_bytes(rng, b).hex()) for _ in range(3)])
    return out


def sessions(rng, tier, extra):
    """(case, calls): histories and threads over the calls."""
    fams = families(rng, tier, extra)
    out = []

    def hist(calls, o, **kw):
        out.append(dict({'op': 'hist', 'calls': calls, 'o': o}, **kw))

    def thr(calls, os):
        out.append({'op': 'thr', 'calls': calls, 'o': os})
    for f in fams:
        n = len(f)
        hist(f, [k for a in range(n) for b in range(n) for k in (a, b)])        # every ordered pair
        hist(f, [k for k in range(n) for _ in range(3)] + list(range(n - 1, -1, -1)))
        hist(f, [rng.randrange(n) for _ in range(60)])
    allc = [c for f in fams for c in f]
    for _ in range(6 if tier == 'quick' else 60):
        s = rng.sample(allc, min(len(allc), 120))
        o = list(range(len(s)))
        rng.shuffle(o)
        hist(s, o + o[::-1] + o)
    # often: counters, tables that fill up
    for f in fams[::5] if tier == 'quick' else fams:
        hist(f, list(range(len(f))), rep=150 if tier == 'quick' else 1500)
    for f in (fams[0], fams[-1], fams[len(fams) // 2]):
        hist(f[:2], [0, 1], rep=3000 if tier == 'quick' else 40000)
    tiny = [reader.case(HDR), reader.case(HDR + words([['OpNop']])), vcase([[['OpMemoryModel'], ['Logical'], ['Simple']]]),
            flow.fcase([flow.block(1, flow.RET)]), {'op': 'dis', 'h': [], 'i': [[['OpNop']]]},
            reader.case(HDR + words([['OpExtInstImport'], ['1'], ['%02x' % x for x in b'GLSL.std.450']]) + words([['OpExtInst'], ['1'], ['2'], ['1'], ['G', 'Sin', '4']]))]
    hist(tiny, list(range(len(tiny))), rep=20000 if tier == 'quick' else 300000)
    for c in tiny:
        hist([c], [0], rep=70000 if tier == 'quick' else 500000)
    # refused again and again, then accepted as before
    W = lambda *ws: reader.case(HDR + list(ws))
    bad = {'read': [reader.case(b'\3\2'), reader.case([1, 2, 3, 4, 5]), W(0), W(1 << 16 | 65535), W(2 << 16 | 0), W(9 << 16 | 54), W(2 << 16 | 19, 1, 3 << 16 | 19, 1, 2), W(3 << 16 | 14, 0, 99),
                    W(2 << 16 | 17, 4000), W(3 << 16 | 5, 1, 0x20202020), W(2 << 16 | 10, 0xff), W(*words([['OpExtInstImport'], ['1'], ['41']])), W(5 << 16 | 12, 1, 2, 1, 13)],
           'val': [vcase([]), vcase([[['OpNop']]]), vcase([MM, [['OpReturn']]]), vcase([MM, FN]), vcase([MM, FN, [['OpLabel'], ['1']]]), vcase([MM, FN, [['OpLabel'], ['1']], [['OpNop']], [['OpFunctionEnd']]])],
           'cfa': [flow.fcase([]), flow.fcase([flow.block(1, flow.jump(2))]), flow.fcase([flow.block(1, flow.RET), flow.block(1, flow.RET)]), flow.fcase([flow.block(1, flow.cond(1, 2))]),
                   flow.fcase([flow.block(1, flow.jump(2)), flow.block(2, flow.jump(1))]), flow.fcase([flow.block(1, flow.cond(2, 3), flow.selm(3)), flow.block(2, flow.RET), flow.block(3, flow.RET)]),
                   flow.fcase([flow.block(1, flow.jump(2), flow.loopm(3, 2)), flow.block(2, flow.jump(3)), flow.block(3, flow.RET)]),
                   flow.fcase([flow.block(1, flow.jump(2), flow.loopm(4, 2)), flow.block(2, flow.cond(3, 9), flow.selm(3)), flow.block(3, flow.jump(1)), flow.block(4, flow.RET)])]}
    good = {'read': [tiny[1], tiny[5]], 'val': [tiny[2], vcase([MM, FN, [['OpLabel'], ['1']], [['OpReturn']], [['OpFunctionEnd']]])],
            'cfa': [tiny[3], flow.fcase([flow.block(1, flow.cond(2, 3), flow.selm(3)), flow.block(2, flow.jump(3)), flow.block(3, flow.RET)], txt=1),
                    flow.fcase([flow.block(1, flow.jump(2), flow.loopm(3, 2)), flow.block(2, flow.cond(1, 3)), flow.block(3, flow.RET)], txt=1)]}
    for k in bad:
        for x in bad[k]:
            hist([x] + good[k], [0] * 60 + list(range(1, len(good[k]) + 1)) + [0], rep=250 if tier == 'quick' else 5000)
        hist(bad[k] + good[k], list(range(len(bad[k]) + len(good[k]))), rep=3000 if tier == 'quick' else 60000)
    # many different inputs, then the first ones again
    many = []
    g = LGen(rng, extra)
    for k in range(300 if tier == 'quick' else 3000):
        many.append(reader.case(module([[['OpName'], [str(k)], ['%02x' % (97 + k % 26), '%02x' % (97 + k // 26 % 26)]], g.inst('OpDecorate')])))
    hist(many, list(range(len(many))) + list(range(len(many))))
    # threads
    for f in fams:
        n = len(f)
        for _ in range(2 if tier == 'quick' else 10):
            thr(f, [[rng.randrange(n) for _ in range(25)] for _ in range(8)])
        k = rng.randrange(n)
        thr(f, [[k] * 20 for _ in range(4)] + [[(k + 1) % n] * 20 for _ in range(4)])
    for k in bad:       # refused and accepted at the same time
        s = bad[k] + good[k]
        thr(s, [[j for _ in range(12 if tier == 'quick' else 100) for j in rng.sample(range(len(s)), len(s))] for _ in range(8)])
        for x in bad[k]:
            thr([x] + good[k], [[j % (len(good[k]) + 1) if t % 2 else 0 for j in range(200 if tier == 'quick' else 2000)] for t in range(8)])
    for _ in range(10 if tier == 'quick' else 100):
        s = rng.sample(allc, min(len(allc), 40))
        thr(s, [rng.sample(range(len(s)), len(s)) * 2 for _ in range(8)])
    return out


def keeps(rng, tier, extra):
    return [{'op': 'keep', 'calls': [c for c in f if c['op'] == 'read'] * 3} for f in families(rng, tier, extra) if f[0]['op'] == 'read']


def history_record(n, s, r, alone):
    """alone: the results of each of the calls in a process of its own."""
    o = s['o'] if s['op'] == 'thr' else [s['o']]
    d = r.get('d', [])
    if s['op'] == 'hist':
        d = [d]
        if s.get('rep'):
            o = [r.get('o', s['o'])]
    return {'n': n, 'k': r['k'], 'o': [[k + 1 for k in x] for x in o], 'd': d,
            'alone': [a['d'][0] if a['k'] == 'ok' else a['k'] for a in alone]}


def kept_record(n, s, r):
    return {'n': n, 'k': r['k'], 'o': [[1] * len(r.get('d', [])) or [1]], 'd': [r.get('d', [])], 'alone': ['same']}


def replay_record(tmp, s, r):
    if s['op'] not in ('hist', 'thr'):
        return kept_record(0, s, r)
    return history_record(0, s, r, run.execute_fresh(tmp, [{'op': 'hist', 'calls': [x], 'o': [0]} for x in s['calls']]))


def run_sessions(c, extra):
    cases = sessions(c.rng, c.tier, extra)
    calls, index = [], {}
    for s in cases:
        s['ids'] = []
        for x in s['calls']:
            k = json.dumps(x, sort_keys=True)
            if k not in index:
                index[k] = len(calls)
                calls.append(x)
            s['ids'].append(index[k])
    alone = run.execute_fresh(c.tmp, [{'op': 'hist', 'calls': [x], 'o': [0]} for x in calls])
    c.log(len(calls), 'calls alone')

    def record(n, s, r):
        return history_record(n, s, r, [alone[i] for i in s['ids']])

    def wrong(r, rng):
        t_ = rng.randrange(len(r['d']))
        if not r['d'][t_]:
            return None
        r['d'][t_][rng.randrange(len(r['d'][t_]))] = '0123456789abcdef'
        return r
    # the heavy ones are spread
    order = list(range(len(cases)))
    random.Random(7).shuffle(order)
    cases = [cases[k] for k in order]
    c.trace('sessions', 'TraceSession', cases, record, wrong, limit_ms=120000)
    ks = keeps(c.rng, c.tier, extra)
    c.trace('results kept', 'TraceSession', ks, kept_record, wrong)
