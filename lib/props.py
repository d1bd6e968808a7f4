"""What each property's check explores."""
from . import asm, flow, layout, offer, parts, pipe, reader, session, show
from .asm import harvest

RECORD = {'TraceReader': reader.record, 'TraceCost': reader.cost_record, 'TraceWide': reader.wide_record, 'TraceLayout': layout.record}


# ---- reading ----
def wrong_read(prop):
    """A wrong copy of a recorded read, wrong in a way that concerns the property."""
    def f(r, rng):
        o = r['o']
        if prop == 'C01':
            r['o'] = {'k': rng.choice(['panic', 'crash', 'hang']), 'h': [], 'i': [], 'e': []}
            return r
        if prop == 'C02':
            if o['k'] != 'ok':
                return None
            k = rng.randrange(1, 4)
            o['h'][k] = ['Other', '77'] if k == 1 else [str(int(o['h'][k][0]) ^ 1)]
            return r
        if prop == 'C03':
            if not r['hasSwap']:
                return None
            if o['k'] == 'ok' and o['i'] and rng.random() < 0.7:
                r['sw'] = {'k': 'ok', 'h': o['h'], 'i': o['i'][:-1], 'e': []}
            else:
                r['same'] = 0
            return r
        if prop == 'C04':
            if o['k'] != 'ok' or not o['i']:
                return None
            if len(r['pre']) > 24 and rng.random() < 0.5:
                n = rng.randrange(len(r['pre']))
                r['pre'][n] = 'ok:9999'
            else:
                del o['i'][rng.randrange(len(o['i']))]
            return r
        if prop == 'C06':
            if o['k'] == 'err' and o['e'][0] in ('UnknownOp', 'UnimplementedOp'):
                o['e'] = ['UnknownOp', '9', '9']
                return r
            return None
        if prop in ('C05', 'C07', 'C08', 'C09') and o['k'] == 'ok' and o['i']:
            i = rng.choice(o['i'])
            ks = asm.FIELDS[i[0][0]]
            want = {'C05': ('id', 'res', 'u32', 'vecid'), 'C07': ('enum', 'mask', 'comp'), 'C08': ('str',), 'C09': ('ext',)}[prop]
            at = [k for k, x in enumerate(ks) if x.split(':')[0] in want]
            if not at:
                return None
            k = rng.choice(at) + 1
            i[k] = {'C05': i[k] + ['0'], 'C07': ['Bogus'], 'C08': i[k] + ['41'], 'C09': i[k][:-1] + ['12345']}[prop]
            return r
        if prop == 'C08' and o['k'] == 'err' and o['e'][0] == 'InvalidString':
            r['o'] = {'k': 'ok', 'h': [['1', '0'], ['Khronos'], ['0'], ['0']], 'i': [], 'e': []}
            return r
        return None
    return f


def reading(c, prop):
    if prop in ('C01', 'C03', 'C04', 'C05', 'C07'):
        c.model('MCReader', 'MCReader.cfg' if c.quick else 'MCReader4.cfg')
    extra = harvest()
    cases = reader.CORPORA[prop](c.rng, c.tier, extra)
    if prop not in ('C01', 'C02'):
        reader.other_headers(c.rng, cases)
    return c.trace('reads', 'TraceReader', cases, reader.record, wrong_read(prop))


def C01(c):
    reading(c, 'C01')
    pairs = reader.big_cases(c.rng, c.tier)
    small = [x for _, x in pairs]
    res, bad = c.trace('small versions', 'TraceReader', small, reader.record, None)
    big = []
    for k, (b, _) in enumerate(pairs):
        b['small'] = {'k': res[k]['k'], 'e': res[k].get('e', [])}
        if k not in bad:
            big.append(b)

    def wrong(r, rng):
        k = rng.choice(['mem', 'cnt', 'k'])
        r[k] = {'mem': 1 << 30, 'cnt': r['cnt'] + 1, 'k': 'crash'}[k]
        return r if k != 'cnt' or r['k'] == 'ok' else None
    c.trace('large inputs', 'TraceCost', big, reader.cost_record, wrong, results=c.timed(big, 60000))


def large_reads(c, prop):
    pairs = reader.big_cases(c.rng, c.tier)
    res = c.execute([x for _, x in pairs])
    for k, (b, _) in enumerate(pairs):
        b['small'] = {'k': res[k]['k'], 'e': res[k].get('e', [])}

    def wrong(r, rng):
        if r['k'] != 'ok':
            return None
        if prop == 'C05':
            ks = [k for k, x in enumerate(r['got']) if len(x) > 1]
            if not ks:
                return None
            k = rng.choice(ks)
            r['got'][k][-1] = ['77', '78', '79']
        elif r['got'] and rng.random() < 0.5:
            r['got'][rng.randrange(len(r['got']))] = [['OpBogus']]
        else:
            r['cnt'] += 1
        return r
    c.trace('large inputs', 'TraceCost', [b for b, _ in pairs], reader.cost_record, wrong, limit_ms=60000)


def C02(c):
    reading(c, 'C02')


def C03(c):
    reading(c, 'C03')


def C04(c):
    c.model('MCPrefix', 'MCPrefix.cfg' if c.quick else 'MCPrefix3.cfg')
    if not c.quick:
        c.proof('PrefixProof')
    reading(c, 'C04')
    large_reads(c, 'C04')


def C05(c):
    reading(c, 'C05')
    large_reads(c, 'C05')
    # recorded defect: the alignment that follows the flag of that name
    for key, w in (('load-aligned', [(6 << 16) | 61, 1, 2, 3, 2, 4]), ('store-aligned', [(5 << 16) | 62, 1, 2, 2, 4])):
        case = reader.case([asm.MAGIC, 0x10000, 0, 10, 0] + w)
        r = c.execute([case])[0]
        if r['k'] != 'ok' and not (r['k'] == 'err' and r['e'] == ['InstructionHadExcessData'] and c.finding(key)):
            c.violation('recorded defects', 'TraceReader', case, r, '<<"ok">>')


def C06(c):
    reading(c, 'C06')

    def wrong(r, rng):
        if r['k'] == 'ok':
            r['got'] = [[['OpBogus']]]
        elif r['e'][0] in ('UnknownOp', 'UnimplementedOp'):
            r['e'] = r['e'][:1] + ['OpBogus', '0']
        else:
            r['e'] = ['UnknownOp', str(r['op']), str(r['wc'])]
        return r
    c.trace('any word count', 'TraceWide', reader.wide_cases(c.rng, c.tier), reader.wide_record, wrong)


def C07(c):
    reading(c, 'C07')


def C08(c):
    reading(c, 'C08')


def C09(c):
    reading(c, 'C09')


# ---- validation ----
def wrong_val(prop):
    def f(r, rng):
        o = r['o']
        if prop == 'C13':
            r['o'] = {'k': 'crash', 'secs': [], 'decls': [], 'defs': [], 'e': []}
            return r
        if o['k'] == 'err':
            if prop == 'C10' or prop == 'C12' and 'Function' in str(o['e'][0]) and any(i[0] == ['OpFunction'] for i in r['i'][:int(o['e'][1])]):
                if len(o['e']) > 1:
                    o['e'] = [o['e'][0], str(int(o['e'][1]) + 1)]
                    return r
            return None
        secs = [s for s in o['secs'] if s]
        if prop == 'C10':
            s = o['secs']
            a = [k for k in range(9) if s[k]]
            k = rng.choice(a)
            s[(k + 1) % 9] = s[k][-1:] + s[(k + 1) % 9]
            s[k] = s[k][:-1]
            return r
        if prop == 'C11':
            rng.choice(secs).pop()
            return r
        if prop == 'C12':
            if not o['defs']:
                return None
            o['defs'][0][2] = o['defs'][0][2][1:]
            return r
    return f


def wrong_late(prop):
    def f(r, rng):
        if r['k'] == 'ok' and prop == 'C10':
            r['k'], r['e'] = 'err', ['BranchExpected']
        elif r['k'] == 'ok' and prop == 'C11':
            r['flat'] = 0
        elif r['k'] == 'ok' and prop == 'C12':
            k = rng.randrange(9, 15)
            r['sz'][k] = str(int(r['sz'][k]) + 1)
        elif r['k'] == 'err' and len(r['e']) > 1 and prop == 'C10':
            r['e'][1] = str(int(r['e'][1]) + rng.choice([1, -1, 65536]))
        else:
            return None
        return r
    return f


def large(c, prop):
    cases = layout.late_cases(c.rng, c.tier, harvest())
    c.trace('large modules', 'TraceSize', cases, layout.size_record, wrong_late(prop), limit_ms=60000)


def C10(c):
    c.model('MCLayout')
    extra = harvest()
    c.trace('sequences', 'TraceLayout', layout.sequence_cases(c.rng, c.tier, extra), layout.record, wrong_val('C10'))
    c.trace('modules', 'TraceLayout', layout.module_cases(c.rng, c.tier, extra, None if c.tier != 'quick' else 1500), layout.record, wrong_val('C10'))
    large(c, 'C10')


def C11(c):
    c.trace('modules', 'TraceLayout', layout.module_cases(c.rng, c.tier, harvest()), layout.record, wrong_val('C11'))
    large(c, 'C11')


def C12(c):
    extra = harvest()
    c.trace('sequences', 'TraceLayout', layout.sequence_cases(c.rng, c.tier, extra), layout.record, wrong_val('C12'))
    c.trace('modules', 'TraceLayout', layout.module_cases(c.rng, c.tier, extra, None if c.tier != 'quick' else 1500), layout.record, wrong_val('C12'))
    large(c, 'C12')


# ---- control flow ----
def tweak_chain(c, rng, what):
    """Changes one token of a recorded chain."""
    order = list(range(len(c)))
    rng.shuffle(order)
    for k in order:
        n = c[k]
        if what == 'id' and n['t'] in ('atom', 'sel', 'loop'):
            n['id'] = '424242'
            return True
        if what == 'arms' and n['t'] == 'sel':
            d, j, mid = 1, k, 0
            while d:
                j += 1
                d += (c[j]['t'] in ('sel', 'loop', 'block')) - (c[j]['t'] == 'end')
                if d == 1 and c[j]['t'] == 'else':
                    mid = j
            x, y = c[k + 1:mid], c[mid + 1:j]
            if x != y:
                c[k + 1:j] = y + [c[mid]] + x
                return True
        if what == 'hint' and n['t'] in ('sel', 'loop'):
            n['h'] = ['Bogus']
            return True
        if what == 'weight' and n['t'] == 'sel':
            n['w'] = n['w'][::-1] if len(set(n['w'])) == 2 else ['5', '6']
            return True
        if what == 'break' and n['t'] in ('break', 'continue'):
            n['t'] = 'continue' if n['t'] == 'break' else 'break'
            return True
        if what == 'drop' and len(c) > 1 and n['t'] in ('atom', 'break', 'continue'):
            del c[k]
            return True
    return False


def wrong_cfa(prop):
    def f(r, rng):
        o = r['o']
        if prop == 'C16':
            r['o'] = dict(o, k=rng.choice(['panic', 'crash', 'hang']))
            return r
        if prop == 'C17':
            if o['k'] != 'err':
                return None
            o['e'] = rng.choice([['CouldNotPredictConverge', '424242'], ['NoBlocks'], ['Failed'], ['UnknownBlockId', '424242']])
            return r if o['e'][0] != 'NoBlocks' or r['blocks'] else None
        if o['k'] != 'ok':
            return None
        kinds = ['id', 'drop', 'hint', 'weight', 'arms', 'break']
        return r if tweak_chain(o['c'], rng, rng.choice(kinds)) else None
    return f


RECORD.update({'TraceCfa': flow.record, 'TraceExec': flow.record, 'TraceStruct': flow.srecord})


def C14(c):
    c.model('MCCfa', 'MCCfa.cfg' if c.quick else 'MCCfa3.cfg')
    c.model('MCStruct', 'MCStruct.cfg' if c.quick else 'MCStruct5.cfg')
    extra = harvest()
    progs = flow.program_cases(c.rng, c.tier, extra, c.tmp, 1500 if c.quick else None)
    funs = flow.function_cases(c.rng, c.tier, extra)
    # an arm swap may leave an equivalent chain, so only changes that matter are used to test the check itself
    c.trace('functions', 'TraceExec', funs, flow.record, None)
    c.trace('programs', 'TraceExec', progs, flow.record, wrong_exec)


def wrong_exec(r, rng):
    if r['o']['k'] != 'ok':
        return None
    return r if tweak_chain(r['o']['c'], rng, rng.choice(['id', 'hint', 'weight'])) else None


def C15(c):
    c.model('MCStruct', 'MCStruct.cfg' if c.quick else 'MCStruct5.cfg')
    extra = harvest()
    progs = flow.program_cases(c.rng, c.tier, extra, c.tmp)
    c.trace('programs', 'TraceStruct', progs, flow.srecord, wrong_cfa('C15'))
    c.trace('functions', 'TraceCfa', flow.function_cases(c.rng, c.tier, extra, small=False, n=2500 if c.quick else None), flow.record, wrong_cfa('C15'))


def C16(c):
    c.model('MCCfa', 'MCCfa.cfg' if c.quick else 'MCCfa3.cfg')
    c.trace('functions', 'TraceCfa', flow.function_cases(c.rng, c.tier, harvest()), flow.record, wrong_cfa('C16'), limit_ms=10000)
    c.trace('long functions', 'TraceCfa', flow.long_functions(c.rng, c.tier) + flow.rows(c.rng, c.tier) + [flow.fcase(flow.diamond(n)) for n in (1, 2, 4, 6)], flow.record, wrong_cfa('C16'), limit_ms=20000)
    # recorded defects: what is listed is reported as such, anything else is a violation
    for key, case, want in (('chain-50000', {'op': 'cfa', 'blocks': [], 'chain': 50000, 'brief': 1, 'to': 60000}, ('crash',)),
                            ('diamond-48', dict(flow.fcase(flow.diamond(48)), brief=1, to=4000), ('hang', 'crash'))):
        r = c.execute([case])[0]
        if r['k'] not in ('ok', 'err') and not (r['k'] in want and c.finding(key)):
            c.violation('recorded defects', 'TraceCfa', case, r, '<<"a chain or an error">>')


def C17(c):
    c.model('MCCfa', 'MCCfa.cfg' if c.quick else 'MCCfa3.cfg')
    c.trace('functions', 'TraceCfa', flow.function_cases(c.rng, c.tier, harvest()), flow.record, wrong_cfa('C17'))


def wrong_size(r, rng):
    if r['k'] == 'ok':
        k = rng.randrange(15)
        r['sz'][k] = str(int(r['sz'][k]) + 1)
    elif r['k'] == 'err' and len(r['e']) > 1:
        r['e'][1] = str(int(r['e'][1]) + 1)
    else:
        r['k'] = 'crash'
    return r


def C13(c):
    c.model('MCLayout', 'MCLayout.cfg' if c.quick else 'MCLayout4.cfg')
    extra = harvest()
    large = layout.size_cases(c.rng, c.tier, extra)
    c.trace('large modules', 'TraceSize', large, layout.size_record, wrong_size, results=c.timed(large, 60000))
    c.trace('sequences', 'TraceLayout', layout.sequence_cases(c.rng, 'quick', extra), layout.record, wrong_val('C13'))


RECORD['TraceSize'] = layout.size_record


# ---- texts ----
def C18(c):
    c.trace('modules', 'TraceDis', show.dis_cases(c.rng, c.tier, harvest()), show.dis_record, show.wrong_dis)


RECORD['TraceDis'] = show.dis_record


def C19(c):
    cases = show.print_cases(c.rng, c.tier, harvest(), c.tmp)
    res = c.execute(cases)
    # a call that dies when printing, but not without it, died of printing
    died = [k for k, r in enumerate(res) if r['k'] in ('crash', 'hang', 'panic')]
    plain = c.execute([dict(cases[k], txt=0) for k in died])
    keep = [k for k, r in enumerate(res) if r['k'] == 'ok'] + [k for k, r in zip(died, plain) if r['k'] == 'ok']
    c.trace('chains', 'TracePrint', [cases[k] for k in keep], show.print_record, show.wrong_print, results=[res[k] for k in keep])


RECORD['TracePrint'] = show.print_record


def C20(c):
    extra = harvest()
    c.trace('pairs', 'TraceEq', show.eq_cases(c.rng, c.tier, extra), show.eq_record, show.wrong_eq)
    c.trace('chains', 'TraceChains', show.chain_cases(c.rng, c.tier, extra), show.chain_record, show.wrong_chain)
    c.trace('histories of values', 'TraceValues', show.vals_cases(c.rng, c.tier, extra), show.vals_record, show.wrong_vals)


RECORD.update({'TraceEq': show.eq_record, 'TraceValues': show.vals_record, 'TraceChains': show.chain_record})


# ---- sessions ----
def C21(c):
    c.model('MCSession')
    session.run_sessions(c, harvest())


# ---- the whole way ----
def C22(c):
    c.trace('whole modules', 'TracePipe', pipe.cases(c.rng, c.tier, harvest()), pipe.record, pipe.wrong)


RECORD['TracePipe'] = pipe.record


# ---- values outside modules ----
def C23(c):
    c.trace('instructions', 'TraceLoose', show.loose_cases(c.rng, c.tier, harvest()), show.loose_record, show.wrong_loose)


def C24(c):
    c.trace('errors', 'TraceErr', show.err_cases(c.rng, c.tier, harvest()), show.err_record, show.wrong_err)


RECORD.update({'TraceLoose': show.loose_record, 'TraceErr': show.err_record})


# ---- operands of extended instructions ----
def C25(c):
    c.model('MCOperands')
    c.trace('offers', 'TraceOffer', offer.cases(c.rng, c.tier, harvest()), offer.record, offer.wrong)


RECORD['TraceOffer'] = offer.record


def C26(c):
    c.trace('parts', 'TraceParts', parts.cases(c.rng, c.tier, harvest()), parts.record, parts.wrong)


RECORD['TraceParts'] = parts.record
