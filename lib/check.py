"""One check: explores a property, reports, writes the evidence."""
import copy, json, os, random, re, shutil, sys, time
from . import run
from .run import ROOT, ToolError

ASSUME = ['the harness projects the library\'s values to the specification\'s without loss',
          'TLC evaluates the specification correctly',
          'inputs outside the bounds given in DESIGN.md behave like those inside']


def known_findings():
    """(property, key) of the findings that are listed and not repaired."""
    res = []
    with open(os.path.join(ROOT, 'known_findings.txt')) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                res.append(m.groups())
    return res


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.tmp = run.scratch()
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.violations = [], {}, []
        self.selftest = 0
        self.noticed = []

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- model checking of the specification itself ----
    def model(self, module, cfg=None, **kw):
        r = run.model(self.tmp, module, cfg, **kw)
        self.states += r['distinct']
        self.transitions += r['generated']
        self.parts['model ' + (cfg or module)] = {'states': r['distinct'], 'transitions': r['generated']}
        self.log('model', cfg or module, r['distinct'], 'states')
        return r

    def proof(self, module):
        n = run.proof(self.tmp, module)
        self.parts['proof ' + module] = {'obligations_proved': n}
        self.log('proof', module, n, 'obligations')

    # ---- conformance: the real code's traces against the specification ----
    def execute(self, cases, limit_ms=30000, procs=run.CORES):
        return run.execute(self.tmp, cases, limit_ms, procs, self.budget(300))

    def budget(self, s):
        """Seconds for running the code; what there is no time for is not run.  Ordinary code needs a few seconds."""
        return min(s, max(60, 480 - (time.time() - self.t0))) if self.quick else 4000

    def timed(self, cases, limit_ms):
        """Results with their cost; what looks slow is run again on its own, the least time counts."""
        res = run.execute(self.tmp, cases, limit_ms, run.CORES, self.budget(150))
        t0 = time.time()
        for k, r in enumerate(res):
            for _ in range(2):
                if r.get('ms', 0) >= 1000 and r['k'] in ('ok', 'err') and time.time() - t0 < 60:
                    again = self.execute([cases[k]], limit_ms)[0]
                    if again['k'] == r['k'] and again.get('ms', 0) < r['ms']:
                        r['ms'] = again['ms']
        return res

    def trace(self, name, module, cases, record, corrupt=None, limit_ms=30000, results=None, known=None, heap='3g'):
        """Runs the cases, validates the records; mismatches that blame this property are violations.  corrupt(record) gives a
        wrong copy of a record (or None): the specification has to refuse it, for this property."""
        res = results if results is not None else self.execute(cases, limit_ms)
        self.log(name, len(cases), 'cases executed', outcomes(res))
        if any(r['k'] == 'skip' for r in res):
            cases, res = zip(*[(c, r) for c, r in zip(cases, res) if r['k'] != 'skip'])
        recs = [record(n, c, r) for n, (c, r) in enumerate(zip(cases, res))]
        bad_n = []
        if corrupt:
            order = list(range(len(recs)))
            random.Random(self.seed).shuffle(order)
            for n in order:
                if len(bad_n) >= 40:
                    break
                try:
                    w = corrupt(copy.deepcopy(recs[n]), self.rng)
                except (IndexError, KeyError, ValueError, TypeError):
                    continue    # not the kind of record this makes a wrong copy of
                if w is not None and w != recs[n]:
                    w['n'] = 1000000 + n
                    bad_n.append(w['n'])
                    recs.append(w)
        bad, tot = run.validate(self.tmp, module, recs, heap=heap)
        self.states += tot['states']
        self.transitions += tot['transitions']
        self.traces += len(cases)
        self.parts[name] = {'traces': len(cases), 'outcomes': outcomes(res), 'states': tot['states']}
        for k in (0, len(cases) // 2):
            if len(self.samples) < 6 and cases:
                self.samples.append({'part': name, 'case': short(cases[k]), 'result': short(res[k])})
        missed = []
        for n in bad_n:
            if n in bad and self.prop in bad[n][0]:
                self.selftest += 1
            elif n not in bad and n - 1000000 not in bad:
                missed.append(n)
        refused = sum(1 for n in bad_n if n in bad and self.prop in bad[n][0])
        mine = 0
        for n in sorted(bad):
            if n >= 1000000:
                continue
            ids, text = bad[n]
            if 'HARNESS' in ids:
                raise ToolError('%s: case %d is not what it should be: %s %s' % (name, n, short(cases[n]), text[:1500]))
            if self.prop in ids:
                mine += 1
                self.violation(name, module, cases[n], res[n], text)
            else:
                self.noticed.append((name, n, ids))
        self.log(name, 'validated,', tot['states'], 'states,', mine, 'violations;', refused, 'wrong records refused')
        if missed and not self.violations and not self.noticed:
            raise ToolError('%s: the specification accepts a wrong record: %s' % (name, json.dumps([r for r in recs if r['n'] == missed[0]][0])[:1500]))
        if corrupt and refused < 5 and not self.violations and not self.noticed:
            raise ToolError('%s: too few wrong records refused' % name)
        return res, bad

    def violation(self, name, module, case, result, text):
        self.violations.append({'part': name, 'module': module, 'case': case, 'result': result, 'expected': text})

    def finding(self, key):
        """True when the finding is listed, and says so."""
        for p, k, what in known_findings():
            if p == self.prop and k == key:
                print('KNOWN-FINDING: property=%s %s' % (p, what), flush=True)
                return True
        return False

    def finish(self, level='model_checking', extra=None):
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(os.path.join(d, 'replay'), exist_ok=True)
        for f in os.listdir(os.path.join(d, 'replay')):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(d, 'replay', f))
        for k, v in enumerate(self.violations[:5]):
            path = os.path.join('evidence', 'replay', '%s-%d.json' % (self.prop, k + 1))
            with open(os.path.join(ROOT, path), 'w') as f:
                json.dump(v, f, indent=1)
            print('  %s: %s' % (v['part'], short(v['case'], 300)))
            print('    gave %s' % short(v['result'], 300))
            print('    expected %s' % v['expected'][:400])
            print('VIOLATION property=%s replay=%s' % (self.prop, path), flush=True)
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'samples': self.samples,
               'parts': self.parts, 'wrong_records_refused': self.selftest}
        cov.update(extra or {})
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME,
                       'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}, f, indent=1)
        self.close()
        if self.noticed:
            print('note: %d differences that concern other properties (%s)' % (len(self.noticed), sorted({i for _, _, ids in self.noticed for i in ids})))
        print('%s: %d violations, %d traces, %d states, %.1f s' % (self.prop, len(self.violations), self.traces, self.states, time.time() - self.t0), flush=True)
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def outcomes(res):
    o = {}
    for r in res:
        o[r['k']] = o.get(r['k'], 0) + 1
    return o


def short(x, n=600):
    s = json.dumps(x, separators=(',', ':'))
    return s if len(s) <= n else s[:n] + '...'


def main(argv):
    from . import props
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 2:
        tier = argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    c = Check(prop, 'thorough' if tier == 'thorough' else 'quick', seed)
    try:
        run.build()
        c.log('built')
        getattr(props, prop)(c)
        return c.finish()
    except ToolError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        if c.violations:      # what was found before stands
            return c.finish()
        c.close()
        return 2
