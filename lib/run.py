"""Running the harness and TLC."""
import json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
TARGET = os.path.join(HARNESS, 'target')
BIN = os.path.join(TARGET, 'debug', 'mfharness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8


class ToolError(Exception):
    pass


def build():
    """Builds the harness, and with it the library, from /repo's working tree."""
    fp = os.path.join(TARGET, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('magmaflow-') or d.startswith('mfharness-'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, RUSTFLAGS='-Awarnings')
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('the harness does not build:\n' + r.stdout[-4000:])


def scratch():
    return tempfile.mkdtemp(prefix='mfv.')


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _run_chunk(tmp, k, cases, limit_ms, budget=400):
    inp, out = os.path.join(tmp, 'in.%s' % k), os.path.join(tmp, 'out.%s' % k)
    with open(inp, 'w') as f:
        for c in cases:
            f.write(json.dumps(c, separators=(',', ':')) + '\n')
    open(out, 'w').close()
    start = 0
    died = hung = 0
    t0 = time.time()
    while start < len(cases):
        late = False
        try:
            r = subprocess.run([BIN, inp, out, str(start), str(limit_ms)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=_limits,
                               timeout=max(1, budget - (time.time() - t0)))
            if r.returncode == 0:
                break
        except subprocess.TimeoutExpired:
            late = True
        done = -1
        with open(out, 'rb') as f:
            data = f.read()
        good = data[:data.rfind(b'\n') + 1]
        if good:
            last = good.rstrip(b'\n').rsplit(b'\n', 1)[-1]
            done = int(last[5:last.index(b',')])
        done = max(done, start - 1)
        at = done + 1
        if late:
            # what there is time for has been run
            with open(out, 'wb') as f:
                f.write(good)
                for k2 in range(at, len(cases)):
                    f.write(b'{"n":%d,"k":"skip"}\n' % k2)
            break
        if r.returncode == 3 or at >= len(cases):
            raise ToolError('harness failed: ' + r.stderr.decode('utf8', 'replace')[-2000:])
        kind = 'hang' if r.returncode == 97 else 'crash'
        msg = r.stderr.decode('utf8', 'replace').strip()[-200:]
        with open(out, 'wb') as f:
            f.write(good)
            f.write(('{"n":%d,"k":"%s","m":%s}\n' % (at, kind, json.dumps('%s (status %d)' % (msg, r.returncode)))).encode())
        start = at + 1
        died += 1
        hung += kind == 'hang'
        if hung >= 2 or died >= 25:
            # the point is made; the rest is not run
            with open(out, 'ab') as f:
                for k2 in range(start, len(cases)):
                    f.write(b'{"n":%d,"k":"skip"}\n' % k2)
            break
    res = []
    with open(out) as f:
        for line in f:
            res.append(json.loads(line))
    if len(res) != len(cases) or any(r['n'] != i for i, r in enumerate(res)):
        raise ToolError('harness gave %d results for %d cases' % (len(res), len(cases)))
    for r in res:
        if r['k'] == 'panic' and 'HARNESS' in r.get('m', ''):
            raise ToolError('harness: ' + r['m'])
    os.remove(inp)
    os.remove(out)
    return res


def execute(tmp, cases, limit_ms=30000, procs=CORES, budget=400):
    """Runs the real code on the cases; one result per case, in order."""
    if not cases:
        return []
    n = min(procs, len(cases))
    size = (len(cases) + n - 1) // n
    parts = [cases[i:i + size] for i in range(0, len(cases), size)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda a: _run_chunk(tmp, a[0], a[1], limit_ms, budget), enumerate(parts)))
    return [r for p in rs for r in p]


def execute_fresh(tmp, cases, limit_ms=30000):
    """Each case in a process of its own."""
    with ThreadPoolExecutor(CORES) as ex:
        rs = list(ex.map(lambda a: _run_chunk(tmp, 'f%d' % a[0], [a[1]], limit_ms)[0], enumerate(cases)))
    return rs


def tlc(tmp, module, env=None, heap='2g', workers=1, args=(), cfg=None, timeout=3000):
    meta = tempfile.mkdtemp(prefix='tlc.', dir=tmp)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss768m', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-metadir', meta,
           '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg or (module + '.cfg')] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = r.stdout
        rc = r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode('utf8', 'replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return {'rc': rc, 'out': out, 'generated': gen, 'distinct': dist, 'ok': 'No error has been found' in out}


def printed(out, tag):
    """The tuples TLC printed whose first element is the tag (they may span lines)."""
    res = []
    for m in re.finditer(r'^<<\s*"%s"' % tag, out, re.M):
        i, depth, instr = m.start(), 0, False
        j = i
        while j < len(out):
            c = out[j]
            if instr:
                if c == '\\':
                    j += 1
                elif c == '"':
                    instr = False
            elif c == '"':
                instr = True
            elif out.startswith('<<', j):
                depth += 1
                j += 1
            elif out.startswith('>>', j):
                depth -= 1
                j += 1
                if depth == 0:
                    break
            j += 1
        res.append(re.sub(r'\s*\n\s*', ' ', out[i:j + 1]))
    return res


def validate(tmp, module, records, chunks=CORES, heap='3g'):
    """Trace validation: records (with key n) are matched with the specification.  Returns mismatches {n: (ids, text)}, totals."""
    if not records:
        return {}, {'states': 0, 'transitions': 0, 'traces': 0}
    n = max(1, min(chunks, len(records)))
    # interleave, so that heavy cases spread over the processes
    parts = [records[i::n] for i in range(n)]

    def one(a):
        k, part = a
        path = os.path.join(tmp, '%s.%d.ndjson' % (module, k))
        with open(path, 'w') as f:
            for r in part:
                f.write(json.dumps(r, separators=(',', ':')) + '\n')
        r = tlc(tmp, module, {'TRACE': path}, heap=heap)
        done = printed(r['out'], 'DONE')
        if not r['ok'] or done != ['<<"DONE", %d>>' % len(part)]:
            why = [l[:400] for l in r['out'].splitlines() if re.search('rror|xception|verflow|ttempted|heap', l)][:8]
            raise ToolError('TLC did not validate the whole trace of %s:\n%s\n%s' % (module, '\n'.join(why), r['out'][-1500:]))
        os.remove(path)
        return r
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(one, enumerate(parts)))
    bad = {}
    for r in rs:
        for t in printed(r['out'], 'MISMATCH'):
            m = re.match(r'<<\s*"MISMATCH",\s*(\d+),\s*<<([^>]*)>>', t)
            bad[int(m.group(1))] = (re.findall(r'"(\w+)"', m.group(2)), t)
    return bad, {'states': sum(r['distinct'] for r in rs), 'transitions': sum(r['generated'] for r in rs), 'traces': len(records)}


def model(tmp, module, cfg=None, heap='6g', workers=CORES, args=(), expect_states=None, timeout=3000):
    """Exhaustive model checking of a bounded model of the specification itself."""
    r = tlc(tmp, module, heap=heap, workers=workers, cfg=cfg, args=args, timeout=timeout)
    if not r['ok']:
        raise ToolError('the model %s does not check:\n%s' % (cfg or module, r['out'][-4000:]))
    if expect_states is not None and r['distinct'] != expect_states:
        raise ToolError('model %s: %d states, expected %d' % (cfg or module, r['distinct'], expect_states))
    return r


def proof(tmp, module, timeout=1200):
    """A proof checked with TLAPS; the number of obligations."""
    d = os.path.join(tmp, 'proof')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(ROOT, 'spec', module + '.tla'), d)
    try:
        p = subprocess.run(['tlapm', '--cleanfp', '--stretch', '4', module + '.tla'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise ToolError('tlapm: %s' % e)
    m = re.search(r'All (\d+) obligations? proved', p.stdout)
    if p.returncode or not m:
        raise ToolError('the proof %s does not check:\n%s' % (module, p.stdout[-3000:]))
    return int(m.group(1))
