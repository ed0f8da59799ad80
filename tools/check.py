#!/usr/bin/env python3
"""Decides one property:  check.py C07 [quick|thorough]

1. builds the harness against /repo's working tree,
2. model-checks the specification modules the property rests on (TLC),
3. generates cases (layouts and shapes come from the specification), executes them against the library,
4. lets TLC decide whether every recorded execution is a behaviour of the specification (spec/Trace.tla),
5. writes evidence/<id>.json and, for a rejected execution, a replay file.

exit 0: held on everything explored; 1: VIOLATION line; 2: the machinery itself failed."""
import sys, os, json, time, subprocess, re, hashlib, signal, itertools, random, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from gen import Gen
from words import mine
from plans import plan, MODELS, ASSUME, LEVEL

SPEC = os.path.join(ROOT, 'spec')
CPUS = max(1, os.cpu_count() or 1)
JAR = '/opt/veriftools/tla/tla2tools.jar'
CP = JAR + ''.join(':' + os.path.join('/opt/veriftools/tla', f) for f in sorted(os.listdir('/opt/veriftools/tla'))
                   if f.endswith('.jar') and f != 'tla2tools.jar')


class Trouble(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# --- builds --------------------------------------------------------------------------------------
BUILDS = {'debug': [], 'release': ['--release'], 'debug-nostd': ['--no-default-features'],
          'release-nostd': ['--release', '--no-default-features']}


def build(name):
    tgt = os.path.join(ROOT, 'target', name)
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    r = sh(['cargo', 'build', '--offline', '-q'] + BUILDS[name], cwd=os.path.join(ROOT, 'harness'), env=env)
    if r.returncode:
        raise Trouble('build %s failed:\n%s' % (name, r.stdout[-3000:]))
    return os.path.join(tgt, 'release' if 'release' in name else 'debug', 'harness')


# --- TLC -----------------------------------------------------------------------------------------
def attended(p, timeout, idle=25):
    """Exit code of p.  TLC can wait for itself forever when its last state coincides with a liveness check in between
    (StateQueue.suspendAll); a process that uses no time at all is ended and reported as stuck."""
    t0 = last = time.time()
    used = -1.0
    while True:
        try:
            return p.wait(1)
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        try:
            f = open('/proc/%d/stat' % p.pid).read().rsplit(')', 1)[1].split()
            cpu = (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
        except (OSError, IndexError, ValueError):
            continue
        if cpu > used + 0.3:
            used, last = cpu, now
        if now - t0 > timeout or now - last > idle:
            p.kill()
            p.wait()
            return 'timeout' if now - t0 > timeout else 'stuck'


def tlc(module, work, tag, env=None, workers=1, heap='2g', cfg=None, timeout=850):
    meta = os.path.join(work, 'meta_' + tag)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + work, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4',
           '-cp', CP, 'tlc2.TLC', '-config', os.path.join(SPEC, cfg or module + '.cfg'), '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', os.path.join(SPEC, module + '.tla')]
    out = os.path.join(work, 'tlc_' + tag + '.out')
    rc = 'stuck'
    for _ in range(4):
        with open(out, 'w') as f:
            rc = attended(subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), cwd=work), timeout)
        if rc != 'stuck':
            break
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta, exist_ok=True)
    text = open(out, errors='replace').read()
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', text)
    gen, dist = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
    return rc, text, gen, dist


def shapes(module, work, maxlen):
    rc, text, _, _ = tlc(module, work, module, {'MAXLEN': str(maxlen)}, workers=1)
    if rc != 0:
        raise Trouble('%s: %s' % (module, text[-2000:]))
    out = []
    for line in text.splitlines():
        if line.startswith('"SHAPE '):
            out.append(json.loads(json.loads(line)[6:]))
    return sorted(out, key=lambda s: json.dumps(s, sort_keys=True))


# --- running cases -------------------------------------------------------------------------------
def execute(binary, cases, opts, path):
    """observations, one per case; a case the process does not survive becomes a CRASH observation"""
    done, crashes = [], 0
    while len(done) < len(cases) and crashes < 4:
        p = subprocess.run([binary] + opts, input=('\n'.join(cases[len(done):]) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        lines = p.stdout.decode('utf-8', 'replace').split('\n')
        lines.pop()
        done += lines
        if len(done) < len(cases):
            if p.returncode >= 0:
                raise Trouble('harness exit %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:]))
            sig = signal.Signals(-p.returncode).name
            done.append(json.dumps({'op': 'CRASH', 'case': cases[len(done)][:400], 'signal': sig, 'again': []}))
            crashes += 1
    with open(path, 'w') as f:
        f.write('\n'.join(done) + '\n')
    return done


def blend(main, other):
    """puts differing observations of another run into "again" """
    out = []
    for a, b in zip(main, other):
        if a != b and a.endswith('"again":[]}'):
            a = a[:-len('[]}')] + '[' + b + ']}'
        elif a != b and '"again":[' in a:
            a = a[:-2] + ',' + b + ']}'
        out.append(a)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(prop, sys.argv[3])
    t0 = time.time()
    work = os.path.join(ROOT, 'work', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work)
    try:
        code = decide(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


def known():
    """recorded findings: {name: (property, text)}"""
    out = {}
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    for line in open(p):
        m = re.match(r'known: property=(\S+) id=(\S+) (.*)', line)
        if m:
            out[m.group(2)] = (m.group(1), m.group(3).strip())
    return out


def decide(prop, tier, seed, work, t0):
    log = lambda *a: print('[%6.1fs]' % (time.time() - t0), *a, flush=True)
    pl = plan(prop, tier)
    names = ['debug', 'release', 'debug-nostd', 'release-nostd'] if pl.get('builds') else ['debug']
    pool = ThreadPoolExecutor(CPUS)
    fb = [pool.submit(build, n) for n in names]
    fl = pool.submit(tlc, 'Export', work, 'Export', {'OUT': os.path.join(work, 'layout.json')})
    fw = pool.submit(shapes, 'GenWalk', work, pl['walk']) if pl.get('walk') else None
    fs = pool.submit(shapes, 'GenSearch', work, pl['search']) if pl.get('search') else None
    rc, text, _, _ = fl.result()
    if rc != 0:
        raise Trouble('Export: ' + text[-2000:])
    layout = json.load(open(os.path.join(work, 'layout.json')))
    g = Gen(layout, seed * 1000003 + int(prop[1:]), mine('/repo'))
    ctx = dict(walk=fw.result() if fw else [], search=fs.result() if fs else [], data=os.path.join(ROOT, 'data'))
    cases = list(pl['cases'](g, ctx))
    random.Random(seed).shuffle(cases)
    bins = [f.result() for f in fb]
    log('built; %d cases' % len(cases))
    # models run beside the traces
    mods = MODELS.get(prop, [])
    fm = [(m, pool.submit(tlc, m[0], work, 'm%d' % i, m[2 if tier == 'thorough' else 1], 1 if tier == 'quick' else 2))
          for i, m in enumerate(mods)]
    nsh = max(1, min(CPUS, (len(cases) + 99) // 100))
    per = pl.get('chunk', 12000)
    while len(cases) / nsh > per:
        nsh += CPUS
    shards = [cases[i::nsh] for i in range(nsh)]
    opts = ['--want', pl['want']] + (['--places'] if pl.get('places') else [])
    kn = known()
    env0 = {'PROP': prop, 'KNOWN': 'rom-unit' if 'rom-unit' in kn and kn['rom-unit'][0] == 'C01' else ''}

    def shard(i):
        path = os.path.join(work, 'trace%d' % i)
        c = shards[i]
        ev = execute(bins[0], c, opts, path)
        others = []
        if pl.get('places'):
            others.append(execute(bins[0], c[::-1], opts, path + 'r')[::-1])
        for b in bins[1:]:
            others.append(execute(b, c, opts, path + 'b'))
        if others:
            for o in others:
                if len(o) == len(ev):
                    ev = blend(ev, o)
            open(path, 'w').write('\n'.join(ev) + '\n')
        for x in ('r', 'b'):
            if os.path.exists(path + x):
                os.remove(path + x)
        rc, text, gen, dist = tlc('Trace', work, 't%d' % i, dict(env0, TRACE=path))
        os.remove(path)
        bad = []
        for line in text.splitlines():
            m = re.match(r'"MISMATCH <<(\d+), (\d+), (.*)>>"$', line)
            if m:
                bad.append((int(m.group(1)), int(m.group(2)), m.group(3)))
        ok = rc == 0 and 'No error has been found' in text
        if not ok and not bad:
            # an observation the specification cannot even read is not a behaviour of it either
            m = re.findall(r'^/\\ case = (\d+)', text, re.M)
            why = re.search(r'(Attempted to [^\n]*|Deadlock reached[^\n]*|In evaluation, [^\n]*|[^\n]*CASE[^\n]*all the conditions[^\n]*)', text)
            if m and why:
                bad.append((int(m[-1]), 0, why.group(1)))
        if not ok and not bad:
            return dict(i=i, trouble='Trace shard %d rc=%s\n%s' % (i, rc, text[-3000:]), ev=ev)
        short = len(c) - len(ev)
        return dict(i=i, bad=[(c[a - 1], k, d, ev[a - 1]) for a, k, d in bad], gen=gen, dist=dist, n=len(ev), short=short,
                    rom=[x for x, e in zip(c, ev) if x.startswith('Q 255 ') and 'u64::from(RomSize)' in e])

    res = list(pool.map(shard, range(nsh)))
    troubles = [r['trouble'] for r in res if 'trouble' in r]
    states = sum(r.get('dist', 0) for r in res)
    trans = sum(r.get('gen', 0) for r in res)
    bad = [b for r in res for b in r.get('bad', [])]
    done = sum(r.get('n', 0) for r in res)
    models = []
    for m, f in fm:
        rc, text, gen, dist = f.result()
        models.append(dict(module=m[0], bounds=m[2 if tier == 'thorough' else 1], states=dist, transitions=gen))
        if rc != 0 or 'No error has been found' not in text:
            troubles.append('model %s: rc=%s\n%s' % (m[0], rc, text[-2500:]))
        states += dist
        trans += gen
    log('traces: %d cases, %d rejected; states %d' % (done, len(bad), states))
    for line in [x for r in res for x in r.get('rom', [])][:1] if prop == 'C01' and env0['KNOWN'] else []:
        print('KNOWN-FINDING: property=C01 %s' % kn['rom-unit'][1])
    violations = []
    if bad:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        bad.sort(key=lambda b: len(b[0]))
        for case, k, detail, ev in bad[:3]:
            name = os.path.join(ROOT, 'replay', '%s-%s.json' % (prop, hashlib.sha1(case.encode()).hexdigest()[:10]))
            json.dump(dict(property=prop, case=case, event=k, specification=detail, options=opts, observation=ev[:200000]), open(name, 'w'), indent=1)
            violations.append(dict(case=case[:300], event=k, specification=detail[:1500], replay=name))
    ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL,
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=done, samples=[c[:400] for c in cases[:8]],
                            models=models, case_kinds=kinds(cases), exhaustive=False, bounds=pl.get('bounds', '')),
              assumptions=ASSUME + pl.get('assume', []), wall_s=round(time.time() - t0, 1),
              violations=len(bad), violation_details=violations)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if bad:
        for v in violations:
            print('case: %s\n  event %d, specification: %s' % (v['case'], v['event'], v['specification']))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']))
        return 1
    if troubles:
        for t in troubles[:2]:
            print('\n'.join(x for x in t.splitlines() if not x.startswith(('Parsing file', 'Semantic processing')))[-2500:])
        return 2
    print('property %s holds on %d executions' % (prop, done))
    return 0


def kinds(cases):
    out = {}
    for c in cases:
        out[c.split(' ', 1)[0]] = out.get(c.split(' ', 1)[0], 0) + 1
    return out


def replay(prop, path):
    r = json.load(open(path))
    b = build('debug')
    work = os.path.join(ROOT, 'work', 'replay-%d' % os.getpid())
    os.makedirs(work)
    try:
        tr = os.path.join(work, 'trace')
        ev = execute(b, [r['case']], r['options'], tr)
        print('case:', r['case'])
        print('observation:', ev[0][:5000])
        rc, text, _, _ = tlc('Trace', work, 'replay', dict(PROP=prop, KNOWN='rom-unit' if 'rom-unit' in known() else '', TRACE=tr))
        for line in text.splitlines():
            if 'MISMATCH' in line:
                print('specification rejects:', line)
        return 0 if rc == 0 else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Trouble as e:
        print('TROUBLE', e)
        sys.exit(2)
