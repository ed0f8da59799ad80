#!/usr/bin/env python3
"""Development aid, not a check: systematic mutation of a scratch copy of /repo.
  mutate.py prepare            cases and baseline observations of all properties into /tmp/mut
  mutate.py run N [SEED] [FILE-REGEX]   N random mutants; report in /tmp/mut/report.jsonl
Mutants that fail the repository's tests are dropped; for the others it records which properties' specification
(spec/Trace.tla) rejects the changed observations."""
import sys, os, re, json, random, subprocess, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as ck
from gen import Gen
from plans import plan

MUT = '/tmp/mut'
PROPS = ['C%02d' % i for i in range(1, 29)]
OPTS = lambda pl: ['--want', pl['want']] + (['--places'] if pl.get('places') else [])


def prepare():
    shutil.rmtree(MUT, ignore_errors=True)
    os.makedirs(MUT + '/cases')
    work = MUT + '/work'
    os.makedirs(work)
    ck.tlc('Export', work, 'Export', {'OUT': work + '/layout.json'})
    layout = json.load(open(work + '/layout.json'))
    wk = {n: ck.shapes('GenWalk', work, n) for n in (2,)}
    se = {n: ck.shapes('GenSearch', work, n) for n in (2,)}
    b = ck.build('debug')
    shutil.copy(b, MUT + '/base')

    def one(p):
        pl = plan(p, 'quick')
        g = Gen(layout, 1000003 + int(p[1:]))
        ctx = dict(walk=wk.get(pl.get('walk'), []), search=se.get(pl.get('search'), []), data=ck.ROOT + '/data')
        cases = list(pl['cases'](g, ctx))
        open(MUT + '/cases/' + p, 'w').write('\n'.join(cases) + '\n')
        obs = ck.execute(MUT + '/base', cases, OPTS(pl), MUT + '/cases/' + p + '.obs')
        return p, len(cases), len(obs)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, PROPS):
            print(*r)


def body_lines(path):
    lines = open(path).read().split('\n')
    cut = len(lines)
    for i, l in enumerate(lines):
        if l.strip() == '#[cfg(test)]':
            cut = i
            break
    return lines, cut


SWAPS = [(r'(?<![-=<>])>=', '>'), (r'(?<![-=<>])<=', '<'), (r'(?<= )< (?=[\w(])', '<= '), (r'(?<= )> (?=[\w(])', '>= '), (r'==', '!='), (r'!=', '=='),
         (r'&&', '||'), (r'\|\|(?! )', '&&'), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'<<', '>>'), (r'>> ', '<< '), (r' & (?!str)', ' | '), (r' \| (?=0)', ' & '),
         (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.ok\(\)', '.ok().filter(|_| false)'), (r'\bSome\((\w+)\)$', 'None'),
         (r'saturating_sub', 'wrapping_sub'), (r'\bmin\(', 'max('), (r'u16', 'u8'), (r'u32', 'u16'), (r'u64', 'u32'), (r'from_le_bytes', 'from_be_bytes'),
         (r'\.\.=', '..'), (r'take_while', 'skip_while'), (r'is_empty\(\)', 'is_empty() == false'), (r'\bfirst\(\)', 'last()')]


def mutants(root, files):
    out = []
    for f in files:
        lines, cut = body_lines(os.path.join(root, f))
        for i in range(cut):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(('//', '#', 'use ', 'pub use', 'mod ', 'extern')):
                continue
            code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: ' ' * len(m.group()), l)
            # numbers
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d+)(?![\w.])', code):
                v = int(m.group().replace('_', ''), 0)
                for d in (1, -1):
                    if v + d >= 0:
                        t = hex(v + d) if m.group().startswith('0x') else bin(v + d) if m.group().startswith('0b') else str(v + d)
                        out.append((f, i, l[:m.start()] + t + l[m.end():], 'num'))
            for pat, rep in SWAPS:
                for m in re.finditer(pat, code):
                    if re.search(r'->|=>|impl|fn |<\'', code) and pat[0] in '(<>&' and not re.search(r'if ', code):
                        continue
                    out.append((f, i, l[:m.start()] + m.expand(rep) + l[m.end():], 'op ' + pat))
            # texts
            for m in re.finditer(r'"(?:[^"\\]|\\.)*"', l):
                t = m.group()
                if len(t) > 3 and not s.startswith('#'):
                    out.append((f, i, l[:m.start()] + t[:-2] + '"' + l[m.end():], 'text'))
            # arms and fields swapped with the next line
            if i + 1 < cut:
                for pat in (r'^(\s*)([^=]+?)( => )(.*,)$', r'^(\s*)(\w+)(: )(.*,)$'):
                    a, b = re.match(pat, l), re.match(pat, lines[i + 1])
                    if a and b and a.group(4) != b.group(4):
                        out.append((f, i, a.group(1) + a.group(2) + a.group(3) + b.group(4) + '\n' + b.group(1) + b.group(2) + b.group(3) + a.group(4), 'swap'))
            # statements left out
            if re.match(r'^\s*[\w.]+ (\+|-|\|)?= .*;$', l) or re.match(r'^\s*[\w.]+\(.*\)\??;$', l):
                out.append((f, i, '', 'drop'))
            if re.search(r'\bif (?!let)', code) and code.rstrip().endswith('{'):
                m = re.search(r'\bif (?!let)(.*) \{$', code.rstrip())
                if m:
                    for c in ('true', 'false'):
                        out.append((f, i, l[:m.start(1)] + c + ' && ' * 0 + l[m.end(1):], 'cond ' + c))
    return out


def sh(cmd, cwd, env, timeout=200):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


class Worker:
    def __init__(self, k):
        self.d = '%s/w%d' % (MUT, k)
        if not os.path.exists(self.d):
            os.makedirs(self.d)
            subprocess.run(['git', 'clone', '-q', '/repo', self.d + '/repo'], check=True)
            shutil.copy('/repo/Cargo.lock', self.d + '/repo/') if os.path.exists('/repo/Cargo.lock') else None
            shutil.copytree(ck.ROOT + '/harness', self.d + '/harness', ignore=shutil.ignore_patterns('target'))
            p = self.d + '/harness/Cargo.toml'
            s = open(p).read().replace('path = "/repo"', 'path = "%s/repo"' % self.d)
            open(p, 'w').write(s)
        # always the present harness
        shutil.rmtree(self.d + '/harness/src')
        shutil.copytree(ck.ROOT + '/harness/src', self.d + '/harness/src')

    def run(self, mu):
        f, i, new, kind = mu
        path = os.path.join(self.d, 'repo', f)
        orig = open(path).read()
        lines = orig.split('\n')
        old = lines[i]
        if '\n' in new:
            lines[i:i + 2] = new.split('\n')
        else:
            lines[i] = new
        rec = dict(f=f, line=i + 1, old=old.strip(), new=new.strip(), kind=kind)
        try:
            open(path, 'w').write('\n'.join(lines))
            env = dict(os.environ, CARGO_TARGET_DIR=self.d + '/ht', CARGO_NET_OFFLINE='true')
            r = sh(['cargo', 'build', '--offline', '-q'], self.d + '/harness', env)
            if r is None or r.returncode:
                return None
            env = dict(os.environ, CARGO_TARGET_DIR=self.d + '/tt', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='1.90.0', CARGO_INCREMENTAL='1')
            r = sh(['cargo', 'test', '--offline', '-q', '--all-features', '--lib'], self.d + '/repo', env)
            if r is None or r.returncode:
                return None
            return self.judge(rec)
        finally:
            open(path, 'w').write(orig)

    def judge(self, rec):
        rec['diff'], rec['kill'] = [], []
        for p in PROPS:
            pl = plan(p, 'quick')
            cases = open(MUT + '/cases/' + p).read().split('\n')[:-1]
            base = open(MUT + '/cases/' + p + '.obs').read().split('\n')[:-1]
            try:
                obs = ck.execute(self.d + '/ht/debug/harness', cases, OPTS(pl), self.d + '/obs')
            except ck.Trouble as e:
                rec['kill'].append(p + '?')
                continue
            bad = [j for j in range(len(obs)) if obs[j] != base[j]]
            if not bad:
                continue
            rec['diff'].append((p, len(bad)))
            pick = bad[:40] + random.Random(1).sample(bad, min(len(bad), 160))
            open(self.d + '/tr', 'w').write('\n'.join(obs[j] for j in pick) + '\n')
            rc, text, _, _ = ck.tlc('Trace', self.d, 'tr', dict(PROP=p, KNOWN='rom-unit', TRACE=self.d + '/tr'), heap='1g')
            if not (rc == 0 and 'No error has been found' in text):
                rec['kill'].append(p)
        return rec


def run(n, seed, rx):
    root = '/repo'
    files = [x for x in subprocess.run(['git', '-C', root, 'ls-files', 'src'], capture_output=True, text=True).stdout.split() if x.endswith('.rs') and re.search(rx, x)]
    ms = mutants(root, files)
    done = set()
    rep = MUT + '/report.jsonl'
    if os.path.exists(MUT + '/seen'):
        done = set(open(MUT + '/seen').read().split())
    key = lambda m: hashlib.sha1(repr(m).encode()).hexdigest()[:16]
    ms = [m for m in ms if key(m) not in done]
    # an even choice over kinds of mutation, table rows are many
    r = random.Random(seed)
    r.shuffle(ms)
    heavy = [m for m in ms if m[3] in ('num', 'text', 'swap')]
    light = [m for m in ms if m[3] not in ('num', 'text', 'swap')]
    ms = (light[:n * 2 // 3] + heavy)[:n]
    r.shuffle(ms)
    print(len(ms), 'mutants')
    import queue, threading
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    cnt = dict(dead=0, alive=0, missed=0)

    def loop(k):
        w = Worker(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            try:
                rec = w.run(m)
            except Exception as e:
                print('worker', k, e)
                continue
            with lock:
                open(MUT + '/seen', 'a').write(key(m) + '\n')
                if rec is None:
                    cnt['dead'] += 1
                else:
                    cnt['alive'] += 1
                    if not rec['kill']:
                        cnt['missed'] += 1
                        print('MISSED', rec['f'], rec['line'], '|', rec['old'][:90], '->', rec['new'][:90], '| diff', rec['diff'], flush=True)
                    open(rep, 'a').write(json.dumps(rec) + '\n')
    ts = [threading.Thread(target=loop, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(cnt)


if __name__ == '__main__':
    if sys.argv[1] == 'prepare':
        prepare()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1, sys.argv[4] if len(sys.argv) > 4 else '.')
