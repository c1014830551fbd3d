#!/usr/bin/env python3
"""Runs the check of one property: builds the harness against /repo's working
tree, runs its generated-input tests in parallel shards, writes the evidence
file and reports.

  run.py C01                 the check (VERIF_SEED, VERIF_TIER)
  run.py C01 --replay FILE   run a recorded failing case again

Exit 0: held on everything explored.  Exit 1: a VIOLATION line was printed.
Anything else: the check itself could not do its work.
"""
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, 'harness')
REPLAYS = os.path.join(HERE, 'replays')
EVIDENCE = os.path.join(HERE, 'evidence')
FINDINGS = os.path.join(HERE, 'known_findings.txt')

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402


def env():
    e = dict(os.environ)
    e.setdefault('HOME', '/root')
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly', GOSUMDB='off',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOTRACEBACK='all')
    e.pop('GOMAXPROCS', None)
    return e


def die(msg):
    print(msg, flush=True)
    sys.exit(2)


def build(pkg, out, race=False):
    e = env()
    # a cache that cannot be written (another user's) is no reason to fail
    p = subprocess.run(['go', 'test', '-c', '-vet=off'] + ['-race'] * race + ['-o', out, './' + pkg], cwd=HARNESS, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die('build of the harness against /repo failed:\n' + p.stdout[-6000:])


def demote():
    try:
        os.setgroups([])
    except OSError:
        pass
    os.setgid(65534)
    os.setuid(65534)


def can_demote():
    try:
        return subprocess.run(['/bin/true'], preexec_fn=demote).returncode == 0
    except Exception:
        return False


FAST = None


def fast_scratch(scratch):
    """A directory for the files the tests write: in memory where possible."""
    global FAST
    try:
        v = os.statvfs('/dev/shm')
        if v.f_bavail * v.f_frsize > 4 << 30:
            FAST = tempfile.mkdtemp(prefix='verif-', dir='/dev/shm')
            os.chmod(FAST, 0o755)
            return
    except OSError:
        pass
    FAST = os.path.join(scratch, 'files')
    os.makedirs(FAST)


class Shard:
    def __init__(self, run, i, seed, scratch, binary, tier, seconds):
        self.run, self.i, self.seed = run, i, seed
        self.dir = os.path.join(scratch, 's%s%d' % (run['name'], i))
        os.makedirs(self.dir)
        self.tmp = os.path.join(FAST, 's%s%d' % (run['name'], i))
        os.makedirs(self.tmp)
        self.stats = os.path.join(self.dir, 'stats')
        self.log = os.path.join(self.dir, 'log')
        e = env()
        e.update(TMPDIR=self.tmp, VERIF_SCRATCH=self.tmp,
                 VERIF_STATS=self.stats, VERIF_CHECKS=str(run[tier]), VERIF_SECONDS=str(seconds),
                 VERIF_TIER=tier, VERIF_SHARD=str(i))
        if run.get('race'):
            e['GORACE'] = 'halt_on_error=0 suppress_equal_stacks=0'
        if 'zones' in run:
            e['TZ'] = run['zones'][i % len(run['zones'])]
        self.env = e
        self.tz = e.get('TZ', '')
        self.cmd = [binary, '-test.run', run['tests'], '-test.timeout', '0', '-rapid.seed', str(seed),
                    '-rapid.shrinktime', run.get('shrink', '15s'), '-rapid.nofailfile=false']
        self.demote = run.get('unprivileged', False)
        self.limit = seconds + 240

    def start(self):
        pre = None
        if self.demote:
            for r, ds, fs in os.walk(self.dir):
                os.chown(r, 65534, 65534)
            os.chown(self.tmp, 65534, 65534)
            pre = demote
        self.t0 = time.time()
        with open(self.log, 'wb') as f:
            self.p = subprocess.Popen(self.cmd, cwd=self.dir, env=self.env, stdout=f, stderr=subprocess.STDOUT,
                                      stdin=subprocess.DEVNULL, preexec_fn=pre, start_new_session=True)

    def poll(self):
        if self.p.poll() is None:
            if time.time() - self.t0 > self.limit:
                self.kill()
                self.rc = 'timeout'
                return True
            return False
        self.rc = self.p.returncode
        return True

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def text(self):
        with open(self.log, 'rb') as f:
            return f.read().decode('utf-8', 'replace')

    def failfile(self):
        ff = None
        for r, ds, fs in os.walk(os.path.join(self.dir, 'testdata')):
            for x in fs:
                if x.endswith('.fail'):
                    ff = os.path.join(r, x)
        return ff

    def verdict(self):
        """None: fine.  ('violation', why, failfile) or ('error', why, None)."""
        if self.rc == 0:
            return None
        text = self.text()
        m = re.search(r'^VERIF-HANG: .*$', text, re.M)
        if m:
            return ('violation', m.group(0), None)
        if self.rc == 'timeout':
            return ('error', 'shard did not finish in time', None)
        races = re.findall(r'WARNING: DATA RACE\n.*?\n==================', text, re.S)
        if races:
            theirs = [r for r in races if any(involved(a) for a in
                      re.findall(r'(?:Read|Write|read|write) at 0x.*?\n((?:  \S.*\n      \S.*\n)+)', r))]
            if not theirs:
                return ('error', 'data race outside the library', None)
            return ('violation', theirs[0][:6000], self.failfile())
        fails = re.findall(r'\[rapid\] (?:failed|panic|flaky).*', text)
        if re.search(r'^VERIF-HARNESS: .*$', text, re.M):
            return ('error', re.search(r'^VERIF-HARNESS: .*$', text, re.M).group(0), None)
        if fails or re.search(r'^\s*--- FAIL: Test', text, re.M):
            if not fails and not re.search(r'VERIF-FAIL', text):
                return ('error', 'test failed outside a generated case', None)
            return ('violation', fails[0] if fails else 'failed', self.failfile())
        if re.search(r'^(panic:|fatal error:|unexpected fault address|SIGSEGV)', text, re.M) and \
                ('gitee.com/coco/go808' in text or 'github.com/funny/link' in text):
            m = re.search(r'^(panic:|fatal error:).*$', text, re.M)
            if 'out of memory' not in m.group(0):
                return ('violation', 'process crashed: ' + m.group(0), None)
        return ('error', 'test process ended with %s' % self.rc, None)


def involved(stack):
    """Whether the access with this stack was made by the library itself."""
    for line in stack.split('\n')[::2]:
        f = line.strip()
        if f.startswith(('gitee.com/coco/go808', 'github.com/funny/link')):
            return True
        if f.startswith('verifharness/'):
            return False
    return False


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            m = re.match(r'KNOWN: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def save_replay(prop, sh, why, ff):
    os.makedirs(REPLAYS, exist_ok=True)
    text = sh.text()
    test = None
    m = re.search(r'--- FAIL: (Test\w+)', text) or re.search(r'step did not terminate: (Test\w+)', text)
    if m:
        test = m.group(1)
    rec = {'property': prop, 'package': sh.run['pkg'], 'tests': '^%s$' % test if test else sh.run['tests'],
           'seed': sh.seed, 'checks': sh.env['VERIF_CHECKS'], 'tz': sh.tz, 'why': why,
           'unprivileged': sh.demote, 'race': bool(sh.run.get('race')), 'failfile': None, 'log_tail': text[-12000:]}
    if ff:
        rec['failfile'] = open(ff, encoding='utf-8', errors='replace').read()
    key = hashlib.sha1((why + str(rec['failfile']) + str(sh.seed)).encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, '%s-%s.json' % (prop, key))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def replay(prop, path):
    rec = json.load(open(path))
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.chmod(scratch, 0o755)
    fast_scratch(scratch)
    try:
        binary = os.path.join(scratch, 'h.test')
        build(rec['package'], binary, bool(rec.get('race')))
        run = {'name': 'r', 'pkg': rec['package'], 'tests': rec['tests'], 'quick': rec['checks'],
               'race': rec.get('race'),
               'unprivileged': rec.get('unprivileged') and os.geteuid() == 0 and can_demote()}
        if rec.get('tz'):
            run['zones'] = [rec['tz']]
        sh = Shard(run, 0, rec['seed'], scratch, binary, 'quick', 600)
        if rec.get('failfile'):
            ff = os.path.join(sh.dir, 'replay.fail')
            open(ff, 'w').write(rec['failfile'])
            os.chmod(ff, 0o644)
            sh.cmd += ['-rapid.failfile', ff, '-test.v']
        sh.start()
        while not sh.poll():
            time.sleep(0.05)
        print(sh.text()[-8000:])
        v = sh.verdict()
        if v and v[0] == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        if v:
            print(v[1])
            return 2
        print('the recorded case passes on this tree')
        return 0
    finally:
        shutil.rmtree(FAST, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    prop = sys.argv[1]
    if prop not in CHECKS:
        die('unknown property ' + prop)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        sys.exit(replay(prop, sys.argv[3]))
    cfg = CHECKS[prop]
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    seconds = 300 if tier == 'quick' else 3000
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.chmod(scratch, 0o755)
    fast_scratch(scratch)
    demotable = os.geteuid() == 0 and can_demote()
    try:
        shards = []
        for k, run in enumerate(cfg['runs']):
            run = dict(run, name='abcdefgh'[k])
            run.setdefault('thorough', run['quick'] * 20)
            if run.get('unprivileged') and not demotable:
                run['unprivileged'] = False
            binary = os.path.join(scratch, run['pkg'] + ('.race' if run.get('race') else '.test'))
            if not os.path.exists(binary):
                build(run['pkg'], binary, bool(run.get('race')))
            for i in range(run.get('shards', 8)):
                s = (seed * 1000003 + k * 104729 + i * 7919 + 17) & 0x7fffffffffffffff
                shards.append(Shard(run, i, s or 1, scratch, binary, tier, seconds))
        pending, running, bad = list(shards), [], []
        par = cfg.get('parallel', 8)
        while pending or running:
            while pending and len(running) < par and not bad:
                sh = pending.pop(0)
                sh.start()
                running.append(sh)
            for sh in running[:]:
                if sh.poll():
                    running.remove(sh)
                    v = sh.verdict()
                    if v:
                        bad.append((sh, v))
            if bad and any(v[0] == 'violation' for _, v in bad):
                for sh in running:
                    sh.kill()
                    sh.rc = 'killed'
                break
            if bad and not running:
                break
            time.sleep(0.02)
        fuzz_note = None
        if tier == 'thorough' and not bad and cfg.get('fuzz'):
            fuzz_note, v = native_fuzz(cfg['fuzz'], scratch, 600)
            if v:
                bad.append(v)
        write_evidence(prop, cfg, tier, seed, shards, time.time() - t0, bad, fuzz_note)
        viol = [(sh, v) for sh, v in bad if v[0] == 'violation']
        for key, what in findings(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        if viol:
            sh, v = viol[0]
            path = save_replay(prop, sh, v[1], v[2])
            text = sh.text()
            at = max(0, text.find('[rapid]') - 500)
            print(v[1] if 'DATA RACE' in v[1] else text[at:at + 6000])
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            sys.exit(1)
        if bad:
            sh, v = bad[0]
            print(sh.text()[-6000:])
            die('check error: ' + v[1])
        print('%s: held on everything explored (%s, seed %d, %.1f s)' % (prop, tier, seed, time.time() - t0))
    finally:
        for sh in locals().get('shards', []):
            if hasattr(sh, 'p') and sh.p.poll() is None:
                sh.kill()
        shutil.rmtree(FAST, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


class FuzzFailure:
    """Stands in for a shard when coverage-guided fuzzing fails."""

    def __init__(self, pkg, target, out, corpus):
        self.run = {'pkg': pkg, 'tests': '^%s$' % target}
        self.seed, self.tz, self.demote = 1, '', False
        self.env = {'VERIF_CHECKS': '1'}
        self.out = out + '\n' + corpus

    def text(self):
        return self.out


def native_fuzz(targets, scratch, seconds):
    """Coverage-guided fuzzing (thorough only), in a copy so that its corpus stays out of /verif."""
    copy = os.path.join(scratch, 'fuzz')
    shutil.copytree(HARNESS, copy, ignore=shutil.ignore_patterns('testdata'))
    note = []
    for pkg, target in targets:
        e = env()
        e['GOCACHE'] = os.path.join(scratch, 'gocache')
        e['TMPDIR'] = os.path.join(scratch, 'fztmp')
        os.makedirs(e['TMPDIR'], exist_ok=True)
        p = subprocess.run(['go', 'test', '-vet=off', './' + pkg, '-run', '^$', '-fuzz', '^%s$' % target,
                            '-fuzztime', '%ds' % seconds, '-fuzzminimizetime', '2s'], cwd=copy, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        ex = re.findall(r'execs: (\d+)', p.stdout)
        note.append({'target': target, 'seconds': seconds, 'execs': int(ex[-1]) if ex else 0})
        if p.returncode != 0:
            corpus = ''
            for r, ds, fs in os.walk(os.path.join(copy, pkg, 'testdata', 'fuzz')):
                for x in fs:
                    corpus += open(os.path.join(r, x)).read() + '\n'
            kind = 'violation' if ('--- FAIL' in p.stdout and corpus) else 'error'
            return note, (FuzzFailure(pkg, target, p.stdout, corpus), (kind, 'fuzzing %s failed' % target, None))
    return note, None


def write_evidence(prop, cfg, tier, seed, shards, wall, bad, fuzz_note):
    ev, nt, labels, samples, hashes, per = 0, 0, {}, [], set(), {}
    for sh in shards:
        try:
            d = json.load(open(sh.stats))
        except (OSError, ValueError):
            continue
        ev += d['evaluations']
        nt += d['nontrivial']
        for k, v in (d['labels'] or {}).items():
            labels[k] = labels.get(k, 0) + v
        samples.append(d['samples'] or [])
        per[sh.run['tests']] = per.get(sh.run['tests'], 0) + d['evaluations']
        try:
            raw = open(sh.stats + '.hashes', 'rb').read()
            hashes.update(struct.unpack('<%dQ' % (len(raw) // 8), raw))
        except OSError:
            pass
    picked = []
    for j in range(12):
        for s in samples:
            if j < len(s) and len(picked) < 12 and s[j] not in picked:
                picked.append(s[j])
    cov = {'evaluations': ev, 'nontrivial': nt, 'distinct_nontrivial': len(hashes), 'rule': cfg['rule'],
           'samples': picked, 'labels': dict(sorted(labels.items())), 'shards': len(shards), 'cases_per_test_group': per}
    if fuzz_note is not None:
        cov['coverage_guided'] = fuzz_note
    out = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2),
           'violations': sum(1 for _, v in bad if v[0] == 'violation')}
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(out, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))


main()
