#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, drives the harness
shards, collects what the monitors observed, matches violations against known-findings.txt, writes
evidence/<id>.json and prints KNOWN-FINDING / VIOLATION lines.

  check.py ID [--tier quick|thorough] [--seed N]      run the check
  check.py --replay FILE                              re-run one recorded case, verbosely
  check.py --build                                    build every library flavour and harness (setup)
"""
import sys, os, json, re, time, subprocess, hashlib, fnmatch, shutil, tempfile, fcntl, threading, queue, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'bin'))
from props import PROPS, HARNESS, LIBTARGETS
BUILD = os.path.join(HERE, 'build')
NCPU = max(2, min(8, os.cpu_count() or 2))
SAN = ('-fsanitize=address,bounds,null,integer-divide-by-zero,unreachable,return,vla-bound,shift-exponent '
       '-fno-sanitize-recover=all').split()
SANENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1',
          'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77'}

class Broken(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def build_libs(flav, libs):
    d = os.path.join(BUILD, flav)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, flav + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        targets = []
        for l in libs:
            targets += LIBTARGETS[l]
        r = sh(['bash', os.path.join(HERE, 'bin/buildlibs.sh'), flav, d] + sorted(set(targets)))
        if r.returncode != 0:
            raise Broken('library build failed:\n' + r.stdout[-3000:])
    return d

def libfile(d, l):
    return os.path.join(d, 'src/libtoplib.a') if l == 'top' else os.path.join(d, 'src', l, 'lib%slib.a' % l)

def build_harness(name, flav):
    h = HARNESS[name]
    libs = h['libs']
    d = build_libs(flav, libs)
    src = os.path.join(HERE, 'harness', h['src'])
    out = os.path.join(BUILD, '%s_%s' % (name, flav))
    arch = []
    for l in libs:
        arch.append(libfile(d, l))
    deps = [src] + glob.glob(os.path.join(HERE, 'harness', '*.hpp')) + arch + [os.path.join(REPO, x) for x in h.get('repo_src', [])]
    deps += glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(os.path.join(REPO, 'src', '*', '*.h'))
    hs = hashlib.sha256()
    for f in sorted(deps):
        hs.update(f.encode())
        with open(f, 'rb') as fh:
            hs.update(fh.read())
    hs.update(json.dumps(h, sort_keys=True).encode())
    sig = hs.hexdigest()
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(out + '.sig') and open(out + '.sig').read() == sig:
            return out
        inc = ['-I' + os.path.join(HERE, 'harness'), '-I' + os.path.join(REPO, 'src')]
        inc += ['-I' + os.path.join(REPO, 'src', x) for x in sorted(os.listdir(os.path.join(REPO, 'src'))) if os.path.isdir(os.path.join(REPO, 'src', x))]
        inc += ['-I' + os.path.join(d, 'src')] + ['-I' + os.path.join(d, 'src', l) for l in libs if l != 'top']
        fl = ['-O1'] + SAN if flav == 'san' else ['-O1', '-fsanitize=address,null', '-fno-sanitize-recover=all'] if flav == 'asan' else ['-O1', '-fsanitize=thread'] if flav == 'tsan' else ['-O1']
        objs = []
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            jobs = [(['g++', '-std=c++17'], src)]
            for x in h.get('repo_src', []):
                jobs.append((['gcc'], os.path.join(REPO, x)))
            for i, (cc, s) in enumerate(jobs):
                o = os.path.join(tmp, '%d.o' % i)
                r = sh(cc + ['-w', '-g1', '-D_FORTIFY_SOURCE=0'] + fl + h.get('defs', []) + inc + ['-c', s, '-o', o])
                if r.returncode != 0:
                    raise Broken('harness compile failed (%s):\n%s' % (s, r.stdout[-3000:]))
                objs.append(o)
            r = sh(['g++', '-g1'] + fl + objs + ['-Wl,--start-group'] + arch + ['-Wl,--end-group'] + h.get('ldflags', []) + ['-o', out + '.new'])
            if r.returncode != 0:
                raise Broken('harness link failed:\n' + r.stdout[-3000:])
            os.replace(out + '.new', out)
            with open(out + '.sig', 'w') as f:
                f.write(sig)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out

def crash_key(err, rc):
    """Key of an abnormal end from the sanitizer report (kind @ innermost function of the simulator)."""
    kind = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: ([^\n]*)', err)
        if m:
            k = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
            kind = 'ubsan:' + k[:60]
    if m:
        err = err[m.start():]
        fn = None
        for f in re.finditer(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', err):
            if '/src/' in f.group(2) and 'gcc' not in f.group(2):
                fn = f.group(1)
                break
        if not fn:
            f = re.search(r'#\d+ 0x[0-9a-f]+ in (\S+)', err)
            fn = f.group(1) if f else '?'
        return '%s@%s' % (kind, fn)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m:
        fns = re.findall(r'#0 (\S+) ', err)
        return 'tsan:%s@%s' % (m.group(1).strip().replace(' ', '-'), '|'.join(fns[:2]))
    if rc < 0:
        return 'signal:%d' % -rc
    return 'exit:%d' % rc

class Run:
    def __init__(self, spec, tier, seed, work, deadline, listed):
        self.spec, self.tier, self.seed, self.work, self.deadline, self.listed = spec, tier, seed, work, deadline, listed
        self.halt, self.cut = None, 0      # why the run is being ended early; harnesses that had to be killed for it
        self.viol, self.stats, self.sets, self.samples = [], {}, {}, []
        self.lock = threading.Lock()
        self.inconclusive = []

    def cmd(self, exe, extra):
        return [exe, '--seed', str(self.seed), '--tier', self.tier] + (['--mode', self.spec['mode']] if self.spec.get('mode') else []) + extra + self.spec.get('args', [])

    def go(self, exe):
        count = self.spec['count'][0 if self.tier == 'quick' else 1]
        n = min(self.spec.get('shards', NCPU), max(1, count))
        ths = []
        errs = []
        def worker(s):
            try:
                self.shard(exe, s, n, count)
            except Exception as e:
                errs.append(e)
        for s in range(n):
            t = threading.Thread(target=worker, args=(s,))
            t.start()
            ths.append(t)
        # Watch what the harnesses report.  Violations that keep turning up while cases take their full
        # processor time are answer enough; and a check has to answer in time.
        seen_at, offsets = None, {}
        while any(t.is_alive() for t in ths):
            for t in ths:
                t.join(0.25)
            if seen_at is None and (self.fresh(self.viol) or self.peek(offsets)):
                seen_at = time.time()
            now = time.time()
            if self.halt is None and seen_at is not None and now - seen_at > (60 if self.tier == 'quick' else 600):
                self.halt = 'violations'
            if self.halt is None and now > self.deadline:
                self.halt = 'time'
        if errs:
            raise errs[0]

    def fresh(self, viol):
        with self.lock:
            return any(not self.listed(v['key']) for v in viol)

    def peek(self, offsets):
        """Has a harness that still runs reported a violation that is not listed?"""
        for fn in os.listdir(self.work):
            if not fn.endswith('.jsonl'):
                continue
            try:
                with open(os.path.join(self.work, fn), errors='replace') as f:
                    f.seek(offsets.get(fn, 0))
                    for line in iter(f.readline, ''):
                        if not line.endswith('\n'):
                            break
                        offsets[fn] = f.tell()
                        if line.startswith('{"t":"viol"'):
                            try:
                                if not self.listed(json.loads(line)['key']):
                                    return True
                            except ValueError:
                                pass
            except OSError:
                pass
        return False

    def execute(self, cmd, eh, scratch):
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=eh, stdin=subprocess.DEVNULL, env=self.env(), cwd=scratch)
        asked = None
        while True:
            try:
                return p.wait(0.5 if asked is None else 0.2)
            except subprocess.TimeoutExpired:
                pass
            if self.halt and asked is None:
                p.terminate()       # ends after the current case, with its tallies
                asked = time.time()
            if asked is not None and time.time() - asked > (15 if self.halt == 'violations' else 60):
                p.kill()
                p.wait()
                return None

    def env(self):
        e = dict(os.environ)
        e.update(SANENV)
        e.pop('CPU_TRACE', None)
        return e

    def shard(self, exe, s, n, count):
        tag = '%s.%d' % (os.path.basename(exe) + (self.spec.get('mode') or '') + '_'.join(self.spec.get('args', [])).replace('/', '_'), s)
        first, restarts, hangs = 0, 0, 0
        while True:
            out = os.path.join(self.work, '%s.%d.jsonl' % (tag, restarts))
            scratch = os.path.join(self.work, 'scratch.%s.%d' % (tag, restarts))
            os.makedirs(scratch)
            cmd = self.cmd(exe, ['--first', str(first), '--count', str(count), '--shard', str(s), '--nshards', str(n), '--out', out, '--scratch', scratch])
            ef = out + '.err'
            with open(ef, 'wb') as eh:
                rc = self.execute(cmd, eh, scratch)
            shutil.rmtree(scratch, ignore_errors=True)
            ended = self.collect(out, cmd)
            cur = self.progress(out)
            if ended and rc == 0 or self.halt:
                if not ended:
                    with self.lock:
                        self.cut += 1
                break
            with open(ef, 'rb') as eh:
                err = eh.read()[-400000:].decode('latin1')
            if rc in (2, 3):
                raise Broken('harness reported an error of its own (exit %d): %s' % (rc, err[-1500:]))
            if cur is None:
                raise Broken('harness died before its first case (exit %s): %s' % (rc, err[-1500:]))
            if rc == 78:
                # a case used far more processor time than any case needs: confirm it on its own
                hangs += 1
                again = self.confirm(exe, cur)
                if again == 'hang':
                    self.add('hang:' + (self.note(out) or HARNESS[self.spec['harness']]['src'].split('.')[0]), 'the code under test does not return: ' + self.note(out), cur)
                else:
                    with self.lock:
                        self.inconclusive.append('case %d exceeded its allowance once and did not again' % cur)
            else:
                nt = self.note(out)
                self.add(crash_key(err, rc), (nt + ' | ' if nt else '') + err[max(0, err.find('ERROR: AddressSanitizer')):][:1500], cur)
            restarts += 1
            first = cur + 1
            with self.lock:
                self.stats['restarts'] = self.stats.get('restarts', 0) + 1
            if restarts > 40 or hangs > 3:
                break

    def confirm(self, exe, case):
        scratch = tempfile.mkdtemp(dir=self.work)
        cmd = self.cmd(exe, ['--case', str(case), '--scratch', scratch])
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, env=self.env(), cwd=scratch, timeout=600).returncode
        except subprocess.TimeoutExpired:
            rc = None
        shutil.rmtree(scratch, ignore_errors=True)
        return 'hang' if rc == 78 else 'no'

    def progress(self, out):
        try:
            with open(out + '.progress', 'rb') as f:
                b = f.read(8)
            return int.from_bytes(b, 'little')
        except OSError:
            return None

    def note(self, out):
        try:
            with open(out + '.progress', 'rb') as f:
                b = f.read()[16:]
            return b.split(b'\0')[0].decode('latin1')
        except OSError:
            return ''

    def add(self, key, detail, case):
        with self.lock:
            self.viol.append({'key': key, 'detail': detail, 'case': case, 'harness': self.spec['harness'], 'flavour': self.spec['flavour'],
                              'mode': self.spec.get('mode', ''), 'args': self.spec.get('args', [])})

    def collect(self, out, cmd):
        ended = False
        try:
            fh = open(out, errors='replace')
        except OSError:
            return False
        with fh:
            for line in fh:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                t = d.get('t')
                if t == 'viol':
                    self.add(d['key'], d['detail'], d['case'])
                    continue
                with self.lock:
                    if t == 'stat':
                        self.stats[d['n']] = self.stats.get(d['n'], 0) + d['v']
                    elif t == 'set':
                        self.sets.setdefault(d['n'], set()).update(d['h'])
                    elif t == 'sample':
                        self.samples.append(d['d'])
                    elif t == 'end':
                        ended = True
        return ended

def known():
    """[(property, key pattern, text)] of the findings that are recorded and not repaired."""
    r = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r

def check(pid, tier, seed):
    t0 = time.time()
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='run.%s.' % pid, dir=mk(os.path.join(HERE, 'work')))
    viol, stats, sets, samples, inconc = [], {}, {}, [], []
    kn = [k for k in known() if k[0] == pid]
    listed = lambda key: any(fnmatch.fnmatchcase(key, k[1]) for k in kn)
    halted = []
    try:
        for i, spec in enumerate(P['runs']):
            deadline = t0 + (600 * (i + 1) / len(P['runs']) if tier == 'quick' else 7200 * (i + 1))
            exe = build_harness(spec['harness'], spec['flavour'])
            r = Run(spec, tier, seed, work, deadline, listed)
            r.go(exe)
            viol += r.viol
            if r.cut and r.halt == 'time':
                inconc.append('%d harnesses did not end when the time of the check was over' % r.cut)
            inconc += r.inconclusive
            for k, v in r.stats.items():
                stats[k] = stats.get(k, 0) + v
            for k, v in r.sets.items():
                sets.setdefault(k, set()).update(v)
            samples += r.samples[:4]
            if r.halt:
                halted.append('%s %s: ended early (%s)' % (spec['harness'], spec.get('mode', ''), r.halt))
            if r.halt == 'violations':
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    fresh, hits = [], {i: 0 for i in range(len(kn))}
    for v in viol:
        for i, k in enumerate(kn):
            if fnmatch.fnmatchcase(v['key'], k[1]):
                hits[i] += 1
                break
        else:
            fresh.append(v)
    for i, k in enumerate(kn):
        print('KNOWN-FINDING: property=%s %s (%s; observed %d times in this run)' % (pid, k[2], k[1], hits[i]))
    uniq = {}
    for v in fresh:
        uniq.setdefault(v['key'], []).append(v)
    for n, (k, vs) in enumerate(sorted(uniq.items())[:12]):
        v = vs[0]
        rp = os.path.join(mk(os.path.join(HERE, 'replays')), '%s-%s.json' % (pid, hashlib.sha1(k.encode()).hexdigest()[:8]))
        with open(rp, 'w') as f:
            json.dump(dict(v, property=pid, seed=seed, tier=tier, occurrences=len(vs)), f, indent=1)
        log('  %s (%d): %s' % (k, len(vs), v['detail'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rp, HERE)))
    dist = len(sets.get(P['distinct'], ()))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': stats.get(P.get('evals', 'cases'), 0), 'distinct_nontrivial': dist, 'rule': P['rule'],
                       'samples': samples[:6] or ['none recorded'],
                       'observed': {k: stats[k] for k in sorted(stats)},
                       'distinct': {k: len(sets[k]) for k in sorted(sets)},
                       'known_findings_observed': {kn[i][1]: hits[i] for i in hits},
                       'inconclusive': inconc, 'ended_early': halted},
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(uniq)}
    with open(os.path.join(mk(os.path.join(HERE, 'evidence')), pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    log('%s %s: %d cases, %d distinct (%s), %d violations, %.1f s' % (pid, tier, ev['coverage']['evaluations'], dist, P['distinct'], len(uniq), ev['wall_s']))
    if uniq:
        return 1
    for k, v in P.get('need', {}).items():
        got = stats.get(k, len(sets.get(k, ())))
        if got < v:
            log('too little observed: %s = %s, need %s' % (k, got, v))
            return 3
    if inconc and len(inconc) > 2:
        log('inconclusive: ' + '; '.join(inconc[:3]))
        return 3
    return 0

def mk(d):
    os.makedirs(d, exist_ok=True)
    return d

def replay(f):
    v = json.load(open(f))
    exe = build_harness(v['harness'], v['flavour'])
    scratch = tempfile.mkdtemp()
    e = dict(os.environ)
    e.update(SANENV)
    cmd = [exe, '--seed', str(v['seed']), '--tier', v.get('tier', 'quick')] + (['--mode', v['mode']] if v.get('mode') else []) + ['--case', str(v['case']), '--scratch', scratch, '-v'] + v['args']
    log(' '.join(cmd))
    rc = subprocess.run(cmd, env=e, cwd=scratch).returncode
    shutil.rmtree(scratch, ignore_errors=True)
    return rc

def main():
    a = sys.argv[1:]
    tier, seed, pid = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1') or 1), None
    while a:
        x = a.pop(0)
        if x == '--tier':
            tier = a.pop(0)
        elif x == '--seed':
            seed = int(a.pop(0))
        elif x == '--replay':
            return replay(a.pop(0))
        elif x == '--build':
            for n in HARNESS:
                for fl in HARNESS[n]['flavours']:
                    build_harness(n, fl)
            return 0
        else:
            pid = x
    if pid not in PROPS:
        log('unknown property', pid)
        return 2
    try:
        return check(pid, tier, seed)
    except Broken as e:
        log('check broken: %s' % e)
        return 3

if __name__ == '__main__':
    sys.exit(main())
