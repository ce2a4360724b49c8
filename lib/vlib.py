"""Common machinery of the checks: building the replayers from /repo, running
TLC, replaying the behaviours it prints, confirming disagreements, evidence."""
import concurrent.futures as cf
import glob, json, os, shutil, subprocess, sys, tempfile, time, hashlib, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, 'spec')
HARNESS = os.path.join(V, 'harness')
BUILD = os.path.join(V, 'build')
EVID = os.path.join(V, 'evidence')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = 8


OVERLAY = dict(bfc={'bfc/bfc.go': '/repo/cuda/bfc.go', 'bfc/release.go': '/repo/cuda/release.go', 'bfc/errors.go': '/repo/cuda/errors.go'})


class CheckError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off',
             GOCACHE=e.get('GOCACHE', '/root/.cache/go-build'), GOMODCACHE=e.get('GOMODCACHE', '/root/go/pkg/mod'),
             CGO_ENABLED='1', CGO_LDFLAGS='-lopenblas', ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH='go1.23',
             PATH='/opt/veriftools/go1.23.12/bin:' + e.get('PATH', ''))
    return e


def build(cmd, flags=(), overlay=None):
    """Build harness/cmd/<cmd> against /repo's working tree. overlay: files of
    /repo that are laid over a directory of the harness."""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, cmd + ('-' + flags[0].strip('-') if flags else ''))
    flags = list(flags)
    overlay = overlay or OVERLAY.get(cmd)
    if overlay:
        o = os.path.join(BUILD, cmd + '.overlay.json')
        json.dump(dict(Replace={os.path.join(HARNESS, k): v for k, v in overlay.items()}), open(o, 'w'))
        flags += ['-overlay', o]
    r = subprocess.run(['go', 'build', *flags, '-o', out, './cmd/' + cmd], cwd=HARNESS, env=go_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('cannot build %s against /repo:\n%s' % (cmd, r.stderr[-3000:]))
    return out


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir='/tmp')
        self.states = 0        # distinct states (exhaustive) or visited states (simulation)
        self.transitions = 0
        self.behaviours = 0
        self.steps = 0
        self.compared = 0
        self.skipped = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = []
        self.cov = {}
        self.n = 0

    def log(self, *a):
        print('[%6.1fs]' % (time.time() - self.t0), *a, flush=True)

    def scratch(self, name=''):
        self.n += 1
        d = os.path.join(self.tmp, '%03d-%s' % (self.n, name))
        os.makedirs(d)
        return d

    # ---------------------------------------------------------------- TLC
    def tlc(self, job):
        """job: dict(name, module, consts, defs, and either sim=(num, depth, seed) or bfs).
        Returns (lines, stats)."""
        d = job['dir']
        mod = job['module']
        defs = job.get('defs', {})
        with open(d + '/MC.tla', 'w') as f:
            f.write('---- MODULE MC ----\nEXTENDS %s\n' % mod)
            for k, v in defs.items():
                f.write('d_%s == %s\n' % (k, v))
            f.write('====\n')
        with open(d + '/MC.cfg', 'w') as f:
            if job.get('consts') or defs:
                f.write('CONSTANTS\n')
            for k, v in job.get('consts', {}).items():
                f.write('  %s = %s\n' % (k, v))
            for k in defs:
                f.write('  %s <- d_%s\n' % (k, k))
            for k, v in job.get('over', {}).items():
                f.write('  %s <- %s\n' % (k, v))
            if 'spec' in job:
                f.write('SPECIFICATION %s\n' % job['spec'])
            else:
                f.write('INIT %s\nNEXT %s\n' % job.get('initnext', ('Init', 'Next')))
            for i in job.get('invariants', ()):
                f.write('INVARIANT %s\n' % i)
            for i in job.get('properties', ()):
                f.write('PROPERTY %s\n' % i)
            for i in job.get('constraints', ()):
                f.write('CONSTRAINT %s\n' % i)
            f.write('CHECK_DEADLOCK %s\n' % ('TRUE' if job.get('deadlock') else 'FALSE'))
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx%s' % job.get('mem', '2500m'), '-Xss64m', '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC',
               '-noTE', '-metadir', d + '/states', '-config', 'MC.cfg']
        if 'sim' in job:
            num, depth, seed = job['sim']
            cmd += ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed), '-workers', '1']
        else:
            cmd += ['-workers', str(job.get('workers', 1))]
        cmd.append('MC.tla')
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=job.get('timeout', 600))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC did not finish in time: %s' % job['name'])
        finally:
            shutil.rmtree(d + '/states', ignore_errors=True)
        lines = [json.loads(l)[2:] for l in r.stdout.split('\n') if l.startswith('"@@')]
        if r.returncode != 0:
            open(d + '/out.txt', 'w').write(r.stdout + r.stderr)
            keep = [l for l in r.stdout.split('\n') if not l.startswith('"@@')]
            raise CheckError('TLC failed on %s (exit %d):\n%s\n%s' % (job['name'], r.returncode, '\n'.join(keep)[-2500:], r.stderr[-500:]))
        st = dict(wall=time.time() - t)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', r.stdout)
        if m:
            st['generated'], st['distinct'] = int(m.group(1)), int(m.group(2))
        else:
            m = re.findall(r'number of states generated: ([\d,]+)', r.stdout)
            st['generated'] = int(m[-1].replace(',', '')) if m else 0
            st['distinct'] = 0
        return lines, st

    def _timed(self, j):
        t = time.time()
        r = self.tlc(j)
        j['wall'] = time.time() - t
        return r

    def run_jobs(self, jobs, workers=NCPU):
        """Run TLC jobs in parallel; returns all printed behaviours (in job order)."""
        for j in jobs:
            j['dir'] = self.scratch(re.sub(r'\W', '', j['name']))
        out = []
        with cf.ThreadPoolExecutor(workers) as ex:
            res = list(ex.map(self._timed, jobs))
        if os.environ.get('VERIF_TIMES'):
            for j in sorted(jobs, key=lambda j: -j['wall'])[:12]:
                print('%7.1fs %s' % (j['wall'], j['name']))
        for j, (lines, st) in zip(jobs, res):
            self.transitions += st['generated']
            self.states += st['distinct'] if st['distinct'] else st['generated']
            j['out'] = lines
            j['stats'] = st
            if j.get('expect_lines', True) and not lines:
                raise CheckError('TLC printed no behaviour for %s' % j['name'])
            out += lines
        return out

    # ------------------------------------------------------------- replay
    def _replay_once(self, binary, path, args, start=0, stride=1, timeout=3000, env=None):
        d = self.scratch('replay')
        e = go_env()
        e['GOMAXPROCS'] = '2'
        if env:
            e.update(env)
        cmd = [binary, '-in', path, '-start', str(start), '-stride', str(stride), '-progress', d + '/progress', *args]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('replayer did not finish in time')
        return r, d

    def _shard(self, binary, path, args, start, stride, env, maxf=5):
        findings, tot = [], dict(behaviours=0, steps=0, compared=0, skipped=0)
        while True:
            r, d = self._replay_once(binary, path, args, start, stride, env=env)
            done = None
            for l in r.stdout.split('\n'):
                if l.startswith('{"i"') or l.startswith('{"finding"'):
                    x = json.loads(l)
                    findings.append((x['i'], x['finding']))
                elif l.startswith('{') and '"done"' in l:
                    done = json.loads(l)
            if done is not None and r.returncode == 0:
                for k in tot:
                    tot[k] += done[k]
                return findings, tot
            if r.returncode == 3:
                raise CheckError('replayer error: ' + r.stderr[-2000:])
            cur = int(open(d + '/progress').read().strip() or start)
            if r.returncode == 4:
                pass        # hang: already reported
            elif r.returncode == 2 or r.returncode == 66:
                # the process died: a fatal error or a panic outside the replaying goroutine, or a data race
                findings.append((cur, dict(kind='race' if r.returncode == 66 else 'crash', step=-1, detail=crash_text(r.stderr))))
            else:
                raise CheckError('replayer ended with exit %d: %s' % (r.returncode, r.stderr[-2000:]))
            tot['behaviours'] += (cur - start) // stride + 1
            start = cur + stride
            if len(findings) >= maxf and not os.environ.get('VERIF_SURVEY'):
                return findings, tot

    def replay(self, binary, lines, judge=(), what='', args=(), env=None, shards=NCPU, confirm=10, dedupe=True, quiet=False):
        """Replay the behaviours; confirmed disagreements become violations."""
        if dedupe:
            lines = list(dict.fromkeys(lines))
        if not lines:
            raise CheckError('nothing to replay (%s)' % what)
        d = self.scratch('traces')
        path = d + '/t.jsonl'
        with open(path, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        args = list(args)
        if judge:
            args += ['-judge', ','.join(judge)]
        if os.environ.get('VERIF_SURVEY'):
            args += ['-max', '100000']
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(lambda k: self._shard(binary, path, args, k, shards, env), range(min(shards, len(lines)))))
        found = []
        for f, tot in res:
            found += f
            self.behaviours += tot['behaviours']
            self.steps += tot['steps']
            self.compared += tot['compared']
            self.skipped += tot['skipped']
        if os.environ.get('VERIF_SURVEY'):  # development aid: list what was found, by kind
            g = {}
            for i, f in sorted(found, key=lambda x: len(lines[x[0]])):
                ops = [(x['op'], x['sh'] if 'sh' in x else 'err') for x in json.loads(lines[i]) if x.get('op')] if lines[i][0] == '[' else []
                shs = [x['sh'] for x in json.loads(lines[i]) if x.get('a') == 'input'] if ops else ''
                g.setdefault(f['kind'] + ' ' + ' '.join(sorted({x[0] for x in ops})), []).append('%s %s %s' % (shs, ops, f['detail'][:150]))
                with open('/tmp/survey.jsonl', 'a') as o:
                    o.write(lines[i].strip() + '\n')
            for k in list(g)[:int(os.environ['VERIF_SURVEY'])]:
                print(len(g[k]), k, '\n      ', g[k][0])
        if len(self.samples) < 3:
            k = (self.seed * 7919) % len(lines)
            self.samples.append(json.loads(lines[k]) if len(lines[k]) < 4000 else lines[k][:4000])
        if judge:
            found = [(i, f) for i, f in found if f['kind'] in judge or f['kind'] in ('crash',) and 'panic' in judge]
        # the shortest behaviours first: they make the best counterexamples
        found.sort(key=lambda x: len(lines[x[0]]))
        unconfirmed = []
        for i, f in found[:6]:
            g = self.confirm(binary, lines[i], args, judge, env, confirm)
            if g is None:
                unconfirmed.append((i, f))
                continue
            self.violation(g, lines[i], binary, args, what)
            if len(self.violations) >= 3:
                break
        if unconfirmed and not self.violations:
            # try again in the company it was found in
            for i, f in unconfirmed:
                self.notes.append('not reproduced alone: %s' % json.dumps(f)[:300])
            raise CheckError('a disagreement could not be reproduced: %s' % json.dumps(unconfirmed[0][1])[:600])
        if not quiet:
            self.log('%s: %d behaviours replayed, %d findings' % (what, len(lines), len(found)))
        return len(lines)

    # ----------------------------------------------------- trace validation
    def record(self, binary, lines):
        """Run the histories and return what the implementation did, one trace per history."""
        d = self.scratch('record')
        open(d + '/in.jsonl', 'w').write('\n'.join(lines) + '\n')
        try:
            r = subprocess.run([binary, '-in', d + '/in.jsonl', '-out', d + '/out.jsonl'], cwd=d, env=go_env(), capture_output=True, text=True,
                               timeout=1200, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('recording did not finish in time')
        if r.returncode != 0:
            raise CheckError('recording ended with exit %d: %s' % (r.returncode, r.stderr[-2000:]))
        out = [l for l in open(d + '/out.jsonl') if l.strip()]
        if len(out) != len(lines):
            raise CheckError('%d traces recorded for %d histories' % (len(out), len(lines)))
        return out

    def validate(self, binary, lines, module, consts, defs, what, shards=NCPU, mem='2500m'):
        """Record the histories' executions and have TLC check each against the trace specification."""
        lines = list(dict.fromkeys(lines))
        if not lines:
            raise CheckError('nothing to validate (%s)' % what)
        traces = self.record(binary, lines)
        shards = max(1, min(shards, len(traces) // 500))
        jobs = []
        for k in range(shards):
            d = self.scratch('tr')
            open(d + '/t.jsonl', 'w').write(''.join(traces[k::shards]))
            jobs.append(dict(name='%s-%d' % (module, k), module=module, consts=dict(consts, File='"%s"' % (d + '/t.jsonl')), defs=defs,
                             initnext=('TInit', 'TNext'), expect_lines=False, mem=mem))
        rej = [json.loads(l) for l in self.run_jobs(jobs)]
        got = sum(j['stats']['distinct'] for j in jobs)
        if got < len(traces):
            raise CheckError('the trace specification visited %d states for %d traces' % (got, len(traces)))
        self.behaviours += len(traces)
        n = sum(l.count('"a"') for l in traces)
        self.steps += n
        self.compared += n
        if len(self.samples) < 3:
            self.samples.append(json.loads(traces[(self.seed * 7919) % len(traces)]))
        rej.sort(key=lambda r: len(lines[r['i']]))
        for r in rej[:3]:
            line = lines[r['i']]
            again = self.record(binary, [line])
            d = self.scratch('tr')
            open(d + '/t.jsonl', 'w').write(again[0])
            j = dict(name=module + '-confirm', module=module, consts=dict(consts, File='"%s"' % (d + '/t.jsonl')), defs=defs,
                     initnext=('TInit', 'TNext'), expect_lines=False)
            if not self.run_jobs([j]):
                raise CheckError('a rejected trace could not be reproduced: %s' % json.dumps(r)[:600])
            self.violation(dict(kind='trace', step=r['step'], detail='the specification does not allow %s' % json.dumps(r)[:800], recorded=json.loads(again[0])),
                           line, binary, [], what)
        self.log('%s: %d traces validated, %d rejected' % (what, len(traces), len(rej)))

    def confirm(self, binary, line, args, judge, env, tries):
        d = self.scratch('confirm')
        path = d + '/t.jsonl'
        open(path, 'w').write(line + '\n')
        for _ in range(tries):
            f, _ = self._shard(binary, path, args, 0, 1, env)
            f = [x for _, x in f if not judge or x['kind'] in judge or x['kind'] == 'crash' and 'panic' in judge]
            if f:
                return f[0]
        return None

    def violation(self, finding, line, binary, args, what):
        rd = os.path.join(EVID, 'replay')
        os.makedirs(rd, exist_ok=True)
        h = hashlib.sha1(line.encode()).hexdigest()[:10]
        p = os.path.join(rd, '%s-%s.jsonl' % (self.pid, h))
        open(p, 'w').write(line + '\n')
        json.dump(dict(finding=finding, what=what, replay_with=[os.path.basename(binary), '-in', p, *args]),
                  open(p.replace('.jsonl', '.json'), 'w'), indent=1)
        self.violations.append(dict(finding=finding, replay=p))
        self.log('violation (%s): %s' % (what, json.dumps(finding)[:900]))

    # ---------------------------------------------------- known findings
    def probes(self, binaries, judge=()):
        """Replay the listed known findings of this property."""
        kf = os.path.join(V, 'known-findings.txt')
        if not os.path.exists(kf):
            return
        for l in open(kf):
            m = re.match(r'known: property=(\S+) probe=(\S+) (.*)', l)
            if not m or m.group(1) != self.pid:
                continue
            f = os.path.join(V, m.group(2))
            raw = open(f).read().strip()
            kind = os.path.basename(f).split('-')[0]
            b = binaries.get(kind)
            if b is None:
                raise CheckError('no replayer for probe ' + f)
            g = self.confirm(b, raw.replace('\n', ''), ['-timeout', '10'], (), None, 1)
            if g is not None:
                self.known.append(m.group(3))
                print('KNOWN-FINDING: property=%s %s' % (self.pid, m.group(3)), flush=True)
            else:
                self.notes.append('known finding did not fail: ' + m.group(3))

    # ------------------------------------------------------------ verdict
    def finish(self, level='model_checking', assumptions=()):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.behaviours,
                   steps_replayed=self.steps, values_compared=self.compared, values_without_verdict=self.skipped,
                   known_findings_reproduced=len(self.known), samples=self.samples or ['none'])
        cov.update(self.cov)
        if self.notes:
            cov['notes'] = self.notes
        ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick', seed=self.seed, level=level,
                  coverage=cov, assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        tmp = os.path.join(EVID, '.%s.tmp' % self.pid)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + '.json'))
        for v in self.violations[:1]:
            print('VIOLATION property=%s replay=%s' % (self.pid, v['replay']), flush=True)
            print('  ' + json.dumps(v['finding'])[:1500], flush=True)
        self.log('behaviours %d, values compared %d, states %d' % (self.behaviours, self.compared, self.states))
        return 1 if self.violations else 0

    def close(self):
        if self.tmp.startswith('/tmp/verif-'):
            shutil.rmtree(self.tmp, ignore_errors=True)


def crash_text(err):
    l = err.split('\n')
    head = [x for x in l if x.startswith(('panic:', 'fatal error:', 'WARNING: DATA RACE', 'runtime:', 'SIGSEGV', 'signal'))][:3]
    where = [x.strip() for x in l if '/repo/' in x][:8]
    return ' | '.join(head + where) or err[-600:]
