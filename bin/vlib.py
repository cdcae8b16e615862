"""Shared machinery of the checks: TLC runs, harness builds, driver runs, evidence."""
import atexit, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
CP = TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
GOMODCACHE = '/root/go/pkg/mod'


class CheckError(Exception):
    """The check could not give an answer."""


def goenv():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh && env -0'], capture_output=True, check=True).stdout
    env = dict(e.split('=', 1) for e in out.decode().split('\0') if '=' in e)
    return env


def make_overlay(scratch):
    """Map harness/<area> to virtual packages of the repository's module."""
    rep = {}
    hdir = os.path.join(VERIF, 'harness')
    for area in sorted(os.listdir(hdir)):
        d = os.path.join(hdir, area)
        if not os.path.isdir(d):
            continue
        if area.startswith('mod_'):
            continue
        elif area.startswith('vh'):
            base = os.path.join(REPO, 'pkg', 'zz' + area)
        else:
            base = os.path.join(REPO, 'cmd', 'zz_' + area)
        for f in sorted(os.listdir(d)):
            if f.endswith('.go'):
                rep[os.path.join(base, f)] = os.path.join(d, f)
    # no kernel modules here: take the list of them from the working directory
    kd = os.path.join(REPO, 'pkg', 'kmod')
    for f in sorted(os.listdir(kd)) if os.path.isdir(kd) else []:
        if f.endswith('.go'):
            with open(os.path.join(kd, f)) as fh:
                text = fh.read()
            if '/proc/modules' in text:
                rep[os.path.join(kd, f)] = os.path.join(scratch, 'kmod_' + f)
                with open(os.path.join(scratch, 'kmod_' + f), 'w') as fh:
                    fh.write(text.replace('/proc/modules', 'proc_modules'))
    p = os.path.join(scratch, 'overlay.json')
    with open(p, 'w') as fh:
        json.dump({'Replace': rep}, fh)
    return p


def make_modfile(scratch):
    """A go.mod in which dependencies with files in harness/mod_* are copies with those files."""
    hdir = os.path.join(VERIF, 'harness')
    p = os.path.join(scratch, 'mods', 'go.mod')
    if os.path.exists(p):
        return p
    os.makedirs(os.path.dirname(p))
    text = open(os.path.join(REPO, 'go.mod')).read()
    for area in sorted(os.listdir(hdir)):
        if not area.startswith('mod_'):
            continue
        path = open(os.path.join(hdir, area, 'PATH')).read().strip()
        copy = os.path.join(scratch, 'mods', area)
        shutil.copytree(os.path.join(GOMODCACHE, path), copy)
        for root, dirs, files in os.walk(copy):
            for f in dirs + files:
                os.chmod(os.path.join(root, f), 0o755)
        for f in os.listdir(os.path.join(hdir, area)):
            if f.endswith('.go'):
                shutil.copy(os.path.join(hdir, area, f), copy)
        text += '\nreplace %s => %s\n' % (path.split('@')[0], copy)
    with open(p, 'w') as fh:
        fh.write(text)
    shutil.copy(os.path.join(REPO, 'go.sum'), os.path.join(scratch, 'mods', 'go.sum'))
    return p


def crash_text(err):
    """The part of a driver's stderr that says why it died."""
    m = re.search(r'^(panic:|fatal error:|unexpected fault address|SIGSEGV|runtime: )', err, re.M)
    return err[m.start():m.start() + 6000] if m else err[-6000:]


class Decided(Exception):
    """A violation has been established; the rest of the check is not needed."""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.assumptions, self.known = [], [], [], []
        self.extra = {}
        self.bins = {}
        self.env = goenv()
        self.env['VERIF_SEED'] = str(seed)
        self.env['TMPDIR'] = os.path.join(self.scratch, 'tmp')
        os.makedirs(self.env['TMPDIR'])
        self.quick = tier == 'quick'
        self._n = 0

    def log(self, *a):
        print('[%6.1fs] %s' % (time.time() - self.t0, ' '.join(str(x) for x in a)), flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- TLC
    def _cfg(self, d, module, spec, constants, invariants, properties, constraint, action_constraint, post, view,
             symmetry, init=None, nxt=None):
        lines = []
        if init:
            lines += ['INIT ' + init, 'NEXT ' + nxt]
        else:
            lines += ['SPECIFICATION ' + spec]
        if constants:
            lines.append('CONSTANTS')
            for k, v in constants.items():
                if isinstance(v, str) and v.startswith('<-'):
                    lines.append('  %s <- %s' % (k, v[2:].strip()))
                else:
                    lines.append('  %s = %s' % (k, tla(v)))
        for i in invariants or []:
            lines.append('INVARIANT ' + i)
        for i in properties or []:
            lines.append('PROPERTY ' + i)
        if constraint:
            lines.append('CONSTRAINT ' + constraint)
        if action_constraint:
            lines.append('ACTION_CONSTRAINT ' + action_constraint)
        if post:
            lines.append('POSTCONDITION ' + post)
        if view:
            lines.append('VIEW ' + view)
        if symmetry:
            lines.append('SYMMETRY ' + symmetry)
        lines.append('CHECK_DEADLOCK FALSE')
        cfg = os.path.join(d, module + '_run.cfg')
        with open(cfg, 'w') as fh:
            fh.write('\n'.join(lines) + '\n')
        return cfg

    def _tlc(self, module, args, timeout, heap='4g', extra_files=None, **cfgkw):
        self._n += 1
        d = os.path.join(self.scratch, 'tlc%d' % self._n)
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), d)
        for name, text in (extra_files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        kw = dict(spec='Spec', constants=None, invariants=None, properties=None, constraint=None,
                  action_constraint=None, post=None, view=None, symmetry=None, init=None, nxt=None)
        kw.update(cfgkw)
        cfg = self._cfg(d, module, **kw)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss16m', '-cp', CP, 'tlc2.TLC', '-nowarning', '-metadir',
               os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfg] + args + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, timeout=timeout, env=dict(os.environ, TMPDIR=self.env['TMPDIR']))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on %s after %ss' % (module, timeout))
        out = p.stdout.decode(errors='replace')
        shutil.rmtree(os.path.join(d, 'meta'), True)
        return p.returncode, out

    def model_check(self, module, constants, invariants, workers=6, timeout=600, **kw):
        """Exhaustive model checking of the specification itself."""
        rc, out = self._tlc(module, ['-workers', str(workers)], timeout, constants=constants, invariants=invariants, **kw)
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if rc != 0 or not m or 'No error has been found' not in out:
            raise CheckError('model checking of %s failed (rc=%d):\n%s' % (module, rc, out[-4000:]))
        gen, dist = (int(x.replace(',', '')) for x in m[-1])
        self.states += dist
        self.transitions += gen
        self.log('TLC %s: %d distinct states, %d transitions' % (module, dist, gen))
        return dist, gen

    def gen(self, module, constants, simulate=None, depth=100, timeout=600, tag='TRACE', invariants=('Emit',),
            workers=1, count=True, seed=None, dedup=True, **kw):
        """Behaviours of the specification, printed by its Emit invariant.
        simulate=N: N random behaviours (seeded); None: all behaviours of the bounded instance."""
        args = ['-workers', str(workers)]
        if simulate:
            args += ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed if seed is None else seed)]
        rc, out = self._tlc(module, args, timeout, constants=constants, invariants=list(invariants), **kw)
        pre = '"' + tag + ' '
        traces = []
        seen = set()
        for line in out.splitlines():
            if line.startswith(pre):
                s = json.loads(line)[len(tag) + 1:]
                if dedup:
                    if s in seen:
                        continue
                    seen.add(s)
                traces.append(json.loads(s))
        if rc != 0:
            raise CheckError('generation from %s failed (rc=%d):\n%s' % (module, rc, out[-4000:]))
        if not traces:
            raise CheckError('generation from %s produced nothing:\n%s' % (module, out[-3000:]))
        if count:
            out = '\n'.join(l for l in out.splitlines() if not l.startswith(pre))
            m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
            if m:
                self.transitions += int(m[-1][0].replace(',', ''))
                self.states += int(m[-1][1].replace(',', ''))
            else:
                m = re.findall(r'The number of states generated: (\d[\d,]*)', out)
                if m:
                    n = int(m[-1].replace(',', ''))
                    self.transitions += n
        self.log('TLC generated %d behaviours from %s' % (len(traces), module))
        return traces

    def validate(self, module, traces, constants=None, timeout=600, workers=4, **kw):
        """Which recorded traces are behaviours of the specification (module reads traces.ndjson)?
        Returns the list of rejected trace indices with how far each was matched."""
        if not traces:
            return []
        text = ''.join(json.dumps(t, sort_keys=True) + '\n' for t in traces)
        rc, out = self._tlc(module, ['-workers', str(workers)], timeout, constants=constants,
                            invariants=kw.pop('invariants', ['Progress']), extra_files={'traces.ndjson': text}, **kw)
        if rc != 0 or 'No error has been found' not in out:
            raise CheckError('trace validation with %s failed (rc=%d):\n%s' % (module, rc, out[-4000:]))
        best = {}
        for line in out.splitlines():
            m = re.match(r'"REACH (\d+) (\d+)"', line)
            if m:
                t, n = int(m.group(1)), int(m.group(2))
                best[t] = max(best.get(t, 0), n)
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out)
        if m:
            self.transitions += int(m[-1][0].replace(',', ''))
            self.states += int(m[-1][1].replace(',', ''))
        bad = []
        for i, t in enumerate(traces):
            ln = len(t['ev'])
            if best.get(i + 1, 0) < ln:
                bad.append((i, best.get(i + 1, 0)))
        self.log('TLC validated %d recorded traces with %s, %d rejected' % (len(traces), module, len(bad)))
        return bad

    # ---------------------------------------------------------------- Go
    def build(self, area, mods=False, tags=None):
        key = (area, mods)
        if key in self.bins:
            return self.bins[key]
        ov = make_overlay(self.scratch)
        alt = ['-modfile', make_modfile(self.scratch)] if mods else []
        out = os.path.join(self.scratch, 'vh_' + area)
        t = time.time()
        p = subprocess.run(['go', 'build', '-overlay', ov] + alt + ['-o', out, './cmd/zz_' + area], cwd=REPO, env=self.env,
                           capture_output=True, timeout=800)
        if p.returncode != 0:
            raise CheckError('harness build failed:\n' + p.stderr.decode()[-4000:])
        self.log('built harness %s in %.1fs' % (area, time.time() - t))
        self.bins[key] = out
        return out

    def build_cli(self):
        out = os.path.join(self.scratch, 'vdisc')
        p = subprocess.run(['go', 'build', '-o', out, './cmd/vdisc'], cwd=REPO, env=self.env, capture_output=True, timeout=800)
        if p.returncode != 0:
            raise CheckError('vdisc build failed:\n' + p.stderr.decode()[-4000:])
        return out

    def _run_driver(self, binary, driver, cases, case_timeout, env, jobs, timeout):
        self._n += 1
        d = os.path.join(self.scratch, 'run%d' % self._n)
        os.makedirs(d)
        cf, rf = os.path.join(d, 'cases.ndjson'), os.path.join(d, 'results.ndjson')
        with open(cf, 'w') as fh:
            for i, c in cases:
                fh.write(json.dumps({'i': i, 'c': c}) + '\n')
        sd = os.path.join(d, 'scratch')
        os.makedirs(sd)
        e = dict(self.env)
        e['TMPDIR'] = sd
        e.update(env or {})
        cmd = [binary, driver, '-cases', cf, '-out', rf, '-scratch', sd, '-case-timeout', str(case_timeout), '-jobs', str(jobs)]
        try:
            ef = open(os.path.join(d, 'stderr'), 'wb')
            p = subprocess.run(cmd, cwd=d, env=e, stdout=ef, stderr=subprocess.STDOUT, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        finally:
            ef.close()
        with open(os.path.join(d, 'stderr'), 'rb') as fh:
            fh.seek(0, 2)
            n = fh.tell()
            fh.seek(max(0, n - 200000))
            err = fh.read().decode(errors='replace')
        results, begun = {}, {}
        if os.path.exists(rf):
            for line in open(rf):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r.get('begin'):
                    begun[r['i']] = True
                else:
                    results[r['i']] = r
                    begun.pop(r['i'], None)
        subprocess.run(['chmod', '-R', 'u+rwx', d], capture_output=True)
        shutil.rmtree(d, True)
        return rc, err, results, list(begun)

    def drive(self, area, driver, cases, case_timeout=20, env=None, jobs=1, mods=False, racy=False, timeout=3000,
              max_report=5, nsamples=2, count=True, describe=None):
        """Replay the cases on the real code. Appends violations. Returns results by case index."""
        binary = self.build(area, mods)
        todo = list(enumerate(cases))
        results = {}
        suspects = []          # (index, kind, message)
        while todo:
            rc, err, res, begun = self._run_driver(binary, driver, todo, case_timeout, env, jobs, timeout)
            results.update(res)
            for i, r in res.items():
                if not r.get('ok'):
                    suspects.append((i, 'harness' if r.get('harness') else 'mismatch', r.get('msg', '')))
            if rc == 0:
                missing = [i for i, _ in todo if i not in results]
                if missing:
                    raise CheckError('driver %s lost cases %s\n%s' % (driver, missing[:5], err[-2000:]))
                break
            if rc == 'timeout':
                raise CheckError('driver %s exceeded %ss\n%s' % (driver, timeout, err[-2000:]))
            if rc == 4:        # enough deviations
                break
            bad = begun
            if not bad:
                raise CheckError('driver %s died outside a case (rc=%s):\n%s' % (driver, rc, err[-4000:]))
            kind = 'hang' if rc == 3 else 'crash'
            for i in bad:
                suspects.append((i, kind, err[-6000:] if kind == 'hang' else crash_text(err)))
            todo = [(i, c) for i, c in todo if i not in results and i not in bad]
            if len(suspects) >= max_report:
                break
        confirmed, lost = [], []
        for i, kind, msg in suspects:
            if kind == 'harness':
                raise CheckError('driver %s: %s' % (driver, msg))
            if len(confirmed) >= max_report or confirmed and (confirmed[-1][1][0] == 'hang' or time.time() - self.t0 > 60):
                break
            got = None
            for attempt in range(3):
                rc, err, res, begun = self._run_driver(binary, driver, [(i, cases[i])], case_timeout * 3, env, 1, timeout)
                if rc == 0 and i in res and res[i].get('ok'):
                    results[i] = res[i]
                    continue
                if i in res and not res[i].get('ok'):
                    if res[i].get('harness'):
                        raise CheckError('driver %s: %s' % (driver, res[i].get('msg')))
                    got = (kind, res[i].get('msg', ''))
                elif rc == 3:
                    got = ('hang', err[-6000:])
                else:
                    got = ('crash', crash_text(err))
                break
            if got is None:
                if kind == 'mismatch' and racy:
                    got = (kind, msg + '\n(not reproduced alone; the recorded behaviour is decisive)')
                elif kind == 'crash' and re.search(r'^(panic:|fatal error:)', msg, re.M) and re.search('github.com/NVIDIA/vdisc/pkg/(?!zz)', msg):
                    got = (kind, msg + '\n(not reproduced alone)')
                elif kind == 'hang':
                    self.log('case %d was slow once, fine when run alone' % i)
                    continue
                else:
                    lost.append('driver %s case %d: unreproduced %s: %s' % (driver, i, kind, msg[-3000:]))
                    continue
            confirmed.append((i, got))
        if lost and not confirmed:
            raise CheckError(lost[0])
        for i, (kind, msg) in confirmed:
            self.violation('%s on driver %s' % (kind, driver), {'area': area, 'driver': driver, 'case': cases[i], 'env': env or {}, 'mods': mods}, msg)
        if count:
            self.traces += len([1 for i in results if results[i].get('ok')])
        keys = sorted(results)
        for i in [keys[len(keys) * j // nsamples] for j in range(nsamples)] if keys else []:
            self.sample({'driver': driver, 'case': cases[i], 'observed': results[i].get('obs')})
        self.log('driver %s: %d cases, %d not as specified' % (driver, len(results), len(confirmed)))
        if confirmed:
            raise Decided()
        return results

    # ---------------------------------------------------------------- verdicts
    def sample(self, s):
        if len(self.samples) < 6:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 6000 else t[:6000] + '...')

    def violation(self, what, case, msg):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        body = {'property': self.pid, 'what': what, 'case': case, 'message': msg}
        h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.pid, h))
        with open(path, 'w') as fh:
            json.dump(body, fh, indent=1)
        self.violations.append((what, path, msg))

    def finding(self, what):
        """Something that fails as recorded in known_findings.txt; a violation if it is not recorded there."""
        with open(os.path.join(VERIF, 'known_findings.txt')) as fh:
            if 'known: property=%s %s' % (self.pid, what) in fh.read().splitlines():
                self.known.append(what)
                return
        self.violation(what, {}, what)

    def finish(self, level='model_checking'):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for what, path, msg in self.violations:
            print(what)
            print(msg[:3000])
        if self.violations:
            for what, path, msg in self.violations[:3]:
                print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.traces == 0:
            raise CheckError('nothing was checked against the implementation')
        print('HELD property=%s traces=%d wall=%.1fs' % (self.pid, self.traces, time.time() - self.t0))
        return 0


def tla(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(sorted(tla(x) for x in v)) + '}'
    if isinstance(v, (list, tuple)):
        raise CheckError('sequences cannot be written in a cfg; define them in the module')
    if isinstance(v, str):
        return v if v.startswith('@') is False and re.match(r'^[{"\[]|^[A-Za-z0-9_]+$', v) else '"%s"' % v
    raise CheckError('cannot translate %r' % (v,))


def q(s):
    """A TLA+ string literal."""
    return '"%s"' % s
