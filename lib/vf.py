"""Common machinery of the checks: scratch directory, builds, TLC runs, trace validation, verdicts."""
import atexit, concurrent.futures, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = os.cpu_count() or 4
T0 = time.time()


def pick(quick, thorough):
    return thorough if THOROUGH else quick


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- environment
def _env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'],
                         stdout=subprocess.PIPE).stdout.decode(errors='replace')
    e = dict(x.split('=', 1) for x in out.split('\0') if '=' in x)
    e['LC_ALL'] = 'C'
    e.pop('OMP_NUM_THREADS', None)
    e['OMP_WAIT_POLICY'] = 'passive'
    return e


ENV = _env()
VENV_PY = '/opt/vp/venv/bin/python'

_scratch = None
_procs = set()


def scratch(*sub):
    """A path in the scratch directory of this run (removed at exit)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf_', dir=os.environ.get('VERIF_TMP', '/tmp'))
        atexit.register(_cleanup)
        for s in (signal.SIGTERM, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(3))
    p = os.path.join(_scratch, *[str(s) for s in sub])
    return p


def _cleanup():
    for p in list(_procs):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    if _scratch and _scratch.startswith(os.environ.get('VERIF_TMP', '/tmp') + '/vf_'):
        if os.environ.get('VERIF_KEEP'):
            print('kept', _scratch, file=sys.stderr)
        else:
            shutil.rmtree(_scratch, ignore_errors=True)


def mkscratch(*sub):
    p = scratch(*sub)
    os.makedirs(p, exist_ok=True)
    return p


scratch()     # made by the main thread
resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))     # code that fails may write without end


class Result:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return self.timeout or self.rc < 0 or self.rc >= 128

    def describe(self):
        return 'timeout' if self.timeout else 'exit status %d' % self.rc


def run(cmd, inp=None, timeout=120, cwd=None, env=None, merge_env=None):
    """Run a command in its own process group with a time limit."""
    e = dict(ENV if env is None else env)
    if merge_env:
        e.update(merge_env)
    fo, fe = tempfile.TemporaryFile(dir=mkscratch('io')), tempfile.TemporaryFile(dir=mkscratch('io'))     # (files, which have a limit of size)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         stdout=fo, stderr=fe, cwd=cwd or mkscratch('cwd'),
                         env=e, start_new_session=True)
    _procs.add(p)
    to = False
    try:
        p.communicate(inp.encode() if isinstance(inp, str) else inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
    _procs.discard(p)
    out, err = [], []
    for f, o in ((fo, out), (fe, err)):
        f.seek(0)
        o.append(f.read(1 << 28))
        f.close()
    out, err = out[0], err[0]
    return Result(p.returncode, out.decode(errors='replace'), err.decode(errors='replace'), to)


def pmap(f, xs, workers=None):
    xs = list(xs)
    if not xs:
        return []
    with concurrent.futures.ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------- builds
CXXFLAGS = ['-std=c++17', '-O2', '-g1', '-w']
FFLAGS = ['-O2', '-g1', '-w', '-cpp', '-D_THREADS_PER_TEAM=32', '-D_TEAMS=64']


class BuildFailed(Exception):
    pass


def cc(cmd, what=''):
    r = run(cmd, timeout=300)
    if r.rc != 0:
        raise BuildFailed('%s: %s\n%s' % (what, ' '.join(cmd), r.err[-3000:]))


def repo(*p):
    return os.path.join(REPO, *p)


def libsources(exclude=()):
    d = repo('cxx')
    return [os.path.join(d, f) for f in sorted(os.listdir(d))
            if f.endswith(('.cpp', '.cxx', '.cc')) and f not in exclude]


# ---------------------------------------------------------------- TLC
class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self, r, wall):
        self.raw = r.out + r.err
        self.timeout = r.timeout
        self.rc = r.rc
        self.wall = wall
        m = re.findall(r'(\d[\d,]*) states generated(?: \([^)]*\))?,? (\d[\d,]*) distinct states found', self.raw)
        self.states, self.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        if not m:
            m2 = re.findall(r'(\d[\d,]*) states checked', self.raw)
            if m2:
                self.states = self.distinct = int(m2[-1].replace(',', ''))
        self.ok = 'Model checking completed. No error has been found' in self.raw
        self.violated = re.search(r'(Invariant|Action property|Temporal properties|property) ?(\S*) ?(is|was|were) violated', self.raw) is not None \
            or 'Deadlock reached' in self.raw


def tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap='2g', moddir=None):
    """Run TLC on spec/<module>.tla in a private metadir."""
    cfg = cfg or module + '.cfg'
    meta = tempfile.mkdtemp(prefix='meta_', dir=mkscratch('tlc'))
    d = moddir or SPEC
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % (2 if workers == 1 else 4), '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + meta,
           '-cp', JAR, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-nowarning',
           '-workers', str(workers), '-config', os.path.join(d, cfg)] + list(extra) + [os.path.join(d, module + '.tla')]
    e = dict(ENV)
    e['PATH'] = os.environ.get('PATH', e.get('PATH', ''))
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t = time.time()
    r = run(cmd, timeout=timeout, cwd=meta, env=e)
    res = TLCResult(r, time.time() - t)
    shutil.rmtree(meta, ignore_errors=True)
    return res


# ---------------------------------------------------------------- verdicts
class Check:
    """Collects what a check explored and ends with the verdict."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        Check.latest = self
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.violations = []
        self.notes = []
        self.cov = {}
        self.degraded = []
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))
        self.srng = random.Random(SEED)      # (its own, so that the scenarios do not depend on what was validated before)
        self.kinds = {}
        self.crashes = 0

    # -- design models
    def model(self, module, cfg=None, workers=NCPU, timeout=600, env=None, expect_violation=False, name=None, heap='4g', extra=()):
        r = tlc(module, cfg, workers=workers, timeout=timeout, env=env, heap=heap, extra=extra)
        name = name or (cfg or module)
        if expect_violation:
            if not r.violated:
                raise TLCError('mutant %s does not violate its invariant:\n%s' % (name, r.raw[-3000:]))
        elif not r.ok:
            raise TLCError('design model %s failed:\n%s' % (name, r.raw[-3000:]))
        self.states += r.distinct
        self.transitions += r.states
        self.models.append({'model': name, 'distinct_states': r.distinct, 'states_generated': r.states,
                            'wall_s': round(r.wall, 1), 'mutant_rejected': bool(expect_violation)})
        log('model', name, r.distinct, 'distinct', '%.1fs' % r.wall)
        return r

    # -- trace validation
    def validate(self, module, scenarios, describe=None, rerun=None, chunks=None, kind=None, cfg=None, timeout=600, env=None, again=None):
        """scenarios: list of (input, events); events: list of dicts; the first is the start event.
        TLC replays every scenario against the specification and reports the rejected ones.
        rerun(input) -> events reproduces a scenario; only rejections that repeat are reported.
        again(input) -> events reproduces it after what ran before it in the same process."""
        kind = kind or module
        scenarios = [s for s in scenarios if s[1]]
        if not scenarios:
            return
        rej, st, tr = self._validate(module, scenarios, chunks, cfg, timeout, env)
        self.states += st
        self.transitions += tr
        self.traces += len(scenarios)
        self.events += sum(len(s[1]) for s in scenarios)
        self.kinds[kind] = self.kinds.get(kind, 0) + len(scenarios)
        if len(self.samples) < 6:
            i = self.srng.randrange(len(scenarios))
            self.samples.append({'kind': kind, 'input': _short(scenarios[i][0]), 'events': _short(scenarios[i][1][:4])})
        confirmed = lost = 0
        for i, line, why in rej[:20]:
            if confirmed >= 4 or (confirmed and time.time() - T0 > 300):
                break
            inp, ev = scenarios[i]
            if rerun is not None:
                how, rej2 = '', None
                for k, f in enumerate([rerun] + ([again or rerun, rerun] if lost < 3 else [])):
                    ev2 = f(inp)
                    if ev2 is None:
                        continue
                    rej2, _, _ = self._validate(module, [(inp, ev2)], 1, cfg, timeout, env)
                    if rej2:
                        how = ' (after other scenarios in the same process)' if f is again else ''
                        i, line, why = 0, rej2[0][1], rej2[0][2] + how
                        ev = ev2
                        break
                if rej2 == []:
                    lost += 1
                    self.notes.append('a rejection of %s did not repeat: %s' % (kind, _short(inp, 300)))
                    log('rejection did not repeat', kind, _short(inp, 300))
                    continue
            confirmed += 1
            self.violation(kind, inp, 'specification %s rejects event %d (%s): %s' %
                           (module, line, why, _short(ev[line] if line < len(ev) else None, 1500)),
                           {'events': ev[:line + 1]})

    def _validate(self, module, scenarios, chunks, cfg, timeout, env):
        total = sum(len(s[1]) for s in scenarios)
        n = chunks or max(1, min(NCPU, total // 400 + 1, len(scenarios)))
        order = sorted(range(len(scenarios)), key=lambda k: -_weight(scenarios[k][1]))
        parts = [[] for _ in range(n)]
        load = [0] * n
        for k in order:
            j = load.index(min(load))
            parts[j].append(k)
            load[j] += _weight(scenarios[k][1]) + 1
        parts = [p for p in parts if p]
        broken = []

        def one(part):
            f = tempfile.mkstemp(prefix='trace_', suffix='.ndjson', dir=mkscratch('traces'))[1]
            where = []
            with open(f, 'w') as o:
                for k in part:
                    for m, e in enumerate(scenarios[k][1]):
                        o.write(json.dumps(e, separators=(',', ':')) + '\n')
                        where.append((k, m))
            ee = {'TRACE': f}
            ee.update(env or {})
            r = tlc(module, cfg, env=ee, timeout=timeout, heap='3g')
            if not os.environ.get('VERIF_KEEP'):
                os.unlink(f)
            if not r.ok and not r.timeout and not re.search(r'OutOfMemory|insufficient memory', r.raw) and os.path.exists(os.path.join(SPEC, module + '.tla')):
                # what was recorded is not even of the kind the specification speaks of: find the scenario
                if len(part) > 1:
                    a, b = part[:len(part) // 2], part[len(part) // 2:]
                    x = one(a)
                    y = one(b) if len(broken) < 3 else ([], 0, 0)
                    return x[0] + y[0], x[1] + y[1], x[2] + y[2]
                if 'StackOverflowError' in r.raw:
                    self.degrade('TLC has no stack for a scenario: ' + _short(scenarios[part[0]][0], 200))
                    return [], 0, 0
                if r.raw.count('Parsing file') and 'Starting...' in r.raw:
                    broken.append(part[0])
                    at = [int(x) for x in re.findall(r'^/\\ l = (\d+)', r.raw, re.M)]
                    err = re.search(r'Error: ((?:.|\n){0,400})', r.raw)
                    log('specification', module, 'cannot evaluate', _short(scenarios[part[0]][0], 200), err and err.group(1)[:400])
                    return [(part[0], min(max(at + [1]) - 1, len(where) - 1), 'not a value of the specification')], max(at + [1]), max(at + [1])
            if not r.ok:
                raise TLCError('trace specification %s failed on %s:\n%s' % (module, f, r.raw[:3000]))
            if r.distinct != len(where) + 1:
                raise TLCError('trace specification %s consumed %d of %d lines' % (module, r.distinct - 1, len(where)))
            out = []
            for m in re.finditer(r'<<"REJ", (\d+), "([^"]*)">>', r.raw):
                k, ln = where[int(m.group(1)) - 1]
                out.append((k, ln, m.group(2)))
            return out, r.distinct, r.states

        rej, st, tr = [], 0, 0
        for o, a, b in pmap(one, parts, workers=NCPU):
            rej += o
            st += a
            tr += b
        rej.sort()
        return rej, st, tr

    def violation(self, kind, inp, what, extra=None):
        self.violations.append({'kind': kind, 'input': inp, 'what': what, 'extra': extra})
        log('VIOLATION', kind, _short(inp, 400), what[:1500])

    def degrade(self, what):
        self.degraded.append(what)
        log('degraded:', what[:2000])

    # -- end
    def finish(self):
        known = load_known(self.pid)
        outdir = os.path.join(VERIF, 'out', self.pid)
        shutil.rmtree(outdir, ignore_errors=True)
        shown, new = {}, []
        for v in self.violations:
            key = '%s|%s' % (v['kind'], v['input'] if isinstance(v['input'], str) else json.dumps(v['input'], sort_keys=True))
            k = next((t for (pat, t) in known if pat in key), None)
            if k:
                shown[k] = 1
            else:
                new.append(v)
        for k in shown:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        replay = None
        if new:
            os.makedirs(outdir, exist_ok=True)
            for i, v in enumerate(new[:10]):
                p = os.path.join(outdir, 'replay-%d.json' % i)
                with open(p, 'w') as f:
                    json.dump({'property': self.pid, 'seed': SEED, 'tier': TIER, **v}, f, indent=1, default=str)
                replay = replay or p
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'trace_events': self.events,
               'traces_by_kind': self.kinds, 'design_models': self.models, 'samples': self.samples or ['none']}
        cov.update(self.cov)
        if self.degraded:
            cov['degraded'] = self.degraded
        if self.notes:
            cov['notes'] = self.notes
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - T0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        log('done: %d states, %d traces, %d violations' % (self.states, self.traces, len(new)))
        if new:
            for v in new[:5]:
                print('  %s: %s' % (v['kind'], v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.relpath(replay, VERIF)))
            sys.stdout.flush()
            return 1
        print('OK property=%s states=%d traces=%d' % (self.pid, self.states, self.traces))
        return 0


def _weight(events):
    return sum(e.get('w', 1) for e in events)


def _short(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, default=str, separators=(',', ':'))
    return s if len(s) <= n else s[:n] + '...'


def load_known(pid):
    """known_findings.txt: 'known: property=<id> match=<text>  <what fails>' entries suppress; 'fixed:' ones do not."""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=<<(.*?)>> (.*)', l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3).strip()))
    return res


def events_of(r):
    """ndjson lines of a harness run, grouped by scenario id 'sc'."""
    by = {}
    for l in r.out.splitlines():
        if l.startswith('{'):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            by.setdefault(e['sc'], []).append(e)
    return by
