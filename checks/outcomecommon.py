"""Runs of the programs as traces of Outcome.tla."""
from vf import *
import programs

N, T, V, STD, ND, H = '-numCells', '-numSteps', '-vtk', '-std', '-numDims', '-h'
BASIC = [(N, 'i', 128), (T, 'i', 10), (V, 'b', False), (H, 'b', False)]
OPTS = {p: BASIC + ([(STD, 'b', False)] if p in ('upwindCxx', 'upwindOMPTasksCxx', 'upwindOMP5Cxx', 'upwindAcc2Cxx') else [])
        for p in programs.SERIAL_UPWIND + programs.MPI_UPWIND if programs.lang(p).startswith('cxx')}
OPTS['laplacian'] = [(N, 'i', 8000), (ND, 'i', 2), (V, 'b', False), (H, 'b', False)]
MPI = ('upwindMpiCxx', 'upwindMPI.py', 'laplacian')
ALL = programs.SERIAL_UPWIND + programs.MPI_UPWIND + ['laplacian']


def codes(s):
    return [ord(x) for x in str(s)]


def req(name, args, np):
    opt = name in OPTS
    return {'e': 'req', 'fam': 'opt' if opt else 'pos', 'args': [codes(a) for a in args], 'np': np, 'mpi': name in MPI,
            'opts': [{'n': codes(n), 'k': k, 'v': v} for n, k, v in OPTS[name]] if opt else [],
            'nd0': 3, 'file': programs.PROGS[name][2], 'w': 5}


NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eEdD][-+]?\d+)?|[-+]?nan|[-+]?inf(?:inity)?'
SUMLINE = re.compile(r'check\s*-?sums?\b(.*)$', re.I)
REFUSAL = re.compile(r'not a valid|invalid|error|must specify|no valid|no uniform|cannot|unknown|unrecogni|not recogni|usage', re.I)


def milli(t):
    try:
        x = float(t.replace('d', 'e').replace('D', 'e')) * 1e6
    except ValueError:
        return -1
    return int(round(x)) if abs(x) < 1e9 else -1


def say(name, out, err):
    """the significant lines"""
    ev = []
    for line in out.splitlines():
        m = SUMLINE.search(line)
        if m:
            v = [milli(t) for t in re.findall(NUM, m.group(1), re.I)]
            it = re.match(r'\s*iter', line, re.I)
            ev.append({'e': 'isum' if it else 'sum', 'v': v or [-1]})
            continue
        m = re.match(r'\s*(?:number of cells|global dimensions)\s*:(.*)$', line, re.I)
        if m:
            ev.append({'e': 'cells', 'v': [int(t) for t in re.findall(r'-?\d+', m.group(1))]})
        m = re.match(r'\s*number of time steps\s*:\s*(-?\d+)\s*$', line, re.I)
        if m:
            ev.append({'e': 'steps', 'v': int(m.group(1))})
    both = out + '\n' + err
    described = [re.compile(r'\s*%s\b' % re.escape(n)) for n, _, _ in OPTS.get(name, [])]      # lines of the help text
    if any(REFUSAL.search(l) for l in both.splitlines() if not any(d.match(l) for d in described)):
        ev.append({'e': 'refuse'})
    for n, _, _ in OPTS.get(name, []):
        if re.search(r'(?<![\w-])' + re.escape(n) + r'\b', both):
            ev.append({'e': 'name', 'n': codes(n)})
    return ev


def record(t, values=False):
    """(program, arguments, processes, threads) -> trace"""
    name, args, np, threads = t[:4]
    r = programs.launch(name, args, np=np, threads=threads, timeout=t[4] if len(t) > 4 else 60)
    ev = [{'e': 'start'}, req(name, args, np)] + say(name, r.out, r.err)
    for f in r.files:
        ev.append({'e': 'file', 'n': f})
    if values:
        for f in r.files:
            v = programs.vtk_values(r.file(f))
            if v is None or not v:
                ev.append({'e': 'vals', 'lo': -10 ** 9, 'hi': 10 ** 9})
            else:
                q = [milli(repr(x)) for x in v]
                ev.append({'e': 'vals', 'lo': min(q), 'hi': max(q)})
    ev.append({'e': 'end', 'ended': not r.r.crashed, 'rc': abs(r.rc)})
    r.drop()
    return ev


def describe(t):
    return '%s %s, %s processes, %s threads' % (t[0], ' '.join(map(str, t[1])), t[2], t[3] or 'default')


def validate(c, todo, prop, values=False, kind='program runs', workers=6):
    res = pmap(lambda t: (t, record(t, values)), todo, workers=workers)
    log('ran', len(todo), 'programs')
    before = len(c.violations)
    c.validate('Trace_Outcome', res, rerun=lambda t: record(t, values), kind=kind, env={'PROP': prop})
    for v in c.violations[before:]:
        if not isinstance(v['input'], str):
            v['input'] = describe(v['input'])
