"""C20: the times the programs report, under clocks that are set, validated against Times.tla."""
from outcomecommon import *
from decompcommon import ndec
import stencilcommon as sc

WRAP = r'''
import sys, runpy, time, os
from mpi4py import MPI
import mpinum
cost, aside, base = (float(x) for x in sys.argv[1].split(',')[3 * MPI.COMM_WORLD.rank:][:3])
sys.argv = sys.argv[2:]
sys.path.insert(0, os.path.dirname(sys.argv[0]))
now, count = [base], [0]
def wtime(): return now[0]
MPI.Wtime = wtime
time.time = time.perf_counter = time.monotonic = time.process_time = wtime
import mpinum.pnGhostedDistArray, mpinum.pnDistArray
seen = set()
for m in (mpinum.pnDistArray, mpinum.pnGhostedDistArray):
    for k in list(vars(m).values()):
        if isinstance(k, type) and 'getData' in vars(k) and k not in seen:
            seen.add(k)
            def wrap(old):
                def getData(*a, **b):
                    now[0] += cost; count[0] += 1
                    return old(*a, **b)
                return getData
            k.getData = wrap(k.getData)
def slow(old):
    def f(*a, **b):
        now[0] += aside
        return old(*a, **b)
    return f
for k in ('gdaZeros', 'gdaOnes', 'gdaArray', 'CubeDecomp'):
    setattr(mpinum, k, slow(getattr(mpinum, k)))
try:
    runpy.run_path(sys.argv[0], run_name='__main__')
finally:
    sys.stdout.flush()
    sys.stdout.write('\nTRANSFERS %d %d\n' % (MPI.COMM_WORLD.rank, count[0])); sys.stdout.flush()
'''


def eighths(t):
    try:
        x = float(t) * 8000
    except ValueError:
        return -1
    return int(round(x)) if abs(x) < 1e9 else -1


def times(out):
    m = re.findall(r'times\s+min\s*/\s*max\s*/\s*avg\s*:\s*(\S+?)\s*/\s*(\S+?)\s*/\s*([^\s/\[]+)', out)
    return [[eighths(x) for x in t] for t in m]


def drawn(rng, np):
    """the cost of a transfer by process, in eighths of a second"""
    how = rng.choice(['one', 'even', 'any', 'any', 'root', 'zero'])
    top = rng.choice([1, 3, 20, 90])
    if how == 'even':
        return [rng.randint(1, top)] * np
    if how == 'one':
        k = rng.randrange(np)
        return [rng.randint(1, top) if r == k else 0 for r in range(np)]
    if how == 'root':
        return [90] + [rng.randint(0, 2) for _ in range(np - 1)]
    return [rng.randint(how == 'zero' and r % 2 == 0 and -top or 1, top) * (how != 'zero' or r % 2) for r in range(np)]


def scen(rng, np, args):
    cost = [abs(x) for x in drawn(rng, np)]
    clk = 'clock %r %s' % (rng.choice([0, 0.125, 7.5, 90]), ' '.join('%r %r' % (rng.choice([0.0, 1e3, 17.25, rng.randint(-10 ** 4, 10 ** 6) / 8]), x / 8) for x in cost))
    ops = sc.prog_scen(np, args, rng.randint(1, 10 ** 6), rng.choice(['lazy', 'rand', 'prio', 'eager']))
    return [ops[0] + ' ' + clk] + ops[1:]


def post(ops, ev):
    w = ops[0].split()
    np, clk = int(w[1]), w[w.index('clock') + 2:]
    out = '\n'.join(sc.prog_out(ops, r) for r in range(np))
    if any(e['e'] in sc.BAD and e['e'] != 'pre' for e in ev):
        return []        # (an abnormal end is another property's)
    tr = [{'e': 'start'}, {'e': 'begin', 'cost': [int(float(x) * 8) for x in clk[1::2][:np]]}]
    tr += [{'e': e['e'], 'r': e['r']} for e in ev if e['e'] in ('get', 'put')]
    n = 0
    for v in times(out):
        tr.append({'e': 'report', 'v': v})
        n += 1
    tr.append({'e': 'end'})
    shutil.rmtree(ops[1].split()[1], ignore_errors=True)
    return tr


def decomposed(n, nd, np):
    return bool(ndec([n] * nd, np))


def python(t):
    args, np, cost, base, wrap = t
    env = ','.join('%r,3.5,%r' % (c / 8, b) for c, b in zip(cost, base))
    r = programs.launch('upwindMPI.py', args, np=np, wrap=[wrap, env])
    m = re.findall(r'Wall clock time[^:\n]*:\s*(\S+)', r.out)
    k = dict((int(a), int(b)) for a, b in re.findall(r'TRANSFERS (\d+) (\d+)', r.out))
    ok = not r.r.crashed and r.rc == 0 and len(k) == np
    r.drop()
    if not ok:
        return None
    return [{'e': 'start'}, {'e': 'begin', 'cost': cost}, {'e': 'passes', 'n': [k[r] for r in range(np)]}] + \
        [{'e': 'own', 'r': 0, 'v': [eighths(x)]} for x in m] + [{'e': 'end'}]


def run_check():
    c = Check('C20')
    c.model('MC_Times', pick('MC_Times_ok.cfg', 'MC_Times_ok3.cfg'))
    for m in ('span', 'root', 'sum', 'early', 'late', 'floor'):
        c.model('MC_Times', 'MC_Times_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    for name, src in (('upwindMpiCxx', 'upwind/cxx/upwindMpi.cxx'), ('laplacian', 'laplacian/cxx/laplacian.cxx')):
        p = sc.prog_driver(c, name, src)
        if not p:
            continue
        if 'MPI_Wtime' not in run(['nm', '-u', os.path.join(scratch('obj_main_' + name), 'main.o')]).out:
            c.degrade('%s does not read the clock of MPI' % name)
            continue
        S = []
        while len(S) < pick(60, 600):
            np, n, nd = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8]), rng.randint(1, 8), rng.randint(1, 3)
            if name == 'upwindMpiCxx':
                nd = 3
                a = [N, n, T, rng.choice([0, 1, 1, 2, 3])]
            else:
                a = [N, n, ND, nd]
            if decomposed(n, nd, np):
                S.append(scen(rng, np, a + rng.choice([[], [], [V]])))
        p.check('Trace_Times', S, post=post, kind=name + ' with clocks that are set')
    if programs.ensure(c, ['upwindMPI.py']):
        w = os.path.join(mkscratch('wrap'), 'wrap.py')
        open(w, 'w').write(WRAP)
        todo = []
        while len(todo) < pick(10, 80):
            np, n = rng.choice([1, 2, 3, 4, 6]), rng.randint(2, 6)
            if decomposed(n, 3, np):
                todo.append(([n, rng.choice([0, 1, 2, 3])] + rng.choice([[], ['vtk']]), np, [abs(x) for x in drawn(rng, np)], [rng.randint(0, 10 ** 5) / 8 for _ in range(np)], w))
        res = [(t, e) for t, e in pmap(lambda t: (t, python(t)), todo, workers=4) if e]
        if len(res) < len(todo):
            c.cov['upwindMPI.py runs without a count of the transfers'] = len(todo) - len(res)
        c.validate('Trace_Times', res, rerun=python, kind='upwindMPI.py with a clock that is set')
    return c.finish()
