"""Scenarios of the upwind solvers and what the checks C06, C07, C08 and C17 share."""
from fractions import Fraction
from vf import *
from harness import Driver, compile_cxx
import programs

LIM = 10 ** 9


def scenario(rng, nds=(1, 2, 3), cap=48, maxdim=6, stats=False, steps=8, dims=None, P=None):
    """A history of one solver: velocities of any sign, any lengths, advances by several steps and time steps."""
    if dims is None:
        while True:
            nd = rng.choice(nds)
            dims = [rng.randint(1, maxdim) for _ in range(nd)]
            n = 1
            for x in dims:
                n *= x
            if n <= cap:
                break
    nd = len(dims)
    n = 1
    for x in dims:
        n *= x
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        D = rng.choice([2, 4, 3, 5, 10] if stats else [2, 3, 4, 5, 7, 8, 10])
        lo = -D if rng.random() < 0.15 and not stats else -max(1, D // nd)
        c = [rng.choice([0, rng.randint(lo, -lo), rng.randint(lo, -lo)]) for _ in range(nd)]
        if stats:
            c = [rng.choice([-2, -1, 0, 1, 2]) for _ in range(nd)]
            while sum(map(abs, c)) > D and rng.random() < 0.7:
                c = [rng.randint(-1, 1) for _ in range(nd)]
        exact = rng.random() < 0.3
        delta = [2.0 ** rng.randint(-4, 4) if exact else rng.uniform(0.001, 30.0) for _ in range(nd)]
        dt0 = 2.0 ** rng.randint(-4, 2) if exact else rng.uniform(1e-4, 3.0)
        v = [(ci / D) * dl / dt0 for ci, dl in zip(c, delta)]
        if stats or rng.random() < 0.8:
            L = [dl * m for dl, m in zip(delta, dims)]
        ops.append('N %d %s %s %s' % (nd, ' '.join(map(str, dims)), ' '.join(repr(x) for x in v), ' '.join(repr(dl * m) for dl, m in zip(delta, dims))))
        if stats:
            ops += ['K', 'T']
        mag, S = 1, 1
        for _ in range(steps):
            p, q = rng.choice([(1, 1), (1, 1), (1, 1), (1, 2), (2, 1), (0, 1), (3, 1)]) if not stats else (1, 1)
            k = rng.choice([0, 1, 1, 1, 2, 3])
            cc_, DD = [x * p for x in c], D * q
            grow = (DD if sum(map(abs, cc_)) <= DD else DD + 2 * sum(map(abs, cc_))) ** k
            if mag * grow * (DD + 2 * sum(map(abs, cc_))) > LIM or S * DD ** k > LIM or (stats and n * mag * grow > 40000):
                break
            mag *= grow
            S *= DD ** k
            ops.append('A %d %r %d %s' % (k, dt0 * p / q, DD, ' '.join(map(str, cc_))))
            if stats:
                ops += rng.choice([['K', 'T'], ['T', 'K'], ['K'], ['T'], ['K', 'T', 'K', 'T']])
    return ops


def nearly(rng, nds, count):
    """Time steps that differ a little from call to call, by parts in twenty to ten thousand."""
    out = []
    for k in range(count):
        m = (20, 100, 1000, 10000)[k % 4]
        D = 4 * m if m < 10000 else 3 * m
        nd = rng.choice(list(nds))
        dims = [rng.randint(1, 4) for _ in range(nd)]
        a = [0] * nd
        for _ in range(2):
            j = rng.randrange(nd)
            a[j] += -1 if a[j] < 0 or not a[j] and rng.random() < 0.5 else 1
        delta = [rng.uniform(0.1, 3) for _ in dims]
        dt = rng.uniform(0.1, 3)
        ks = rng.sample([m - 1, m, m + 1], 3 if m < 1000 else 2)
        out.append([new_op(dims, [x * m / D * dl / dt for x, dl in zip(a, delta)], delta)] +
                   ['A 1 %r %d %s' % (dt * q / m, D, ' '.join(str(x * q) for x in a)) for q in ks])
    return out


def sums(rng, **k):
    """A history with a check sum asked for after every operation."""
    return [o for op in scenario(rng, **k) for o in (op, 'K')]


def levelled(rng, nds, count):
    """Fields that many steps have made nearly uniform."""
    out = []
    for _ in range(count):
        nd = rng.choice(list(nds))
        dims = [rng.randint(1, 5 if nd < 4 else 3) for _ in range(nd)]
        cn = [rng.choice([-1, 1]) * rng.uniform(0.1, 0.9 / nd) for _ in range(nd)]
        ops = [new_op(dims, [x * d for x, d in zip(cn, [0.5] * nd)], [0.5] * nd)]
        for n in rng.sample([0, 3, 10, 30, 60, 100, 150, 250, 400, 700], 5):
            ops += ['B %d 1.0' % n, 'U']
        out.append(ops)
    return out


def lengthy(rng, nds, count, most=None):
    """Many steps of Courant numbers in tenths, every value to nine digits; also very small and very large lengths and times."""
    out = []
    for _ in range(count):
        nd = rng.choice(list(nds))
        while True:
            dims = [rng.randint(1, 6) for _ in range(nd)]
            n = 1
            for x in dims:
                n *= x
            if n <= 30:
                break
        while True:
            c = [rng.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3, 5]) for _ in range(nd)]
            if 0 < sum(map(abs, c)) < 9:
                break
        wide = rng.choice([2, 2, 60, 150])
        delta = [2.0 ** rng.randint(-wide, wide) * rng.uniform(1, 2) for _ in range(nd)]
        dt = 2.0 ** rng.randint(-wide, wide) * rng.uniform(1, 2)
        ops = [new_op(dims, [ci / 10 * d / dt for ci, d in zip(c, delta)], delta)]
        left = rng.choice([10, 40, most or pick(90, 220)])
        while left > 0:
            k = rng.randint(1, left)
            p = rng.choice([p for p in (1, 1, 2, 3) if p * sum(map(abs, c)) < 10])
            ops.append('E %d %r %s' % (k, p * dt, ' '.join(str(p * x) for x in c)))
            left -= k
        out.append(ops)
    return out


def new_op(dims, v, delta):
    return 'N %d %s %s %s' % (len(dims), ' '.join(map(str, dims)), ' '.join(map(repr, v)), ' '.join(repr(d * m) for d, m in zip(delta, dims)))


def long_runs(rng, count, nds, maxn=120, maxstep=27):
    """Many steps, in one call and in several: pure translation along one axis (D = 1) or halving (D = 2)."""
    out = []
    for k in range(count):
        nd = rng.choice(list(nds))
        dims = [rng.randint(1, 5) for _ in range(nd)]
        a = rng.randrange(nd)
        sg = rng.choice([-1, 1])
        D = rng.choice([1, 1, 2])
        c = [0] * nd
        c[a] = sg
        if D == 2 and nd > 1 and rng.random() < 0.5:
            c[(a + 1) % nd] = rng.choice([-1, 1])
        delta = [2.0 ** rng.randint(-3, 3) for _ in range(nd)]
        dt = 2.0 ** rng.randint(-3, 3)
        ops = [new_op(dims, [ci / D * d / dt for ci, d in zip(c, delta)], delta)]
        left = maxn if D == 1 else maxstep
        while left > 0:
            n = min(left, rng.choice([left, rng.randint(1, left), rng.randint(1, 20)]))
            ops.append('A %d %r %d %s' % (n, dt, D, ' '.join(map(str, c))))
            left -= n
            if rng.random() < 0.3:
                break
        out.append(ops)
    return out


def large(rng, shapes):
    """Grids of thousands of cells, few steps."""
    out = []
    for dims in shapes:
        nd = len(dims)
        c = [rng.choice([-1, 1, 2, -2]) for _ in dims]
        delta = [rng.uniform(0.01, 2) for _ in dims]
        dt = rng.uniform(0.01, 2)
        D = 10
        ops = [new_op(dims, [ci / D * d / dt for ci, d in zip(c, delta)], delta)]
        ops += ['A %d %r %d %s' % (n, dt, D, ' '.join(map(str, c))) for n in (1, 2)]
        out.append(ops)
    return out


def wide(rng, nds, count, cells=66000):
    """Grids of more cells than 16 bits count, few of them not zero."""
    out = []
    for k in range(count):
        nd = rng.choice([n for n in nds if n > 1] or [1]) if k else max(nds)
        dims = [rng.choice([1, 2, 3, 7, 16, 17, 30, 41, 64, 257, 300]) for _ in range(nd - 1)]
        while True:
            n = 1
            for x in dims:
                n *= x
            if n <= 20000:
                break
            k2 = rng.randrange(len(dims))
            dims[k2] = max(1, dims[k2] // 2)
        dims.insert(rng.randrange(nd), cells // n + rng.randint(1, 9))
        D = rng.choice([1, 3, 8, 10])
        if D == 1:
            a = rng.randrange(nd)
            c = [0] * nd
            c[a] = rng.choice([-1, -1, 1])
        else:
            c = [rng.choice([-1, -1, 0, 1]) for _ in range(nd)]
        delta = [rng.uniform(0.01, 2) for _ in dims] if D > 1 else [0.5] * nd
        dt = rng.uniform(0.01, 2) if D > 1 else 0.25
        ops = ['Z' + new_op(dims, [ci / D * d / dt for ci, d in zip(c, delta)], delta)[1:]]
        ops += ['A %d %r %d %s' % (n, dt, D, ' '.join(map(str, c))) for n in ((1, 2, 1, 1) if D > 1 else (1, 3, rng.randint(3, 40)))]
        out.append(ops)
    return out


def all_signs(nds=(1, 2, 3), sizes=(1, 2, 3)):
    """every sign pattern on small grids, also with axes of one and two cells"""
    import itertools
    out = []
    for nd in nds:
        for sg in itertools.product((-1, 0, 1), repeat=nd):
            dims = [sizes[(k * 2 + sum(sg) + nd) % len(sizes)] + (1 if k == 0 else 0) for k in range(nd)]
            D = 8
            c = [s * (k + 1) for k, s in enumerate(sg)]
            delta = [0.25 * (k + 1) for k in range(nd)]
            v = [ci / D * d / 0.5 for ci, d in zip(c, delta)]
            out.append(['N %d %s %s %s' % (nd, ' '.join(map(str, dims)), ' '.join(map(repr, v)), ' '.join(repr(d * m) for d, m in zip(delta, dims))),
                        'A 1 0.5 8 ' + ' '.join(map(str, c)), 'A 3 0.5 8 ' + ' '.join(map(str, c)), 'A 2 0.5 8 ' + ' '.join(map(str, c))])
    return out


def cxx_driver(check, name, src, mind, maxd, omp=False, env=None, flags=()):
    return Driver(check, name, [os.path.join(HARN, 'upwind_cxx.cpp')] + [repo('cxx', f) for f in ('CmdLineArgParser.cpp',)],
                  alt=[os.path.join(HARN, 'upwind_cxx.cpp')] + libsources(exclude=('Filter.cpp',)),
                  flags=['-DSOLVER="%s"' % repo(src), '-DMIND=%d' % mind, '-DMAXD=%d' % maxd] + (['-fopenmp', '-DHAVE_OPENMP'] if omp else []) + list(flags), env=env)


CXX = [('upwind.cxx', 'upwind/cxx/upwind.cxx', 1, 5, True), ('upwindOMPTasks.cxx', 'upwind/cxx/upwindOMPTasks.cxx', 1, 5, True),
       ('upwindOMP5.cxx', 'upwind/cxx/upwindOMP5.cxx', 3, 3, True),
       ('upwindAcc.cxx', 'upwind/cxx/upwindAcc.cxx', 3, 3, False), ('upwindAcc2.cxx', 'upwind/cxx/upwindAcc2.cxx', 3, 3, False)]


def fortran_driver(check, name, src, env=None, flags=('-fopenmp', '-DHAVE_OPENMP'), probe=False):
    """The module of a Fortran program behind a C interface."""
    d = mkscratch('f_' + name.replace(' ', '_'))
    exe = os.path.join(d, 'drv')
    try:
        src = repo(src)
        if '-fopenacc' in flags:     # gfortran does not see indented preprocessor lines
            t = re.sub(r'(?m)^[ \t]+#', '#', open(src).read())
            src = os.path.join(d, 'src.F90')
            open(src, 'w').write(t)
        cc(['gfortran'] + FFLAGS + list(flags) + ['-J', d, '-c', src, '-o', d + '/prog0.o'], name)
        cc(['objcopy', '--redefine-sym', 'main=solver_main', '--redefine-sym', 'MAIN__=solver_MAIN__', d + '/prog0.o', d + '/prog.o'], name)
        cc(['gfortran'] + FFLAGS + list(flags) + ['-I', d, '-J', d, '-c', os.path.join(HARN, 'upwind_fortran_shim.F90'), '-o', d + '/shim.o'], name)
        cc(['g++'] + CXXFLAGS + ['-I' + HARN, '-c', os.path.join(HARN, 'upwind_fortran.cpp'), '-o', d + '/drv.o'], name)
        cc(['g++'] + [f for f in flags if f.startswith('-f')] + [d + '/drv.o', d + '/shim.o', d + '/prog.o', '-lgfortran', '-o', exe], name)
    except BuildFailed as x:
        check.degrade('harness %s does not build: %s' % (name, str(x)[-1200:]))
        return None
    return Driver(check, name, cmd=[exe], env=env)


FORTRAN_VARIANTS = [('upwindF08Gpu.F90 offload', 'upwind/fortran/upwindF08Gpu.F90', ('-fopenmp', '-DHAVE_OPENMP_OFFLOAD')),
                    ('upwindF08Gpu.F90 acc', 'upwind/fortran/upwindF08Gpu.F90', ('-fopenacc', '-DHAVE_OPENACC')),
                    ('upwindF08Gpu.F90 acc kernels', 'upwind/fortran/upwindF08Gpu.F90', ('-fopenacc', '-DHAVE_OPENACC', '-DHAVE_OPENACC_KERNELS')),
                    ('upwindF08Gpu.F90 serial', 'upwind/fortran/upwindF08Gpu.F90', ())]
FORTRAN = [('upwind.F90', 'upwind/fortran/upwind.F90'), ('upwindF03.F90', 'upwind/fortran/upwindF03.F90'),
           ('upwindF08.F90', 'upwind/fortran/upwindF08.F90'), ('upwindF08Gpu.F90', 'upwind/fortran/upwindF08Gpu.F90')]


def run_program(name, n, steps, np=1, threads=None):
    """One run of a program as the events of Trace_Upwind (initial file where there is one, and the final field)."""
    r = programs.launch(name, programs.upwind_args(name, n, steps, vtk=True), np=np, threads=threads)
    ev = [{'e': 'start'}]
    S = 10 ** steps
    for f, k in ((('up0.vtk', 0),) if 'up1.vtk' == programs.PROGS[name][2] else ()) + ((programs.PROGS[name][2], steps),):
        v = programs.vtk_values(r.file(f))
        if v is None:
            ev.append({'e': 'nofile', 'file': f, 'rc': r.rc, 'err': r.err[-300:]})
            continue
        s = 10 ** k
        F = [int(round(x * s)) if abs(x * s) < 2e9 else -1 for x in v]
        res = max([abs(x * s - y) for x, y in zip(v, F)] + [0])
        ev.append({'e': 'fin', 'dims': [n] * 3, 'n': k, 'c': [1, 1, 1], 'D': 10, 'F': F, 'r': min(9999, int(res * 1000)), 'w': 1 + k * n ** 3 // 8})
    r.drop()
    return ev


def program_level(check, names, runs, prop='field'):
    names = programs.ensure(check, names)
    todo = [(nm, n, s, np, th) for nm in names for (n, s, np, th) in runs(nm)]
    res = pmap(lambda t: (t, run_program(*t)), todo, workers=4)
    log('ran', len(todo), 'program runs')
    check.validate('Trace_Upwind', res, rerun=lambda t: run_program(*t), kind='program runs', env={'PROP': prop})


def py_driver(c, np=None):
    d = repo('upwind', 'python')
    cmd = [VENV_PY, '-B', os.path.join(HARN, 'upwind_py.py'), d]
    env = {'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
    if np:
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(np)] + cmd + ['mpi']
        env['OMPI_MCA_mpi_yield_when_idle'] = '1'
    return Driver(c, 'upwindMPI.py np=%d' % np if np else 'upwind.py', cmd=cmd, env=env, timeout=pick(120, 600))
