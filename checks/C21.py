"""C21: the memory that the code under test is given, recorded by an allocator of our own, validated against Heap.tla."""
from upwindcommon import *
import stencilcommon as sc_

WRAP = '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'
TSAN = ['-O1', '-fsanitize=thread']
# what lies on the stack before it is set is a pattern, too
PAT, FPAT = ['-ftrivial-auto-var-init=pattern'], ['-finit-integer=-1999999999', '-finit-real=nan']


def runtime():
    o = scratch('heaprt.o')
    cc(['g++'] + CXXFLAGS + ['-c', os.path.join(HARN, 'heaprt.cpp'), '-o', o], 'heaprt')
    return [o, WRAP]


def build(c, name, rt, cxx=(), alt=None, flags=(), incs=(), fortran=None, shim=None, ff=(), plain=(), libs=(), main=None):
    """a harness whose sources (cxx; or a Fortran program behind a shim) are instrumented"""
    d = mkscratch('h_' + re.sub(r'\W', '_', name))

    def one(srcs):
        objs = []
        for k, s in enumerate(srcs):
            o = '%s/%d.o' % (d, k)
            cc(['g++'] + CXXFLAGS + (TSAN + PAT if s not in plain else []) + list(flags) + ['-I' + HARN, '-I' + repo('cxx')] + list(incs) + ['-c', s, '-o', o], name)
            if s == main:     # (renamed in the object: a main may end without a return, another function may not)
                cc(['objcopy', '--redefine-sym', 'main=prog_main', o, o + 'm'], name)
                o += 'm'
            objs.append(o)
        if fortran:
            cc(['gfortran'] + FFLAGS + TSAN + FPAT + list(ff) + ['-J', d, '-c', repo(fortran), '-o', d + '/p0.o'], name)
            cc(['objcopy', '--redefine-sym', 'main=prog_main', '--redefine-sym', 'MAIN__=solver_MAIN__', d + '/p0.o', d + '/p.o'], name)
            objs.append(d + '/p.o')
            if shim:
                cc(['gfortran'] + FFLAGS + list(ff) + ['-I', d, '-J', d, '-c', os.path.join(HARN, shim), '-o', d + '/s.o'], name)
                objs.append(d + '/s.o')
        cc(['g++'] + objs + rt + (['-fopenmp'] if '-fopenmp' in list(flags) + list(ff) else []) + list(libs) + (['-lgfortran'] if fortran else []) + ['-lpthread', '-o', d + '/drv'], name)
    err = None
    for s in [cxx] + ([alt] if alt else []):
        try:
            one(list(s))
            return Driver(c, name, cmd=[d + '/drv'], env={'OMP_NUM_THREADS': '1'})
        except BuildFailed as x:
            err = err or str(x)
    c.degrade('%s does not build with the recording allocator: %s' % (name, err[-1200:]))
    return None


def heaps(ops, ev):
    # (s: 1000 + exit status, or a signal; to end with an ordinary status, as after a wrong option, is a program's right)
    bad = lambda e: e['e'] in ('heap', 'held') or e['e'] == 'dead' and not 1000 <= e.get('s', 0) < 1128
    return [{'e': 'start'}] + [e if bad(e) else {'e': 'run'} for e in ev if e['e'] != 'start']


def rounds(ops, n=6):
    """a history repeated, with a mark after every round"""
    return (list(ops) + ['L']) * n


def judge(c, d, spec, scen, own=None, env=None, parts=None):
    """runs the histories: the memory against Heap, the results against their own specification"""
    if not d or not d.ok or c.crashes >= 2:
        return
    res = d.gather(scen, parts)
    d.check('Trace_Heap', scen, res=res, kind=d.name + ': memory', post=heaps)
    if spec:
        post = sc_.stencil_post if own == 'filter' else lambda ops, ev: [e for e in ev if e['e'] != 'heap' and (own is None or e['e'] in own)]
        d.check(spec, scen, res=res, kind=d.name + ': results', post=post, env=env or {})


def upwinds(rng, nds, quick):
    scen = all_signs(nds) if not THOROUGH else all_signs(nds) + all_signs(nds, (1, 3, 4))
    if quick:
        scen = rng.sample(scen, min(len(scen), 30))
    scen += [scenario(rng, nds=nds, cap=150, maxdim=9) for _ in range(pick(12, 200))]
    for nd in nds:             # one solver stepped again and again; solvers made again and again; the same with files
        for _ in range(pick(1, 6)):
            dims = [rng.randint(1, 6) for _ in range(nd)]
            delta = [rng.uniform(0.1, 2) for _ in dims]
            make = new_op(dims, [rng.choice([-1, 1]) * 0.2 * x for x in delta], delta)
            f = os.path.join(mkscratch('v21'), 'f%d.vtk' % rng.randrange(10 ** 9))
            step = 'B %d 0.5' % rng.choice([1, 2, 5])
            scen += [[make] + rounds([step]), rounds([make, step, step]), rounds([make, 'V ' + f]), [make] + rounds([step, 'V ' + f])]
            scen += [rounds([make, 'K', 'T'])]
    return scen


def iters(rng):
    out = []
    for _ in range(pick(60, 800)):
        ops, N = [], None
        for _ in range(rng.randint(3, 10)):
            if N is None or rng.random() < 0.3:
                nd = rng.randint(1, 5)
                lo = [rng.choice([0, 0, 1, 5]) for _ in range(nd)]
                hi = [a + rng.randint(1, 4) for a in lo]
                N = prod(b - a for a, b in zip(lo, hi))
                ops.append(' '.join(map(str, [rng.choice('BC'), nd, rng.randint(0, 1)] + lo + hi)))
            ops.append(rng.choice(['b', 'm %d' % rng.randrange(N), 'w', 'e', 'b']))
        out.append(ops)
    for rm in (0, 1):
        for o in 'BC':
            k = 'C 3 %d 0 0 0 3 2 4' % rm
            out += [[k] + rounds([o + k[1:], 'w', 'm 5', 'b']), [k] + rounds(['w', 'm 3', 'b'])]
    return out


def prod(x):
    n = 1
    for y in x:
        n *= y
    return n


def decs(rng):
    out = []
    for _ in range(pick(50, 600)):
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            dims = [rng.choice([1, 2, 3, 4, 6, 8, 12]) for _ in range(rng.randint(1, 4))]
            ops.append('%s %d %d %s' % (rng.choice('BBC'), rng.randint(1, 12), len(dims), ' '.join(map(str, dims))))
        out.append(ops)
    for o in 'BC':
        out += [['C 1 2 1 1'] + rounds([o + ' 4 2 4 6', o + ' 5 2 4 6', o + ' 6 2 4 6'])]
    return out


def lines(rng):
    hx = lambda t: t.encode('latin1').hex() or '-'
    out = []
    word = lambda n: ''.join(rng.choice('abcdefgXYZ_') for _ in range(n))
    for _ in range(pick(60, 800)):
        opts, ops = {}, []
        for k in range(rng.choice([0, 1, 3, 6, 20])):
            n = '-' + word(rng.choice([1, 3, 9, 40])) + 'n%d' % k
            opts[n] = rng.choice('idsb')
            ops.append('D %s %s %s %s' % (opts[n], hx(n), hx({'i': '7', 'd': '2.5', 's': word(rng.choice([1, 30])), 'b': rng.choice('01')}[opts[n]]), hx(word(rng.choice([1, 20, 80])))))
        for _ in range(rng.choice([1, 2])):
            args = []
            for n in rng.sample(list(opts), rng.randint(0, len(opts))):
                args += [n] + ([] if opts[n] == 'b' else [{'i': str(rng.randint(-999, 999)), 'd': '-.5', 's': word(rng.choice([1, 15, 16, 40]))}[opts[n]]])
            args += rng.choice([[], [], ['-h'], ['12', 'pos'], ['-zzz']])
            ops += ['P %d %s' % (len(args), ' '.join(map(hx, args)))] + ['G %s %s' % (k, hx(n)) for n, k in opts.items()] + ['H ' + hx('purpose ' + word(20))]
        out.append(ops)
    o = ['D i %s 37 %s' % (hx('-aLongOptionName'), hx('what the option with the long name means')), 'D s %s %s -' % (hx('-s'), hx('text')), 'P 4 %s %s %s %s' % tuple(map(hx, ('-s', 'a text of some length to keep', '-aLongOptionName', '5'))), 'G s ' + hx('-s'), 'H ' + hx('p')]
    out += [rounds(['Z'] + o), rounds(o)]
    return out


def vtks(rng):
    out = []
    for k in range(pick(30, 300)):
        nd = rng.choice([1, 2, 3])
        dims = [rng.choice([1, 2, 3, 5, 9, 17]) for _ in range(nd)]
        f = os.path.join(mkscratch('v21'), 'w%d.vtk' % k)
        F = [rng.randint(-99, 99) for _ in range(prod(dims))]
        op = 'W %s %d %s %s %s %s' % (f, nd, ' '.join(map(str, dims)), ' '.join(['0'] * nd), ' '.join(['1'] * nd), ' '.join(map(str, F)))
        out.append(rounds([op]) if k % 5 == 0 else [op])
    return out


def mats(rng):
    out = []
    for _ in range(pick(40, 400)):
        n, m, el = (rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]) for _ in range(3))
        out.append(['I %d %d %d' % (n, m, el)] + rng.choice([['M 0', 'M 1'], ['M 1', 'M 1'], rounds(['M 1', 'M 0'])]))
    return out


def filters(rng):
    S = [sc_.scenario(rng, rng.choice(['eager', 'rand', 'lazy']), rng.choice([0, 1]), sums=rng.random() < 0.3) for _ in range(pick(60, 800))]
    S += [sc_.scenario(rng, nds=(4,), maxcells=60) for _ in range(pick(4, 40))] + [sc_.longside(rng) for _ in range(pick(3, 30))]
    for _ in range(pick(10, 80)):
        s = sc_.scenario(rng, maxp=4, maxcells=36, nops=1)
        dims = [int(x) for x in s[1].split()[3:3 + int(s[1].split()[2])]]
        put = 'I 1 ' + ' '.join(map(str, sc_.field(rng, prod(dims))))
        f = os.path.join(mkscratch('v21'), 'g%d.vtk' % rng.randrange(10 ** 9))
        S.append(s[:1] + rng.choice([rounds([s[1], put, 'A 1']), [s[1], put] + rounds(['A 1', 'S 1']), [s[1], put] + rounds([put, 'A 1', 'V 1 ' + f])]))
    # a grid that cannot be divided
    for _ in range(pick(4, 30)):
        dims, _ = sc_.random_grid(rng, maxcells=60)
        bad = [p for p in range(1, 9) if not sc_.ndec(dims, p)]
        if bad:
            S.append([sc_.world(rng.choice(bad), 1)] + rounds([sc_.N(1, dims, [(tuple([0] * len(dims)), 1), (tuple([1] + [0] * (len(dims) - 1)), 1)])]))
    return S


def serials(rng, cxx, more):
    """requests to serial programs"""
    T = []
    for n, k in [(1, 0), (2, 1), (3, 2), (5, 3), (rng.randint(2, 9), rng.randint(0, 9))] + [(rng.randint(1, 12), rng.randint(0, 12)) for _ in range(pick(1, 20))]:
        if cxx:
            a = ['-numCells', n, '-numSteps', k] + rng.choice([[], ['-vtk']]) + (rng.choice([[], ['-std']]) if more else [])
        else:
            a = [n, k] + ([rng.randint(1, 9)] if more else rng.choice([[], ['vtk']]))
            if more:
                a[1] = max(1, k)
        T.append(sc_.prog_scen(1, a))
    if cxx:
        T += [sc_.prog_scen(1, a) for a in (['-h'], ['-numCells', 2, '-zzz'], ['-numSteps', 3, 'x', '-numCells', '2', '-numCells', '3'])]
    return T


def mpis(rng):
    for name, src in (('upwindMpi.cxx', 'upwind/cxx/upwindMpi.cxx'), ('laplacian.cxx', 'laplacian/cxx/laplacian.cxx'), ('testStencil2d.cxx', 'laplacian/cxx/testStencil2d.cxx')):
        T = []
        for _ in range(pick(10, 80)):
            np, n = rng.choice([(1, 2), (2, 2), (2, 4), (3, 3), (4, 4), (4, 2), (6, 6), (8, 4), (3, 4), (5, 4)]) if T else (3, 4)
            a = ['-numCells', n]
            if name == 'upwindMpi.cxx':
                a += ['-numSteps', rng.choice([0, 1, 2, 3])]
            elif name == 'laplacian.cxx':
                a += ['-numDims', rng.choice([1, 2, 3])]
            if rng.random() < 0.5 and name != 'testStencil2d.cxx':
                a.append('-vtk')
            T.append(sc_.prog_scen(np, a, rng.randint(1, 10 ** 6), rng.choice(['lazy', 'rand', 'prio', 'eager'])))
        yield name, src, T


def pythons(rng, np=None):
    out = []
    while len(out) < pick(4, 12):
        dims = [rng.randint(9, 16) for _ in range(3)] if np else [rng.randint(2, 7) for _ in range(rng.choice([1, 2, 3]))]
        if not (1700 <= prod(dims) if np else 40 <= prod(dims) <= 120) or np and not sc_.ndec(dims, np):
            continue
        delta = [rng.uniform(0.1, 2) for _ in dims]
        make = new_op(dims, [rng.choice([-1, 0, 1]) * 0.2 * x for x in delta], delta)
        step = 'A %d 0.5 10 ' % rng.choice([1, 2, 5]) + ' '.join('0' for _ in dims)
        f = os.path.join(mkscratch('v21'), 'p%d.vtk' % rng.randrange(10 ** 9))
        out.append([[make] + rounds([step], 24), rounds([make, step, 'K'], 24), [make] + rounds([step, 'V ' + f], 24), [make] + rounds(['K'], 24)][len(out) % (2 if np else 4)])
    return out


def run_check():
    c = Check('C21')
    c.model('MC_Heap', 'MC_Heap_ok.cfg')
    for m in ('nowrap', 'leak', 'late', 'twice'):
        c.model('MC_Heap', 'MC_Heap_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    rt = runtime()
    jobs = []
    field = ('start', 'new', 'adv')
    for name, src, mind, maxd, omp in CXX:
        fl = ['-DSOLVER="%s"' % repo(src), '-DMIND=%d' % mind, '-DMAXD=%d' % maxd] + (['-fopenmp', '-DHAVE_OPENMP'] if omp else [])
        h = os.path.join(HARN, 'upwind_cxx.cpp')
        jobs.append((dict(name=name, cxx=[h, repo('cxx', 'CmdLineArgParser.cpp')], alt=[h] + libsources(exclude=('Filter.cpp',)), flags=fl), 'Trace_Upwind', upwinds(rng, range(mind, maxd + 1), True), field, {'PROP': 'field'}))
    for name, src in FORTRAN:
        h = os.path.join(HARN, 'upwind_fortran.cpp')
        jobs.append((dict(name=name, cxx=[h], plain=[h], fortran=src, shim='upwind_fortran_shim.F90', ff=['-fopenmp', '-DHAVE_OPENMP']), 'Trace_Upwind', upwinds(rng, (1, 2, 3), True), field, {'PROP': 'field'}))
    # the other parts of the library
    def J(name, files, spec, scen, own=None, env=None, alt=True, **kw):
        h = os.path.join(HARN, files[0])
        jobs.append((dict(name=name, cxx=[h] + [repo('cxx', f) for f in files[1:]], alt=[h] + libsources(exclude=('Filter.cpp',)) if alt else None, **kw), spec, scen, own, env))
    J('multiiter', ['multiiter.cpp', 'MultiArrayIter.cpp'], 'Trace_MultiIter', iters(rng))
    J('decomp', ['decomp.cpp', 'CubeDecomp.cpp', 'MultiArrayIter.cpp'], 'Trace_Decomp', decs(rng), env={'PROP': 'C03'})
    J('cmdline', ['cmdline.cpp', 'CmdLineArgParser.cpp'], 'Trace_CmdLine', lines(rng))
    J('writevtk', ['writevtk.cpp', 'writeVTK.cpp'], None, vtks(rng))
    h = os.path.join(HARN, 'matmult.cpp')
    jobs.append((dict(name='matmult', cxx=[h], plain=[h], fortran='matmult/fortran/matmult.F90', shim='matmult_shim.F90'), 'Trace_MatMult', mats(rng), None, None))
    # the distributed filter, and whole programs, under the stand-in MPI
    mock = os.path.join(HARN, 'mockmpi.cpp')
    inc = sc_.MPI_INC + sc_.mpi_include()
    try:
        obj = [sc_.syms()]
        jobs.append((dict(name='filter', cxx=[os.path.join(HARN, 'stencil.cpp')] + libsources() + [mock], plain=[mock], flags=['-DMOCK'] + inc, libs=obj), 'Trace_Stencil', filters(rng), 'filter', {'PROP': 'C01'}))
        for nm, src, sc in mpis(rng):
            jobs.append((dict(name=nm, cxx=[repo(src)] + libsources() + [os.path.join(HARN, 'mockprog.cpp'), mock], plain=[os.path.join(HARN, 'mockprog.cpp'), mock], flags=inc, libs=obj, main=repo(src)), None, sc, None, None))
        # (the serial programs make no MPI calls)
        prg = os.path.join(HARN, 'mockprog.cpp')
        for name, src, mind, maxd, omp in CXX:
            jobs.append((dict(name=name + ' program', cxx=[repo(src), repo('cxx', 'CmdLineArgParser.cpp'), prg, mock], alt=[repo(src)] + libsources(exclude=('Filter.cpp',)) + [prg, mock], plain=[prg, mock], main=repo(src),
                              flags=inc + (['-fopenmp', '-DHAVE_OPENMP'] if omp else []), libs=obj), None, serials(rng, True, '-std' in open(repo(src)).read()), None, None))
        for name, src in FORTRAN + [('matmult.F90', 'matmult/fortran/matmult.F90')]:
            jobs.append((dict(name=name + ' program', cxx=[prg, mock], plain=[prg, mock], fortran=src, ff=['-fopenmp', '-DHAVE_OPENMP'], flags=inc + ['-fopenmp'], libs=obj), None, serials(rng, False, name[0] == 'm'), None, None))
    except BuildFailed as x:
        c.degrade(str(x))
    drv = pmap(lambda j: build(c, rt=rt, **j[0]), jobs)
    for np in (None, 2, 4):
        d = py_driver(c, np)
        d.env = dict(d.env or {}, VF_MARKS="1")
        judge(c, d, None, pythons(rng, np), parts=1)
    for d, j in zip(drv, jobs):
        judge(c, d, j[1], j[2], j[3], j[4])
    return c.finish()
