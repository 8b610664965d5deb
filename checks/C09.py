"""C09: threads, under a runtime that controls and records them, validated against HB (races) and Upwind (results)."""
from upwindcommon import *
import outcomecommon as oc

WRAP = '-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'
TSAN = ['-fopenmp', '-fsanitize=thread', '-DHAVE_OPENMP']
CLS = [('upwind.cxx', 'upwind/cxx/upwind.cxx', 1, 4), ('upwindOMPTasks.cxx', 'upwind/cxx/upwindOMPTasks.cxx', 1, 4), ('upwindOMP5.cxx', 'upwind/cxx/upwindOMP5.cxx', 3, 3)]
FOR = [('upwind.F90', 'upwind/fortran/upwind.F90', ['-DHAVE_OPENMP']), ('upwindF03.F90', 'upwind/fortran/upwindF03.F90', ['-DHAVE_OPENMP']),
       ('upwindF08Gpu.F90', 'upwind/fortran/upwindF08Gpu.F90', ['-DHAVE_OPENMP']), ('upwindF08Gpu.F90 offload', 'upwind/fortran/upwindF08Gpu.F90', ['-DHAVE_OPENMP_OFFLOAD']),
       ('upwindF08.F90', 'upwind/fortran/upwindF08.F90', ['-DHAVE_OPENMP'])]


def runtime():
    d = mkscratch('omprt')
    cc(['g++'] + CXXFLAGS + ['-fPIC', '-shared', '-Wl,--version-script=' + os.path.join(HARN, 'omprt.map'), os.path.join(HARN, 'omprt.cpp'), '-o', d + '/libomprt.so', '-lpthread'], 'omprt')
    return ['-L' + d, '-lomprt', '-Wl,-rpath,' + d, WRAP]


def objects(name, src, kind, flags=()):
    """objects of one program: (solver class or module, main renamed to prog_main)"""
    d = mkscratch('c09_' + name.replace(' ', '_'))
    src = repo(src)
    o = os.path.join(d, 'prog.o')
    if kind == 'c':
        cc(['g++'] + CXXFLAGS + TSAN + ['-I' + repo('cxx'), '-c', src, '-o', d + '/p0.o'], name)
        # (renamed in the object: a main may end without a return, another function may not)
        cc(['objcopy', '--redefine-sym', 'main=prog_main', d + '/p0.o', o], name)
    else:
        cc(['gfortran'] + FFLAGS + ['-O1', '-fopenmp', '-fsanitize=thread'] + list(flags) + ['-J', d, '-c', src, '-o', d + '/p0.o'], name)
        cc(['objcopy', '--redefine-sym', 'main=prog_main', '--redefine-sym', 'MAIN__=solver_MAIN__', d + '/p0.o', o], name)
    return d, o


def driver(c, rt, t, kind):
    """(class driver, program driver)"""
    name, src = t[0], t[1]
    lib = ['-lgfortran'] if kind == 'f' else []
    out = []
    try:
        d, o = objects(name, src, kind, t[2] if kind == 'f' else ())
        parser = []
        if kind == 'c':
            for f in ['CmdLineArgParser.cpp']:
                cc(['g++'] + CXXFLAGS + ['-c', repo('cxx', f), '-o', d + '/' + f + '.o'], f)
                parser.append(d + '/' + f + '.o')
            cc(['g++'] + CXXFLAGS + TSAN + ['-O1', '-DSOLVER="%s"' % repo(src), '-DMIND=%d' % t[2], '-DMAXD=%d' % t[3], '-I' + repo('cxx'), '-I' + HARN, '-c', os.path.join(HARN, 'upwind_cxx.cpp'), '-o', d + '/drv.o'], name)
            cls = [d + '/drv.o'] + parser
        else:
            cc(['gfortran'] + FFLAGS + ['-fopenmp', '-I', d, '-J', d, '-c', os.path.join(HARN, 'upwind_fortran_shim.F90'), '-o', d + '/shim.o'], name)
            cc(['g++'] + CXXFLAGS + ['-I' + HARN, '-c', os.path.join(HARN, 'upwind_fortran.cpp'), '-o', d + '/drv.o'], name)
            cls = [d + '/drv.o', d + '/shim.o', o]
        cc(['g++'] + cls + rt + lib + ['-o', d + '/cls'], name + ' class')
        out.append(Driver(c, name + ' threads', cmd=[d + '/cls']))
        cc(['g++'] + CXXFLAGS + ['-DPROG=prog_main', '-c', os.path.join(HARN, 'omp_prog.cpp'), '-o', d + '/op.o'], 'omp_prog')
        cc(['g++', d + '/op.o', o] + parser + rt + lib + ['-o', d + '/prog'], name + ' program')
        out.append(Driver(c, name + ' program threads', cmd=[d + '/prog']))
    except BuildFailed as x:
        c.degrade('%s does not build with the recording runtime: %s' % (name, str(x)[-1500:]))
    return out + [None] * (2 - len(out))


def opts(rng):
    """threads seed policy preempt starve teams"""
    return 'O %d %d %d %d %d %d' % (rng.choice([2, 2, 3, 3, 4, 5, 7, 1]), rng.randint(1, 10 ** 6), rng.choice([0, 0, 0, 1, 2]), rng.choice([0, 1, 2, 5, 20, 100]),
                                    rng.choice([-1, -1, 0, 1]), rng.choice([1, 2, 3]))


def races(ops, ev):
    """the record of the threads, its size first"""
    run = [e for e in ev if e['e'] == 'runs']
    out = [{'e': 'start'}]
    if run:
        out.append({'e': 'team', 'threads': sum(e['threads'] for e in run) or 1, 'loc': sum(e['loc'] for e in run), 'locks': max([e['m'] for e in ev if 'm' in e] + [0])})
    for e in ev:
        if e['e'] in ('fork', 'join', 'bar', 'acq', 'rel', 'dead'):
            out.append(e)
        elif e['e'] == 'acc':
            out.append({'e': 'acc', 't': e['t'], 'rd': e['r'], 'wr': e['w'], 'ar': e['ar'], 'aw': e['aw']})
    return out


def fields(ops, ev):
    return [e for e in ev if e['e'] in ('start', 'new', 'adv', 'dead')]


_n = __import__('itertools').count()


def prog_scen(rng, name, kind):
    d = mkscratch('op', next(_n))
    n, s = rng.choice([(2, 1), (2, 3), (3, 2), (3, 1), (4, 2), (1, 2), (4, 1)])
    a = ['-numCells', n, '-numSteps', s, '-vtk'] if kind == 'c' else [n, s, 'vtk']
    return [opts(rng), 'X %s %s' % (d, ' '.join(map(str, a)))], d, n, s


def prog_field(ops, ev, n, s, vtk):
    """what the program wrote and printed, as events of Trace_Upwind"""
    d = ops[1].split()[1]
    p = os.path.join(d, vtk)
    out = [{'e': 'start'}]
    if not any(e['e'] == 'end' and e['rc'] == 0 for e in ev):
        return out + [{'e': 'failed'}]
    v = programs.vtk_values(open(p, errors='replace').read(1 << 26)) if os.path.exists(p) else None
    if v is None:
        return out + [{'e': 'nofile'}]
    S = 10 ** s
    F = [int(round(x * S)) if abs(x * S) < 2e9 else -1 for x in v]
    out.append({'e': 'fin', 'dims': [n] * 3, 'n': s, 'c': [1, 1, 1], 'D': 10, 'F': F, 'r': min(9999, int(max([abs(x * S - y) for x, y in zip(v, F)] + [0]) * 1000))})
    return out


def prog_sum(ops, ev, name):
    d = ops[1].split()[1]
    txt = open(os.path.join(d, 'out.0'), errors='replace').read() if os.path.exists(os.path.join(d, 'out.0')) else ''
    out = [{'e': 'start'}]
    s = [e for e in oc.say(name, txt, '') if e['e'] in ('sum', 'isum')]
    return out + [dict(oc.req(name, ['4'], 1), mpi=False, fam='pos')] + (s or [{'e': 'nosum'}])


PROGNAME = {'upwind.cxx': 'upwindCxx', 'upwindOMPTasks.cxx': 'upwindOMPTasksCxx', 'upwindOMP5.cxx': 'upwindOMP5Cxx', 'upwind.F90': 'upwindFortran', 'upwindF03.F90': 'upwindF03',
            'upwindF08.F90': 'upwindF08', 'upwindF08Gpu.F90': 'upwindF08Gpu', 'upwindF08Gpu.F90 offload': 'upwindF08Gpu'}


def run_check():
    c = Check('C09')
    for m in ('ok', 'three') + pick((), ('big',)):
        c.model('MC_OmpUpwind', 'MC_OmpUpwind_%s.cfg' % m)
    for m in ('nowait1', 'nowait1r', 'nowait2', 'nowait2r', 'shared', 'sharedr', 'inplace'):
        c.model('MC_OmpUpwind', 'MC_OmpUpwind_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    try:
        rt = runtime()
    except BuildFailed as x:
        c.degrade(str(x))
        rt = None
    todo = [(t, 'c') for t in CLS] + [(t, 'f') for t in FOR]
    drv = pmap(lambda x: (x, driver(c, rt, x[0], x[1]) if rt else [None, None]), todo)

    def gomp(x):
        t, kind = x
        return cxx_driver(c, t[0] + ' libgomp', t[1], t[2], t[3], True) if kind == 'c' else fortran_driver(c, t[0] + ' libgomp', t[1], flags=tuple(['-fopenmp'] + t[2]))
    plain = dict(zip([(x[0][0]) for x in todo], pmap(gomp, todo)))
    jobs = []
    for (t, kind), (cls, prg) in drv:
        name = t[0]
        nds = range(t[2], min(3, t[3]) + 1) if kind == 'c' else (1, 2, 3)
        if cls:
            S = [[opts(rng)] + scenario(rng, nds=nds, cap=30, maxdim=6, steps=3) for _ in range(pick(30, 400))]
            jobs.append((cls, S, [('Trace_Race', races, None), ('Trace_Upwind', fields, {'PROP': 'field'})]))
        if prg:
            P = [prog_scen(rng, name, kind) for _ in range(pick(10, 100))]
            jobs.append((prg, [x[0] for x in P], progspecs(PROGNAME[name], {x[1]: x[2:] for x in P})))
        # the real runtime, with other numbers of threads
        real = plain[name]
        for th in (3,) if cls else (1, 2, 3, 5, 8, 16):
            if real and real.ok:
                d = Driver(c, '%s libgomp %d' % (name, th), cmd=real.cmd, env={'OMP_NUM_THREADS': str(th)})
                S = [scenario(rng, nds=nds, cap=60, maxdim=8, steps=4) for _ in range(pick(16, 100))] + [x for _ in range(pick(1, 10)) for x in large(rng, [[23, 19, 11]])]
                jobs.append((d, S, [('Trace_Upwind', None, {'PROP': 'field'})]))
                jobs.append((d, wide(rng, nds, pick(1, 6)), [('Trace_UpwindWide', None, None)]))

    def one(job):
        d, S, specs = job
        res = d.gather(S, 4)
        for spec, post, env in specs:
            d.check(spec, S, post=post, env=env, res=res, kind='%s: %s' % (d.name, spec))
    pmap(one, jobs, 3)
    return c.finish()


def progspecs(pn, info):
    key = lambda o: info[o[1].split()[1]]
    return [('Trace_Race', races, None),
            ('Trace_Upwind', lambda o, e: prog_field(o, e, key(o)[0], key(o)[1], programs.PROGS[pn][2]), {'PROP': 'field'}),
            ('Trace_Outcome', lambda o, e: prog_sum(o, e, pn), {'PROP': 'C10'})]
