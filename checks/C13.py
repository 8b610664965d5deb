"""C13: the matrix procedures and the matrix program validated against MatMult.tla."""
import itertools
from vf import *
from harness import Driver
import programs


def driver(c):
    d = mkscratch('f_matmult')
    src = repo('matmult', 'fortran', 'matmult.F90')
    try:
        cc(['gfortran'] + FFLAGS + ['-J', d, '-c', src, '-o', d + '/p0.o'])
        cc(['objcopy', '--redefine-sym', 'main=solver_main', '--redefine-sym', 'MAIN__=solver_MAIN__', d + '/p0.o', d + '/p.o'])
        cc(['gfortran'] + FFLAGS + ['-I', d, '-J', d, '-c', os.path.join(HARN, 'matmult_shim.F90'), '-o', d + '/s.o'])
        cc(['g++'] + CXXFLAGS + ['-I' + HARN, '-c', os.path.join(HARN, 'matmult.cpp'), '-o', d + '/d.o'])
        # the solver interface of upwind_core.h is not used here
        cc(['g++', d + '/d.o', d + '/s.o', d + '/p.o', '-lgfortran', '-o', d + '/drv'])
    except BuildFailed as x:
        c.degrade('harness matmult does not build: ' + str(x)[-1200:])
        return None
    return Driver(c, 'matmult', cmd=[d + '/drv'])


def prog(args):
    r = programs.launch('matmult', args)
    m = re.search(r'matrix sizes:\s*(\d+)\s*x\s*(\d+)\s*x\s*(\d+)', r.out)
    ok = 'SUCCESS' in r.out and 'ERROR' not in r.out
    r.drop()
    return [{'e': 'start'}, {'e': 'prog', 'args': list(args), 'sizes': [int(x) for x in m.groups()] if m else [], 'success': ok, 'rc': r.rc}]


def run_check():
    c = Check('C13')
    c.model('MC_MatMult', 'MC_MatMult_ok.cfg')
    c.model('MC_MatMult', 'MC_MatMult_shared.cfg', expect_violation=True)
    rng = c.rng
    scen = []
    k = pick(5, 8)
    for n, m, el in itertools.product(range(1, k + 1), repeat=3):
        scen.append(['I %d %d %d' % (n, m, el), 'M 0', 'M 1'])
    for n, m, el in [(1, 1, 200), (1, 200, 1), (200, 1, 1), (3, 70, 2), (70, 3, 2), (2, 3, 70), (33, 17, 9), (9, 17, 33), (17, 33, 9), (20, 20, 20), (40, 41, 42), (66, 65, 67)] + pick([], [(130, 64, 129)]):
        scen.append(['I %d %d %d' % (n, m, el), 'M 1', 'M 0'])
    for _ in range(pick(60, 600)):
        n, m, el = (rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17]) for _ in range(3))
        big = rng.choice([99, 99, 7000])
        f = lambda q: ' '.join(str(rng.choice([0, 1, -1, rng.randint(-big, big)])) for _ in range(q))
        scen.append(['F %d %d %d %s %s' % (n, m, el, f(n * m), f(m * el)), 'M 0', 'M 1', 'M 1', 'M 0'])
    for n, m, el in [(2, 1030, 2), (1030, 2, 2), (2, 2, 1030), (257, 1, 259), (90, 80, 70)] + pick([], [(5000, 2, 2), (2, 5000, 2), (2, 2, 5000), (200, 100, 150)]):
        f = lambda q: ' '.join(str(rng.randint(-99, 99)) for _ in range(q))
        scen.append(['F %d %d %d %s %s' % (n, m, el, f(n * m), f(m * el)), 'M 0', 'M 1'])
    d = driver(c)
    if d:
        d.check('Trace_MatMult', scen)
    if programs.ensure(c, ['matmult']):
        lists = [()] + [(n,) for n in (1, 2, 6, 40)] + [(n, m) for n in (1, 3, 7) for m in (1, 2, 9)]
        lists += list(itertools.product((1, 2, 3, 5, 8), repeat=3)) if not THOROUGH else list(itertools.product(range(1, 9), repeat=3))
        lists += [(60, 1, 2), (1, 60, 2), (2, 1, 60), (100, 90, 80), (130, 64, 200), (31, 33, 32), (257, 3, 5), (3, 300, 4), (4, 3, 513), (256, 256, 256)]
        if not THOROUGH:
            keep = lists[:14] + lists[-10:]
            lists = keep + rng.sample(lists[14:-10], 40)
        res = pmap(lambda a: (a, prog(a)), lists)
        c.validate('Trace_MatMult', res, rerun=prog, kind='matmult program')
    return c.finish()
