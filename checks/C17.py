"""C17: the statistics reported by the real classes validated against Upwind.tla (solvers) and Stencil.tla (filter)."""
from upwindcommon import *
from C08 import py_driver, grids
from C11 import digits
from outcomecommon import OPTS, STD
import decimal
import programs


def spread(t):
    """the spread a program prints"""
    n, steps, name, th, vtk = t
    r = programs.launch(name, ['-numCells', n, '-std', '-numSteps', steps] + (['-vtk'] if vtk else []), threads=th)
    v = re.findall(r'^\s*std\s*:\s*(\S+)\s*$', r.out, re.M)
    r.drop()
    try:
        m, x = digits(v[0]) if len(v) == 1 else (-1, 0)
    except decimal.InvalidOperation:
        m, x = -1, 0
    return [{'e': 'start'}, {'e': 'asks', 'dims': [n] * 3, 'n': steps, 'w': 5 + n ** 3 * steps * (2 + steps // 8) // 50}, {'e': 'std', 'm': m, 'x': x}]


def spreads(c):
    names = programs.ensure(c, [p for p, o in OPTS.items() if any(x[0] == STD for x in o)])
    S = [(n, s, name, c.rng.choice([1, 2, 3, 5]) if name in programs.THREADED else None, c.rng.random() < 0.3)
         for name in names for n, s in [(1, 3), (2, 0), (2, 40), (3, 5), (5, 1), (7, 12)] + [(c.rng.randint(1, 8), c.rng.randint(0, 30)) for _ in range(pick(2, 20))]]
    c.validate('Trace_Same', pmap(lambda t: (t, spread(t)), S), rerun=spread, kind='spread printed by programs')


def run_check():
    c = Check('C17')
    c.model('MC_Upwind', pick('MC_Upwind_ok.cfg', 'MC_Upwind_big.cfg'), timeout=800)
    drivers = pmap(lambda t: (t, cxx_driver(c, t[0], t[1], t[2], t[3], t[4], env={'OMP_NUM_THREADS': '2'})), CXX)
    for t, d in drivers:
        scen = [scenario(c.rng, nds=range(t[2], t[3] + 1), cap=pick(40, 100), maxdim=6, stats=True, steps=pick(8, 12)) for _ in range(pick(60, 500))]
        scen += [sums(c.rng, nds=range(t[2], t[3] + 1), cap=pick(80, 300), maxdim=pick(8, 12)) for _ in range(pick(40, 300))]
        scen += levelled(c.rng, range(t[2], t[3] + 1), pick(30, 200))
        d.check('Trace_Upwind', scen, env={'PROP': 'stats'})
    d = py_driver(c)
    d.check('Trace_Upwind', [scenario(c.rng, nds=(1, 2, 3), cap=40, stats=True) for _ in range(pick(60, 500))] +
            [sums(c.rng, cap=60) for _ in range(pick(40, 300))], env={'PROP': 'stats'})
    for np in pick((2, 4, 6), (1, 2, 3, 4, 6, 8)):
        d = py_driver(c, np)
        d.check('Trace_Upwind', [scenario(c.rng, dims=g, stats=True) for g in grids(c.rng, np, pick(20, 100))] +
                [sums(c.rng, dims=g) for g in grids(c.rng, np, pick(10, 60))], parts=2, env={'PROP': 'stats'})
    try:
        import stencilcommon
    except ImportError:
        return c.finish()
    stencilcommon.sums(c)
    spreads(c)
    return c.finish()
