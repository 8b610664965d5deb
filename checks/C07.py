"""C07: histories of the Fortran solvers validated against Upwind.tla."""
from upwindcommon import *


def run_check():
    c = Check('C07')
    c.model('MC_Upwind', pick('MC_Upwind_ok.cfg', 'MC_Upwind_big.cfg'), timeout=800)
    for m in ('clamp', 'oneway', 'inplace'):
        c.model('MC_Upwind', 'MC_Upwind_%s.cfg' % m, expect_violation=True)
    todo = [(n, s, ('-fopenmp', '-DHAVE_OPENMP')) for n, s in FORTRAN] + FORTRAN_VARIANTS
    drivers = pmap(lambda t: (t, fortran_driver(c, t[0], t[1], flags=t[2], env={'OMP_NUM_THREADS': '2'})), todo)
    for t, d in drivers:
        if d is None:
            continue
        main = not (len(t[0].split()) > 1)
        scen = all_signs()
        scen += [scenario(c.rng, nds=(1, 2, 3, 4), cap=pick(40, 120), maxdim=pick(6, 9)) for _ in range(pick(60 if main else 20, 600))]
        scen += [scenario(c.rng, nds=(5, 6), cap=100, maxdim=3) for _ in range(pick(6, 60))]
        scen += nearly(c.rng, (1, 2, 3), pick(8, 60)) + long_runs(c.rng, pick(8, 60), (1, 2, 3)) + (large(c.rng, pick([(17, 13, 11)], [(17, 13, 11), (3, 64, 33), (40, 1, 31), (1, 1, 3000), (2049, 1, 2)])) if main else [])
        d.check('Trace_Upwind', scen, env={'PROP': 'field'})
        d.check('Trace_UpwindWide', wide(c.rng, (1, 2, 3, 4), pick(4, 40)))
        d.check('Trace_UpwindLong', lengthy(c.rng, (1, 2, 3, 4), pick(14 if main else 3, 150)))
    program_level(c, ['upwindFortran', 'upwindF03', 'upwindF08', 'upwindF08Gpu'],
                  lambda nm: [(n, s, 1, 2) for n, s in pick([(1, 2), (2, 6), (3, 5), (4, 3), (5, 1)],
                                                            [(n, s) for n in range(1, 9) for s in range(0, 7)])])
    return c.finish()
