"""C06: histories of the C++ shared-memory solvers validated against Upwind.tla."""
from upwindcommon import *


def run_check():
    c = Check('C06')
    c.model('MC_Upwind', pick('MC_Upwind_ok.cfg', 'MC_Upwind_big.cfg'), timeout=800)
    for m in ('clamp', 'oneway', 'inplace'):
        c.model('MC_Upwind', 'MC_Upwind_%s.cfg' % m, expect_violation=True)
    todo = CXX + [(n + ' acc', s, a, b, False) for n, s, a, b, _ in CXX if 'Acc' in n]
    drivers = pmap(lambda t: (t, cxx_driver(c, t[0], t[1], t[2], t[3], t[4], env={'OMP_NUM_THREADS': '2'},
                                            flags=['-fopenacc'] if t[0].endswith(' acc') else [])), todo)
    for t, d in drivers:
        main = not t[0].endswith(' acc')
        nds = range(t[2], t[3] + 1)
        scen = all_signs([n for n in nds if n <= 3])
        scen += [scenario(c.rng, nds=nds, cap=pick(40, 120), maxdim=pick(6, 9)) for _ in range(pick(60 if main else 15, 600))]
        scen += nearly(c.rng, nds, pick(8, 60)) + long_runs(c.rng, pick(10, 60), nds)
        scen += [] if not main else large(c.rng, pick([(17, 13, 11)], [(17, 13, 11), (3, 64, 33), (40, 1, 31), (1, 1, 3000), (2049, 1, 2)]))
        d.check('Trace_Upwind', scen, env={'PROP': 'field'})
        d.check('Trace_UpwindWide', wide(c.rng, nds, pick(4, 40)))
        d.check('Trace_UpwindLong', lengthy(c.rng, nds, pick(14 if main else 3, 150)))
    names = ['upwindCxx', 'upwindOMPTasksCxx', 'upwindOMP5Cxx', 'upwindAccCxx', 'upwindAcc2Cxx']
    program_level(c, names, lambda nm: [(n, s, 1, 2) for n, s in pick([(1, 2), (2, 6), (3, 5), (4, 3), (5, 1)],
                                                                       [(n, s) for n in range(1, 9) for s in range(0, 7)])])
    return c.finish()
