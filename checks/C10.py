"""C10: every check sum printed by any program is one and the final values lie in [0, 1]."""
from outcomecommon import *
from decompcommon import ndec


def run_check():
    c = Check('C10')
    for m in ('ok',) + pick((), ('big',)):
        c.model('MC_Upwind', 'MC_Upwind_%s.cfg' % m)
    for m in ('clamp', 'inplace'):
        c.model('MC_Upwind', 'MC_Upwind_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    todo = []
    for name in programs.ensure(c, programs.SERIAL_UPWIND + programs.MPI_UPWIND):
        mpi, par = name in programs.MPI_UPWIND, name in programs.THREADED
        py = programs.lang(name).startswith('py')
        want = [(1, 3), (2, 1), (2, 0), (3, 2), (5, 7), (7, 30), (4, 300), (11, 12), (12, 90), (16, 5), (2, 1234), (1, 12345), (40, 6), (66, 2)]
        want += [(rng.randint(1, 14), rng.choice([1, 2, 3, 5, 10, 40, 150])) for _ in range(pick(4, 60))]
        for n, s in want:
            if py and n ** 3 * s > 20000:
                s = max(1, 20000 // n ** 3)
            nps = [p for p in range(1, 13) if ndec([n] * 3, p)] if mpi else [1]
            for np in rng.sample(nps, min(len(nps), pick(1, 4))):
                th = rng.choice([1, 2, 3, 4, 5, 7, 8, 13]) if par else None
                todo.append((name, programs.upwind_args(name, n, s, vtk=True), np, th))
            if mpi and n in (4, 12):
                todo.append((name, programs.upwind_args(name, n, 4, vtk=False), nps[-1], None))
    validate(c, todo, 'C10', values=True)
    return c.finish()
