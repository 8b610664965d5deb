"""C02: the halo exchange under every timing MPI allows."""
from stencilcommon import *


def run_check():
    c = Check('C02')
    for m in ('ok', 'lap', 'wide', 'wide2', 'self', 'lap3') + pick((), ('big',)):
        c.model('MC_Halo', 'MC_Halo_%s.cfg' % m)
    for m in ('noopen', 'noclose', 'late', 'preclose', 'stale', 'skipself'):
        c.model('MC_Halo', 'MC_Halo_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    env = {'PROP': 'C02'}
    d = mock_driver(c)
    if d:
        S = simulated(c, pick(25, 250))
        # one history under many timings: the fields must be those of the specification each time
        pol = ['lazy', 'rand', 'prio', 'eager']
        for _ in range(pick(40, 300)):
            s = scenario(rng, maxp=6, maxcells=48, nops=rng.choice([2, 3, 4, 5]))
            np = s[0].split()[1]
            for q in range(pick(4, 10)):
                S.append([world(int(np), rng.randint(1, 10 ** 6), pol[q % 4] if q < 4 else rng.choice(pol), 0 if q == 7 else 1, 0)] + s[1:])
        for _ in range(pick(12, 100)):
            s = scenario(rng, rng.choice(pol), 1, maxp=12)
            s2 = scenario(rng, maxp=12)
            # a second filter in the same world, when its grid can be divided
            dims = [int(x) for x in s2[1].split()[3:3 + int(s2[1].split()[2])]]
            np = int(s[0].split()[1])
            if ndec(dims, np):
                s += [N(2, dims, sten(rng, len(dims), [min(min(l[j] for l in best(dims, np)), 2) for j in range(len(dims))]))] + history(rng, 2, dims, 3) + ['A 1', 'D 2', 'A 1']
            S.append(s)
        d.check('Trace_Rma', S, post=lambda i, e: rma_post(i, e, fields=False), env=env, kind='MPI calls')
        d.check('Trace_Stencil', S, post=stencil_post, env={'PROP': 'C01'}, kind='fields under all timings')
    for name, src in (('upwindMpiCxx', 'upwind/cxx/upwindMpi.cxx'), ('laplacian', 'laplacian/cxx/laplacian.cxx'), ('testStencil2d', 'laplacian/cxx/testStencil2d.cxx')):
        p = prog_driver(c, name, src)
        if not p:
            continue
        T = []
        for _ in range(pick(10, 60)):
            np, n = rng.choice([(1, 2), (2, 2), (2, 4), (3, 3), (4, 4), (4, 2), (6, 6), (8, 4), (3, 4), (5, 4)])
            a = ['-numCells', n]
            if name == 'upwindMpiCxx':
                a += ['-numSteps', rng.choice([0, 1, 2, 3])]
            elif name == 'laplacian':
                a += ['-numDims', rng.choice([1, 2, 3])]
            if rng.random() < 0.5 and name != 'testStencil2d':
                a.append('-vtk')
            T.append(prog_scen(np, a, rng.randint(1, 10 ** 6), rng.choice(['lazy', 'rand', 'prio', 'eager'])))
        p.check('Trace_Rma', T, post=lambda i, e: rma_post(None, e), env=env, kind='MPI calls of ' + name)
    if not d:
        r = RealDriver(c)
        r.check('Trace_Stencil', [s for s in (scenario(rng, nops=4) for _ in range(80))], post=stencil_post, env={'PROP': 'C01'}, kind='mpirun')
    return c.finish()
