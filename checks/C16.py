"""C16: windows and buffers are acquired and released exactly once."""
from stencilcommon import *


def run_check():
    c = Check('C16')
    for m in ('ok', 'ok3') + pick((), ('big',)):
        c.model('MC_Life', 'MC_Life_%s.cfg' % m)
    for m in ('leak', 'order', 'early', 'peroffset', 'noguard'):
        c.model('MC_Life', 'MC_Life_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    env = {'PROP': 'C16'}
    d = mock_driver(c)
    pol = ['eager', 'rand', 'prio']
    if d:
        S = []
        # what the windows expose: distinct values, so that a cell can be told from another
        for _ in range(pick(100, 1000)):
            dims, p = random_grid(rng, maxcells=72, maxp=8)
            lds = best(dims, p)
            reach = [min(min(l[j] for l in lds), 3) for j in range(len(dims))]
            st = sten(rng, len(dims), reach, maxn=9)
            F = ' '.join(map(str, field(rng, prod(dims), 'distinct')))
            S.append([world(p, rng.randint(1, 10 ** 6), rng.choice(pol), 1, 1), N(1, dims, st), '%s 1 %s' % (rng.choice('IP'), F), 'A 1'] + rng.choice([[], ['C 1', 'A 1'], ['I 1 ' + F, 'A 1']]))
        # all the subsets of a few offsets on both sides
        for k in range(1, 16):
            offs = [o for j, o in enumerate([(-2,), (-1,), (1,), (2,)]) if k >> j & 1]
            for p, n in ((1, 2), (1, 3), (2, 4), (2, 6), (3, 6)):
                S.append([world(p, k, 'rand', 1, 1), N(1, [n], [(o, 1) for o in offs]), 'I 1 ' + ' '.join(map(str, field(rng, n, 'distinct'))), 'A 1'])
        # lifetimes: several filters, also on grids that cannot be divided, also never used, also diagonal offsets
        for _ in range(pick(120, 1200)):
            p = rng.choice([1, 2, 3, 4, 6])
            ops, alive, used = [world(p, rng.randint(1, 10 ** 6), rng.choice(pol), 1, 0)], {}, 0
            for _ in range(rng.choice([2, 4, 6, 9])):
                o = rng.choice('NNDAICS')
                if o == 'N' or not alive:
                    dims, _ = random_grid(rng, maxcells=40)
                    used += 1
                    nd = len(dims)
                    if rng.random() < 0.2:
                        st = [(tuple(rng.choice([-1, 0, 1]) for _ in range(nd)), 1) for _ in range(4)]
                        st = sorted(set(st))
                        ops += [N(used, dims, st), 'D %d' % used]
                    else:
                        l = best(dims, p)
                        ops.append(N(used, dims, sten(rng, nd, [min(min(x[j] for x in l), 2) for j in range(nd)] if l else [1] * nd, maxn=8)))
                        if l:
                            alive[used] = dims
                else:
                    k = rng.choice(sorted(alive))
                    if o == 'D':
                        del alive[k]
                    ops.append('%s %d' % (o, k) + (' ' + ' '.join(map(str, field(rng, prod(alive[k])))) if o == 'I' else ''))
            S.append(ops)
        d.check('Trace_Rma', S, post=rma_post, env=env, kind='lifetimes of filters')
    n = 0
    for name, src in (('upwindMpiCxx', 'upwind/cxx/upwindMpi.cxx'), ('laplacian', 'laplacian/cxx/laplacian.cxx'), ('testStencil2d', 'laplacian/cxx/testStencil2d.cxx')):
        p = prog_driver(c, name, src)
        if not p:
            continue
        T = []
        for np, k in ((1, 4), (2, 4), (4, 4), (6, 6), (3, 4), (5, 3), (8, 4), (7, 2)):
            if name == 'testStencil2d' and k % np and np > k:
                continue
            a = ['-numCells', k] + (['-numSteps', 2] if name == 'upwindMpiCxx' else [])
            T.append(prog_scen(np, a + (['-vtk'] if np == 4 else []), 1, 'rand'))
        T.append(prog_scen(2, ['-h']))
        T.append(prog_scen(2, ['-nosuch', 3]))
        p.check('Trace_Rma', T, post=lambda i, e: rma_post(None, e), env=env, kind='resources of ' + name)
    return c.finish()
