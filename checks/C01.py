"""C01: the distributed filter is the global periodic stencil."""
from stencilcommon import *


def small_cases(rng):
    """every small one- and two-dimensional grid, process count and side"""
    out = []
    for nd, mx in ((1, pick(6, 12)), (2, pick(4, 6)), (3, pick(2, 3))):
        for dims in itertools.product(range(1, mx + 1), repeat=nd):
            for p in range(1, 13):
                lds = best(dims, p)
                if not lds:
                    continue
                reach = [min(min(l[j] for l in lds), 2) for j in range(nd)]
                offs = [tuple(d if i == j else 0 for i in range(nd)) for j in range(nd) for d in range(-reach[j], reach[j] + 1) if d]
                sts = [[(o, 1)] for o in offs] + [[(tuple([0] * nd), -2)] + [(o, 1) for o in offs]]
                for st in sts if nd < 3 else rng.sample(sts, min(3, len(sts))):
                    F = list(range(1, prod(dims) + 1))
                    rng.shuffle(F)
                    out.append([world(p, 1), N(1, dims, st), '%s 1 %s' % (rng.choice('IP'), ' '.join(map(str, F))), 'A 1', 'C 1', 'A 1'])
    return out


def run_check():
    c = Check('C01')
    c.model('MC_Halo', 'MC_Halo_ok.cfg')
    for m in ('ghost', 'nowrap', 'side'):
        c.model('MC_Halo', 'MC_Halo_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    d = mock_driver(c)
    env = {'PROP': 'C01'}
    S = []
    if d:
        small = small_cases(rng)
        rng.shuffle(small)
        c.cov['small grids enumerated'] = len(small)
        S = small[:pick(900, 10 ** 6)]
        S += [scenario(rng, fine=rng.random() < 0.5) for _ in range(pick(300, 4000))]
        S += [weighed(rng) for _ in range(pick(20, 200))]
        S += [shifts(rng) for _ in range(pick(15, 150))]
        S += [manyproc(rng) for _ in range(pick(10, 100))]
        S += [longside(rng) for _ in range(pick(10, 100))] + [longside(rng, cells=n) for n in pick([9000, 70000], [9000, 9000, 20000, 70000, 70000])]
        S += [scenario(rng, nds=(4,), maxcells=100) for _ in range(pick(20, 200))]
        S += [scenario(rng, nds=(5, 5, 6), maxcells=128) for _ in range(pick(12, 120))]
        # several filters of different shape and stencil alive at once
        for _ in range(pick(30, 300)):
            p = rng.choice([2, 3, 4, 6])
            ops, hist = [world(p, 1)], []
            for k in (1, 2):
                while True:
                    dims, _ = random_grid(rng, maxcells=60)
                    if ndec(dims, p):
                        break
                reach = [min(min(l[j] for l in best(dims, p)), 2) for j in range(len(dims))]
                ops.append(N(k, dims, sten(rng, len(dims), reach), *box(rng, len(dims))))
                hist.append(history(rng, k, dims, 3))
            while any(hist):
                ops.append(rng.choice([h for h in hist if h]).pop(0))
            S.append(ops)
        # a grid that cannot be divided
        for _ in range(pick(10, 60)):
            dims, _ = random_grid(rng, maxcells=60)
            bad = [p for p in range(1, 13) if not ndec(dims, p)]
            if bad:
                S.append([world(rng.choice(bad), 1), N(1, dims, [(tuple([0] * len(dims)), 1)])])
        d.check('Trace_Stencil', S, post=stencil_post, env=env, kind='stand-in MPI')
    r = RealDriver(c)
    n = 0
    T = []
    for p in pick((1, 2, 4, 6), (1, 2, 3, 4, 5, 6, 8, 9, 12)):
        for _ in range(pick(8, 40) * (1 if d else 4)):
            while True:
                s = scenario(rng, fine=rng.random() < 0.5)
                if s[0].split()[1] == str(p):
                    break
            T.append(s)
    r.check('Trace_Stencil', T, post=stencil_post, env=env, kind='mpirun')
    return c.finish()
