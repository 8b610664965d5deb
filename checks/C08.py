"""C08: histories of the Python solvers, serial and MPI, validated against Upwind.tla."""
from upwindcommon import *
from decompcommon import ndec


def grids(rng, np, count):
    out = []
    while len(out) < count:
        d = [rng.randint(1, 7) for _ in range(3)]
        if d[0] * d[1] * d[2] <= 90 and ndec(d, np):
            out.append(d)
    return out


def run_check():
    c = Check('C08')
    c.model('MC_Upwind', pick('MC_Upwind_ok.cfg', 'MC_Upwind_big.cfg'), timeout=800)
    for m in ('clamp', 'oneway', 'inplace'):
        c.model('MC_Upwind', 'MC_Upwind_%s.cfg' % m, expect_violation=True)
    d = py_driver(c)
    scen = all_signs()
    scen += [scenario(c.rng, nds=(1, 2, 3, 4), cap=pick(40, 120), maxdim=pick(6, 9)) for _ in range(pick(80, 600))]
    scen += [scenario(c.rng, nds=(5, 6), cap=100, maxdim=3) for _ in range(pick(6, 60))]
    scen += nearly(c.rng, (1, 2, 3, 4), pick(8, 60)) + long_runs(c.rng, pick(8, 60), (1, 2, 3)) + large(c.rng, pick([(17, 13, 11)], [(17, 13, 11), (3, 64, 33), (40, 1, 31), (2049, 1, 2)]))
    d.check('Trace_Upwind', scen, env={'PROP': 'field'})
    d.check('Trace_UpwindLong', lengthy(c.rng, (1, 2, 3, 4), pick(20, 200)))
    d.check('Trace_UpwindWide', wide(c.rng, (1, 2, 3, 4), pick(6, 40)))
    import itertools
    for np in pick((1, 2, 3, 4, 6, 8), (1, 2, 3, 4, 5, 6, 7, 8, 12)):
        d = py_driver(c, np)
        scen = []
        # every sign pattern of the velocity, on grids cut along different axes
        gs = grids(c.rng, np, 12)
        for sg in itertools.product((-1, 0, 1), repeat=3):
            if np in (3, 6) and not THOROUGH and c.rng.random() < 0.5:
                continue
            g = c.rng.choice(gs)
            cc_ = [s * k for s, k in zip(sg, (1, 2, 3))]
            dl = [c.rng.uniform(0.1, 2) for _ in range(3)]
            dt = c.rng.uniform(0.1, 2)
            scen.append([new_op(g, [x / 8 * q / dt for x, q in zip(cc_, dl)], dl)] + ['A %d %r 8 %d %d %d' % (k, dt, *cc_) for k in (1, 1, 2)])
        scen += [scenario(c.rng, dims=g, steps=4) for g in grids(c.rng, np, pick(15, 100))]
        scen += [s for s in nearly(c.rng, (3,), pick(24, 200)) if ndec([int(x) for x in s[0].split()[2:5]], np)][:pick(4, 40)]
        scen += long_runs3(c.rng, grids(c.rng, np, pick(2, 10)))
        d.check('Trace_Upwind', scen, parts=pick(2, 4), env={'PROP': 'field'})
        d.check('Trace_UpwindLong', [s for s in lengthy(c.rng, (3,), pick(12, 100), 60) if ndec([int(x) for x in s[0].split()[2:5]], np)], parts=1)
        if np in pick((2, 6), (1, 2, 3, 4, 6, 8)):
            d.check('Trace_UpwindWide', [s for s in wide(c.rng, (3,), pick(12, 40)) if ndec([int(x) for x in s[0].split()[2:5]], np)][:pick(2, 12)], parts=1)
    program_level(c, ['upwind.py', 'upwindMPI.py'],
                  lambda nm: [(n, s, 1, 1) for n, s in pick([(1, 2), (2, 6), (3, 5), (4, 3)], [(n, s) for n in range(1, 7) for s in range(0, 7)])] if nm == 'upwind.py'
                  else [(n, s, p, 1) for n, s, p in pick([(2, 6, 4), (3, 5, 3), (4, 3, 8), (4, 2, 2), (6, 1, 6), (3, 2, 1)],
                                                         [(n, s, p) for n in range(1, 7) for s in (0, 1, 3, 6) for p in (1, 2, 3, 4, 6, 8) if ndec([n] * 3, p)])])
    return c.finish()


def long_runs3(rng, gs):
    out = []
    for dims in gs:
        a, sg = rng.randrange(3), rng.choice([-1, 1])
        cc_ = [0, 0, 0]
        cc_[a] = sg
        out.append([new_op(dims, cc_, [1.0, 1.0, 1.0])] + ['A %d 1.0 1 %d %d %d' % (n, *cc_) for n in (11, 30)])
    return out
