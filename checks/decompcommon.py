"""C03, C04, C05: the real CubeDecomp validated against Decomp.tla."""
import itertools
from vf import *
from harness import Driver


def ndec(dims, p):
    if not dims:
        return 1 if p == 1 else 0
    return sum(ndec(dims[1:], p // d) for d in range(1, min(p, dims[0]) + 1) if dims[0] % d == 0 and p % d == 0)


def run_prop(pid, mutant):
    c = Check(pid)
    c.model('MC_Decomp')
    if THOROUGH:
        c.model('MC_Decomp', 'MC_Decomp3.cfg')
    if mutant:
        c.model('MC_Decomp', mutant, expect_violation=True)
    d = Driver(c, 'decomp', [os.path.join(HARN, 'decomp.cpp'), repo('cxx', 'CubeDecomp.cpp'), repo('cxx', 'MultiArrayIter.cpp')],
               alt=[os.path.join(HARN, 'decomp.cpp')] + libsources(exclude=('Filter.cpp',)))
    rng = c.rng
    builds = []
    b = lambda p, dims: '%s %d %d %s' % ('B', p, len(dims), ' '.join(map(str, dims)))
    # every grid and process count in a bound
    bounds = pick(((1, 24, 26), (2, 7, 30), (3, 4, 20), (4, 2, 16)), ((1, 60, 64), (2, 12, 48), (3, 6, 40), (4, 3, 27)))
    for nd, mx, mp in bounds:
        for dims in itertools.product(range(1, mx + 1), repeat=nd):
            ps = [p for p in range(1, mp + 1)]
            good = [p for p in ps if ndec(dims, p)]
            bad = [p for p in ps if not ndec(dims, p)]
            keep = set(good) if nd < 3 else set(rng.sample(good, min(len(good), 3)))
            keep |= set(rng.sample(bad, min(len(bad), 2)))
            builds += [(p, dims) for p in keep]
    # larger grids with many candidate decompositions, also non-cubic
    for _ in range(pick(150, 1200)):
        nd = rng.choice([2, 2, 3, 3, 3, 4])
        dims = [rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 30, 32, 36, 48, 60, 64, 128]) for _ in range(nd)]
        cand = [p for p in range(1, 65) if ndec(dims, p)]
        p = rng.choice(cand) if rng.random() < 0.9 else rng.randint(1, 64)
        if nd >= 4 and p > 24:
            p = rng.choice([q for q in cand if q <= 24])
        builds.append((p, dims))
    # grids with more cells than 32 bits count, in particular those where a product of divisors is p modulo 2^32
    builds += [(3, [1331, 2237, 2885]), (19, [717, 3057, 3919]), (62, [2343, 1067, 1718]), (34, [670, 2507, 2557]), (5, [2262, 2262, 2262])]
    for _ in range(pick(40, 300)):
        nd = rng.choice([2, 3, 3, 4])
        top = {2: 9000, 3: 4000, 4: 600}[nd]
        dims = [rng.choice([rng.randint(top // 2, top), 12 * rng.randint(top // 24, top // 12), 2 ** 9]) for _ in range(nd)]
        cand = [p for p in range(1, 49) if ndec(dims, p)]
        builds.append((rng.choice(cand + [rng.randint(2, 48)]), dims))
    # more dimensions
    for _ in range(pick(24, 250)):
        nd = rng.choice([5, 5, 6, 7])
        dims = [rng.choice([1, 2, 2, 3, 4, 6]) for _ in range(nd)]
        top = {5: 16, 6: 8, 7: 4}[nd]
        builds.append((rng.choice([p for p in range(1, top + 1) if ndec(dims, p)]) if rng.random() < 0.9 else rng.randint(1, top), dims))
    # many processes
    for _ in range(pick(12, 80)):
        nd = rng.choice([1, 2, 3])
        dims = [rng.choice([64, 96, 120, 128, 144, 240, 256]) if nd > 1 else 512 for _ in range(nd)]
        builds.append((rng.choice([p for p in range(100, 513) if ndec(dims, p)]), dims))
    rng.shuffle(builds)
    # histories: several builds on the same object, then fresh objects
    scen, k = [], 0
    while k < len(builds):
        n = rng.choice([1, 2, 3, 5, 8])
        ops = []
        for j, (p, dims) in enumerate(builds[k:k + n]):
            s = b(p, dims)
            ops.append('C' + s[1:] if j == 0 and rng.random() < 0.5 else s)
        scen.append(ops)
        k += n
    c.cov['grids'] = len(set((tuple(x[1])) for x in builds))
    c.cov['builds'] = len(builds)
    d.check('Trace_Decomp', scen, env={'PROP': pid})
    return c.finish()
