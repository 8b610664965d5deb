"""C14: histories of the real MultiArrayIter validated against MultiIter.tla."""
import itertools
from vf import *
from harness import Driver


def run_check():
    c = Check('C14')
    c.model('MC_MultiIter')
    c.model('MC_MultiIter', 'MC_MultiIter_keep_pos.cfg', expect_violation=True)
    d = Driver(c, 'multiiter', [os.path.join(HARN, 'multiiter.cpp'), repo('cxx', 'MultiArrayIter.cpp')], alt=[os.path.join(HARN, 'multiiter.cpp')] + libsources(exclude=('Filter.cpp',)))
    rng = c.rng
    scen = []

    def box(nd=None, mx=4, cap=200):
        while True:
            n = nd or rng.choice([1, 2, 2, 3, 3, 4, 5])
            lo = [rng.choice([0, 0, 1, 2, 5, 17]) for _ in range(n)]
            dm = [rng.randint(1, mx) for _ in range(n)]
            p = 1
            for x in dm:
                p *= x
            if p <= cap:
                return lo, [a + b for a, b in zip(lo, dm)], p

    def related(lo, hi):
        """A box like the one before: moved, permuted, reshaped or with another number of axes."""
        dm = [b - a for a, b in zip(lo, hi)]
        lo = [rng.choice([a, rng.randint(0, 4)]) for a in lo]
        k = rng.random()
        if k < 0.4:
            rng.shuffle(dm)
        elif k < 0.6 and len(dm) > 1:      # a factor from one axis to another
            i, j = rng.sample(range(len(dm)), 2)
            f = rng.choice([x for x in range(1, dm[i] + 1) if dm[i] % x == 0])
            dm[i] //= f
            dm[j] *= f
        elif k < 0.7:
            i = rng.randint(0, len(dm))
            dm.insert(i, 1)
            lo.insert(i, rng.randint(0, 3))
        elif k < 0.8:
            dm[rng.randrange(len(dm))] += 1
        p = 1
        for x in dm:
            p *= x
        return lo, [a + b for a, b in zip(lo, dm)], p

    def bl(op, lo, hi, rm):
        return ' '.join(map(str, [op, len(lo), rm] + lo + hi))
    # every small box, walked in both orders
    for nd, mx in ((1, 5), (2, 4), (3, 3)) if not THOROUGH else ((1, 9), (2, 6), (3, 4), (4, 3)):
        for dm in itertools.product(range(1, mx + 1), repeat=nd):
            for rm in (0, 1):
                lo = [rng.choice([0, 1, 3]) for _ in dm]
                hi = [a + b for a, b in zip(lo, dm)]
                scen.append([bl(rng.choice('BC'), lo, hi, rm), 'w', 'e', 'b', 'n', 'w'])
    # random histories: rebuilds with another box and order, moves, partial walks
    for _ in range(pick(1200, 12000)):
        ops = []
        N = None
        for _ in range(rng.randint(4, 14)):
            r = rng.random()
            if N is None or r < 0.2:
                if N is None or rng.random() < 0.4:
                    lo, hi, N = box(cap=pick(150, 400))
                else:
                    lo, hi, N = related(lo, hi)
                ops.append(bl(rng.choice('BBC'), lo, hi, rng.randint(0, 1)))
                pos = 0
            elif r < 0.45 and pos < N:
                ops.append('n')
                pos += 1
            elif r < 0.6:
                ops.append('b')
                pos = 0
            elif r < 0.85:
                pos = rng.randrange(N)
                ops.append('m %d' % pos)
            elif r < 0.95:
                ops.append('w')
                pos = N
            else:
                ops.append('e')
        scen.append(ops)
    # boxes beyond 2^31 and 2^32 elements
    for _ in range(pick(150, 1500)):
        nd = rng.choice([2, 3, 3, 4, 5])
        lo = [rng.choice([0, 0, rng.randint(0, 50), rng.randint(0, 2000000000)]) for _ in range(nd)]
        while True:
            if rng.random() < 0.5:
                top = {2: 99000, 3: 5000, 4: 700, 5: 200}[nd]
                dm = [rng.randint(top // 3, top) for _ in range(nd)]
            else:                          # unequal axes, up to 2^62 elements
                dm = [min(99000, int(2 ** (rng.random() * 17))) for _ in range(nd)]
            p = 1
            for x in dm:
                p *= x
            if 2 ** 31 < p < 2 ** 62:
                break
        hi = [a + b for a, b in zip(lo, dm)]
        N = 1
        for a, b in zip(lo, hi):
            N *= b - a
        at = [0, N - 1] + [x + y for x in (2 ** 31, 2 ** 32, 2 ** 33) for y in (-2, -1, 0, 1)] + [rng.randrange(N) for _ in range(6)]
        at = [(x, rng.choice([0, 0, 1, 2, 5])) for x in at if x < N]
        at = [(x, n) for x, n in at if x + n < N]
        scen.append(['G %d %d %s %d %s' % (nd, rng.randint(0, 1), ' '.join(map(str, lo + hi)), len(at), ' '.join('%d %d' % t for t in at))])
    d.check('Trace_MultiIter', scen)
    return c.finish()
