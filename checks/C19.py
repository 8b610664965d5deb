"""C19: runs of the Laplacian program validated against exact applications of the operator (Trace_Laplacian.tla)."""
from outcomecommon import *
from decompcommon import ndec
from C11 import tokens
import decimal, itertools, math

SCALE = 16


def limbs(k):
    """a whole number in limbs of base 10^8, least first, the last one with the sign"""
    out = []
    while not -10 ** 8 < k < 10 ** 8:
        out.append(k % 10 ** 8)
        k //= 10 ** 8
    if k:
        out.append(k)
    return out


def pi():
    # Machin
    def atan(q):
        s = t = decimal.Decimal(1) / q
        k = 1
        while abs(t) > decimal.Decimal(10) ** -48:
            t = -t / (q * q)
            k += 2
            s += t / k
        return s
    return 4 * (4 * atan(5) - atan(239))


def sine(x):
    s = t = x
    k = 1
    while abs(t) > decimal.Decimal(10) ** -45:
        t = -t * x * x / ((k + 1) * (k + 2))
        k += 2
        s += t
    return s


def samples(n, nd):
    """the input function at the cell centres, in column-major order"""
    with decimal.localcontext() as c:
        c.prec = 55
        P = pi()
        s = [sine(2 * P * (2 * i + 1) / (2 * n)) for i in range(n)]
        out = []
        for ix in itertools.product(range(n), repeat=nd):
            x = decimal.Decimal(1)
            for i in ix:
                x *= s[i]
            out.append(limbs(int((x * 10 ** SCALE).to_integral_value())))
        return out      # the function is symmetric in its arguments


def number(t):
    """a printed number at the scale, or None"""
    try:
        d = decimal.Decimal(t)
    except decimal.InvalidOperation:
        return None
    if not d.is_finite() or abs(d) > 10 ** 30:
        return None
    with decimal.localcontext() as c:
        c.prec = 80
        return limbs(int((d * 10 ** SCALE).to_integral_value()))


def one(t):
    n, nd, np, vtk = t
    args = ['-numCells', n, '-numDims', nd] + (['-vtk'] if vtk else [])
    r = programs.launch('laplacian', args, np=np)
    ev = [{'e': 'start'}, {'e': 'ask', 'dims': [n] * nd, 'init': samples(n, nd), 'w': 5 + n ** nd // 2}]
    m = re.search(r'input\s*=\s*(\S+)\s+output\s*=\s*(\S+)', r.out)
    v = [number(x) for x in m.groups()] if m else []
    ev.append({'e': 'sum', 'v': v if None not in v else []})
    if vtk:
        text = r.file('laplacian.vtk') or ''
        k = tokens(text, 1, loose=True)
        words = (text.split('\n', 3) + [''] * 4)[3].split()
        val = [number(w) for w in words]
        for j, e in enumerate(k['tok']):
            e['v'] = j + 1
        ev.append({'e': 'vtk', 'tok': k['tok'], 'val': [x or [] for x in val], 'good': [x is not None for x in val], 'w': 5 + n ** nd // 4})
    r.drop()
    return ev


def run_check():
    c = Check('C19')
    c.model('MC_Laplacian', pick('MC_Laplacian_ok.cfg', 'MC_Laplacian_ok3.cfg'))
    c.model('MC_Laplacian', 'MC_Laplacian_clamp.cfg', expect_violation=True)
    rng = c.rng
    todo = []
    if programs.ensure(c, ['laplacian']):
        for nd, top in ((1, pick(14, 20)), (2, pick(12, 18)), (3, pick(9, 12))):
            for n in range(1, top + 1):
                ps = [p for p in range(1, 13) if ndec([n] * nd, p)]
                keep = set(rng.sample(ps, min(len(ps), pick(2, 5)))) | {ps[-1]}
                todo += [(n, nd, p, True) for p in sorted(keep)]
        todo += [(n, 4, p, False) for n, p in ((2, 1), (2, 8), (3, 3), (4, 4))] + [(6, 2, 4, False), (5, 3, 5, False)]
        # longer sides
        for nd, ns in ((1, pick([64, 100, 130, 257, 300], range(60, 520, 23))), (2, pick([33, 40], range(19, 66, 5))), (3, pick([13], [13, 16, 17, 20]))):
            for n in ns:
                ps = [p for p in range(1, 17) if ndec([n] * nd, p)]
                todo += [(n, nd, p, rng.random() < 0.7) for p in {rng.choice(ps), ps[-1]}]
        res = pmap(lambda t: (t, one(t)), todo, workers=6)
        log('ran', len(todo), 'programs')
        before = len(c.violations)
        c.validate('Trace_Laplacian', res, rerun=one, kind='laplacian program')
        for v in c.violations[before:]:
            if not isinstance(v['input'], str):
                v['input'] = 'laplacian -numCells %d -numDims %d on %d processes' % v['input'][:3]
    return c.finish()
