"""C11: files written by the real writers, read by the reader of Vtk.tla."""
from upwindcommon import *
from C08 import py_driver
import decimal
import itertools
import zlib

CS = 1000      # scale of the coordinates


def digits(t):
    """A number as (m, x): m 10^(x-9), nine digits in m."""
    d = decimal.Decimal(re.sub('[dD]', 'e', t))
    if not d.is_finite():
        return -1, 0
    if d == 0:
        return 0, 0
    x = d.adjusted() + 1
    m = int((d.scaleb(9 - x)).to_integral_value(decimal.ROUND_HALF_EVEN))
    if abs(m) == 10 ** 9:
        m, x = m // 10, x + 1
    return m, x


def tokens(text, S, loose=False):
    """S: the scale of the values, or None: every value as (m, x)"""
    lines = text.split('\n', 3)
    if len(lines) < 4:
        return {'l1': '', 'l2': 0, 'l3': '', 'tok': []}
    tok = []
    for t in lines[3].split():
        x, i = None, -1
        if re.fullmatch(r'[-+]?(\d+\.?\d*|\.\d+)([eEdD][-+]?\d+)?', t):
            x = float(t.replace('d', 'e').replace('D', 'e'))
        elif not re.fullmatch(r'[A-Za-z_][A-Za-z_0-9]*', t):
            x = float('nan')       # neither a number nor a word
        if re.fullmatch(r'\d+', t) and len(t) < 10:
            i = int(t)

        def q(scale, loose=False):
            if x is None:
                return 0
            y = x * scale
            if not abs(y) < 1e9 or (not loose and abs(y - round(y)) > 0.1):
                return -2000000000
            return int(round(y))
        if S is not None:
            v = q(S, loose)
        else:
            v = dict(zip('mx', digits(t) if x is not None and x == x else (-1, 0)))
        tok.append({'w': t if x is None else '', 'i': i, 'v': v, 'c': q(CS)})
    return {'l1': lines[0][:23], 'l2': len(lines[1]), 'l3': lines[2].strip(), 'tok': tok}


def fileevent(path, S, exact=True, sum=0, tol=0, acc=0):
    try:
        t = open(path, errors='replace').read(1 << 26)
    except OSError:
        t = ''
    e = tokens(t, S)
    return dict(e='vtk', exact=exact, sum=sum, tol=tol, acc=acc, w=5 + len(e['tok']) // 10, **e)


def stale(path):
    """what an earlier run may have left at the path: a longer file (every other path)"""
    if zlib.crc32(os.path.basename(path).encode()) % 2:
        with open(path, 'w') as f:
            f.write('stale 7.75 8.5e-3\n' * 20000)
    elif os.path.exists(path):
        os.unlink(path)


def post(inp, ev, acc=0):
    """solver events to grid, field and file events"""
    ops = [o.split() for o in inp]
    out, k = [], 0
    for e in ev:
        if e['e'] == 'start':
            out.append(e)
            continue
        o = ops[k]
        k += 1
        if e['e'] == 'new':
            nd = int(o[1])
            dims = [int(x) for x in o[2:2 + nd]]
            L = [float(x) for x in o[2 + 2 * nd:2 + 3 * nd]]
            out.append({'e': 'grid', 'dims': dims, 'lo': [0] * nd, 'dl': [int(round(CS * l / n)) for l, n in zip(L, dims)], 'row': True})
            out.append({'e': 'field', 'F': e['F']})
        elif e['e'] == 'adv':
            out.append({'e': 'field', 'F': e['F']})
        elif e['e'] == 'lead':
            out.append({'e': 'field', 'F': [dict(zip('mx', t)) for t in zip(e['m'], e['x'])]})
        elif e['e'] == 'vtk':
            out.append(fileevent(o[1], None if acc else e['S'], acc=acc))
            stale(o[1])
    return out


def prepared(ops):
    for o in ops:
        if o[:2] in ('V ', 'W '):
            stale(o.split()[1])
    return ops


def long(rng, nds, tag):
    """an axis of more than 256 cells, in every direction"""
    out = []
    for nd in nds:
        for j in range(nd):
            dims = [rng.choice([1, 1, 2]) for _ in range(nd)]
            dims[j] = rng.randint(257, 300)
            delta = [rng.choice([0.125, 0.25, 0.5, 1.0, 2.0]) for _ in dims]
            c = [rng.choice([-1, 1]) for _ in dims]
            out.append(prepared([new_op(dims, [ci / 10 * x for ci, x in zip(c, delta)], delta), 'E %d 1.0 %s' % (rng.choice([3, 20]), ' '.join(map(str, c))),
                                 'V ' + os.path.join(mkscratch('vtk'), 'long_%s_%d_%d.vtk' % (tag.replace(' ', '_'), nd, j))]))
    return out


def vscen(rng, dims, tag, k):
    nd = len(dims)
    c = [rng.choice([-1, 1, 2, -2, 3]) for _ in range(nd)]
    delta = rng.sample([0.125, 0.25, 0.375, 0.5, 1.0, 1.25, 2.0, 12.5], nd)
    d = mkscratch('vtk')
    f = lambda j: os.path.join(d, '%s_%d_%d.vtk' % (tag.replace(' ', '_'), k, j))
    ops = [new_op(dims, [x / 10 * q for x, q in zip(c, delta)], delta)]
    if rng.random() < 0.3:
        ops.append('V ' + f(0))
    for j in range(1, rng.choice([2, 2, 3])):
        ops.append('A %d 1.0 10 %s' % (rng.choice([1, 2]), ' '.join(map(str, c))))
        ops.append('V ' + f(j))
    return prepared(ops)


ACC = {'cxx': 500, 'f': 50, 'py': 1}      # half a unit of the last of 6, 7 and 9 digits


def fine(rng, nd, tag, k):
    """Values of any size, to the digits of the file: long axes, many steps."""
    nd = rng.choice(nd)
    dims = rng.choice([[rng.randint(2, 130)], [rng.randint(100, 130)], [rng.randint(2, 6)]] if nd == 1
                      else [[rng.randint(2, 40)] + [rng.randint(1, 3) for _ in range(nd - 1)], [rng.randint(1, 4) for _ in range(nd)], [1] * (nd - 1) + [110]])
    if rng.random() < 0.5:
        rng.shuffle(dims)
    delta = [rng.choice([0.125, 0.25, 0.5, 1.0, 2.0]) for _ in dims]
    while True:
        c = [rng.choice([-3, -1, 0, 1, 1, 2]) for _ in dims]
        if 0 < sum(map(abs, c)) < 9:
            break
    d = mkscratch('vtk')
    ops = [new_op(dims, [ci / 10 * x for ci, x in zip(c, delta)], delta)]
    for j in range(rng.choice([1, 1, 2])):
        ops.append('E %d 1.0 %s' % (rng.choice([1, 5, 20, 105, max(dims)]), ' '.join(map(str, c))))
        ops.append('V ' + os.path.join(d, 'fine_%s_%d_%d.vtk' % (tag.replace(' ', '_'), k, j)))
    return prepared(ops)


def shapes(rng, nds, count):
    out = []
    for nd in nds:
        out += [list(x) for x in itertools.product((1, 2, 3), repeat=nd)]
    out = rng.sample(out, min(len(out), count))
    for _ in range(count // 2):
        nd = rng.choice(nds)
        out.append([rng.randint(1, 12 if nd < 3 else 5) for _ in range(nd)])
    return out


def library_scen(rng, k):
    nd = rng.choice([1, 2, 3, 3])
    dims = [rng.randint(1, 9 if nd < 3 else 5) for _ in range(nd)]
    if k % 10 == 9:
        dims = [rng.choice([1, 1, 2]) for _ in dims]
        dims[rng.randrange(nd)] = rng.randint(257, 300)
    lo = [rng.choice([0.0, 0.0, -1.5, 2.25, -12.5]) for _ in dims]
    dl = [rng.choice([0.125, 0.25, 0.5, 1.0, 2.5]) for _ in dims]
    n = 1
    for x in dims:
        n *= x
    F = [rng.randint(-999, 999) for _ in range(n)]
    fine = rng.random() < 0.4        # six digits, any size
    if fine:
        F = [0 if rng.random() < 0.1 else '%de%d' % (rng.choice([-1, 1]) * rng.randint(1, 10 ** 6 - 1), rng.choice([0, -6, rng.randint(-300, 300)])) for _ in range(n)]
    p = os.path.join(mkscratch('vtk'), 'lib_%d.vtk' % k)
    s = lambda v: ' '.join(map(str, v))
    return prepared(['W %s %d %s %s %s %s' % (p, nd, s(dims), s(lo), s([a + b * m for a, b, m in zip(lo, dl, dims)]), s(F if fine else [x / 10 for x in F]))])


def lpost(inp, ev):
    o = inp[0].split()
    nd = int(o[2])
    dims = [int(x) for x in o[3:3 + nd]]
    lo = [float(x) for x in o[3 + nd:3 + 2 * nd]]
    hi = [float(x) for x in o[3 + 2 * nd:3 + 3 * nd]]
    F = o[3 + 3 * nd:]
    fine = any('e' in x for x in F)
    F = [dict(zip('mx', digits(x))) if fine else int(round(10 * float(x))) for x in F]
    out = [e for e in ev if e['e'] == 'start']
    out.append({'e': 'grid', 'dims': dims, 'lo': [int(CS * a) for a in lo], 'dl': [int(round(CS * (b - a) / n)) for a, b, n in zip(lo, hi, dims)], 'row': False})
    out.append({'e': 'field', 'F': F})
    if any(e['e'] == 'vtk' for e in ev):
        out.append(fileevent(o[1], None if fine else 10, acc=1 if fine else 0))
        stale(o[1])
    return out


def program(t):
    """A whole program run: the file of zero steps is known exactly, others by their sum."""
    name, n, steps, np = t
    r = programs.launch(name, programs.upwind_args(name, n, steps, vtk=True), np=np, stale=[programs.PROGS[name][2]] if (n + np) % 2 else ())
    S = 10 ** 5
    m = programs.CHECKSUM.search(r.out)
    try:
        tot = float(m.group(1))
    except (AttributeError, ValueError):
        tot = None
    # spacing 1/n: choose n so that it is a whole number of thousandths
    ev = [{'e': 'start'}, {'e': 'grid', 'dims': [n] * 3, 'lo': [0] * 3, 'dl': [CS // n] * 3, 'row': True},
          {'e': 'field', 'F': [S] + [0] * (n ** 3 - 1)}]
    files = [programs.PROGS[name][2]] + (['up0.vtk'] if programs.PROGS[name][2] == 'up1.vtk' else [])
    for f in files:
        ex = steps == 0 or f == 'up0.vtk'
        ev.append(fileevent(os.path.join(r.cwd, f), S, exact=ex, sum=int(round(tot * S)) if tot is not None and abs(tot) < 1000 else -1, tol=50 + n ** 3))
    r.drop()
    return ev


def run_check():
    c = Check('C11')
    for k in 'RS':
        c.model('MC_Vtk', 'MC_Vtk_%s_ok.cfg' % k)
    for m in ('R_swapped', 'R_count', 'S_rowpoints', 'S_roworder', 'S_swapped'):
        c.model('MC_Vtk', 'MC_Vtk_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    def both(d, nds, tag, kind):
        d.check('Trace_Vtk', [vscen(rng, s, tag, k) for k, s in enumerate(shapes(rng, nds, pick(24, 120)))], post=post)
        d.check('Trace_Vtk', [fine(rng, nds, tag, k) for k in range(pick(10, 60))] + long(rng, nds, tag), post=lambda i, e: post(i, e, ACC[kind]))
    for t, d in pmap(lambda t: (t, cxx_driver(c, t[0], t[1], t[2], min(3, t[3]), t[4], env={'OMP_NUM_THREADS': '2'})), CXX):
        both(d, list(range(t[2], min(3, t[3]) + 1)), t[0], 'cxx')
    for t, d in pmap(lambda t: (t, fortran_driver(c, t[0], t[1], env={'OMP_NUM_THREADS': '2'})), FORTRAN):
        if d:
            both(d, [1, 2, 3], t[0], 'f')
    both(py_driver(c), [1, 2, 3], 'py', 'py')
    d = Driver(c, 'writeVTK', [os.path.join(HARN, 'writevtk.cpp'), repo('cxx', 'writeVTK.cpp'), repo('cxx', 'MultiArrayIter.cpp')],
               alt=[os.path.join(HARN, 'writevtk.cpp')] + libsources(exclude=('Filter.cpp',)))
    d.check('Trace_Vtk', [library_scen(rng, k) for k in range(pick(60, 500))], post=lpost)
    try:
        import stencilcommon
        stencilcommon.vtk(c)
    except ImportError:
        pass
    names = programs.ensure(c, programs.SERIAL_UPWIND + programs.MPI_UPWIND)
    todo = []
    for nm in names:
        if nm in programs.MPI_UPWIND:
            todo += [(nm, n, s, p) for n, s, p in pick([(2, 0, 4), (4, 0, 8), (5, 0, 5), (4, 2, 2), (2, 3, 8)],
                                                       [(n, s, p) for n in (1, 2, 4, 5, 8) for s in (0, 2, 5) for p in (1, 2, 4, 5, 8) if n % p == 0 or (p == 4 and n % 2 == 0) or (p == 8 and n % 2 == 0)])]
        else:
            todo += [(nm, n, s, 1) for n, s in pick([(2, 0), (4, 0), (5, 3), (1, 0)], [(n, s) for n in (1, 2, 4, 5, 8, 10) for s in (0, 2, 5)])]
    res = pmap(lambda t: (t, program(t)), todo, workers=4)
    c.validate('Trace_Vtk', res, rerun=program, kind='program files')
    return c.finish()
