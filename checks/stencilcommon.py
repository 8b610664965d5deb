"""The distributed filter under the stand-in MPI and under mpirun, validated against Stencil.tla and Rma.tla."""
import itertools
from vf import *
from harness import Driver, compile_cxx
from decompcommon import ndec

HOLE = -2000000000
MPI_INC = ['-DOMPI_SKIP_MPICXX', '-DMPICH_SKIP_MPICXX']


def mpi_include():
    r = run(['mpicxx', '-showme:incdirs'])
    return ['-I' + d for d in r.out.split()]


def syms():
    o = scratch('mockmpi_syms.o')
    if not os.path.exists(o):
        cc(['gcc', '-c', os.path.join(HARN, 'mockmpi_syms.c'), '-o', o], 'mockmpi_syms')
    return o


def mock_driver(c):
    """the harness under the stand-in MPI; when the code calls MPI functions the stand-in lacks it does not link"""
    try:
        objs = [syms()]
    except BuildFailed as x:
        c.degrade(str(x))
        return None
    d = Driver(c, 'stencil', [os.path.join(HARN, 'stencil.cpp'), os.path.join(HARN, 'mockmpi.cpp')] + libsources(), flags=['-DMOCK'] + MPI_INC + mpi_include(), libs=objs)
    return d if d.ok else None


# ------------------------------------------------------------------ scenarios
def decomps(dims, p):
    if not dims:
        return [()] if p == 1 else []
    return [(d,) + r for d in range(1, dims[0] + 1) if dims[0] % d == 0 and p % d == 0 for r in decomps(dims[1:], p // d)]


def best(dims, p):
    """the sub-domain shapes of the optimal decompositions"""
    ds = [tuple(n // q for n, q in zip(dims, d)) for d in decomps(dims, p)]
    if not ds:
        return []
    cost = lambda l: sum(1.0 / x for x in l)
    m = min(map(cost, ds))
    return [l for l in ds if cost(l) < m + 1e-12]


def prod(x):
    n = 1
    for y in x:
        n *= y
    return n


def sten(rng, nd, reach, maxn=6, zero=0.7):
    """a stencil along the axes, reaching at most reach[j] along axis j"""
    offs = [tuple(d if i == j else 0 for i in range(nd)) for j in range(nd) for d in range(-reach[j], reach[j] + 1) if d]
    n = rng.choice([1, 2, 3, 4, maxn])
    pickd = rng.sample(offs, min(len(offs), n))
    if rng.random() < zero or not pickd:
        pickd.append(tuple([0] * nd))
    return [(o, rng.choice([-2, -1, 1, 1, 2, 3])) for o in sorted(pickd)]


def N(k, dims, st, lo=None, hi=None):
    nd = len(dims)
    lo = lo or [0.0] * nd
    hi = hi or [1.0] * nd
    s = lambda v: ' '.join(map(str, v))
    return 'N %d %d %s %s %s %d %s' % (k, nd, s(dims), s(lo), s(hi), len(st), ' '.join(s(o) + ' ' + str(w) for o, w in st))


def field(rng, n, how='rand'):
    if how == 'distinct':
        v = list(range(1, n + 1))
        rng.shuffle(v)
        return v
    return [rng.randint(-9, 9) for _ in range(n)]


def random_grid(rng, maxp=12, maxcells=160, nds=(1, 2, 2, 3, 3)):
    while True:
        nd = rng.choice(nds)
        dims = [rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12]) for _ in range(nd)]
        if prod(dims) > maxcells:
            continue
        ps = [p for p in range(1, maxp + 1) if ndec(dims, p)]
        p = rng.choice(ps) if rng.random() < 0.3 else ps[-1] if rng.random() < 0.4 else rng.choice([q for q in ps if q > 1] or ps)
        return dims, p


def box(rng, nd):
    lo = [rng.choice([0.0, 0.0, -1.0, 2.5, -0.25]) for _ in range(nd)]
    return lo, [a + rng.choice([1.0, 1.0, 0.5, 3.0, 10.0]) for a in lo]


def fined(rng, F):
    """values with a second part, far below the first"""
    top = rng.choice([1, 1, 300])
    return ['%d:%d' % (x * top, rng.choice([0, rng.randint(-900, 900)])) for x in F]


def history(rng, k, dims, n, sums=False, fine=False):
    """a sequence of operations on filter k"""
    how = rng.choice(['rand', 'rand', 'distinct'])
    ops = []
    if fine:
        def field(rng, n, how='rand', _f=globals()['field']):
            return fined(rng, _f(rng, n, how))
        ops.append('Q %d %d' % (k, rng.choice([0, 0, -40, 40, -300, 300])))
    else:
        field = globals()['field']
    ops.append('%s %d %s' % (rng.choice('IP'), k, ' '.join(map(str, field(rng, prod(dims), how)))))
    for _ in range(n):
        o = rng.choice('AACCI' if n > 2 else 'AAC')
        if o == 'I':
            ops.append('%s %d %s' % (rng.choice('IP'), k, ' '.join(map(str, field(rng, prod(dims))))))
        else:
            ops.append('%s %d' % (o, k))
        if sums and rng.random() < 0.6:
            ops.append('S %d' % k)
    if not any(o[0] == 'A' for o in ops):
        ops.append('A %d' % k)
    return ops


def world(np, seed, policy='eager', weak=0, expose=0, script=()):
    return 'W %d %d %s %d %d %d %s' % (np, seed, policy, weak, expose, len(script), ' '.join(map(str, script)))


def shifts(rng, p=None, count=30, fine=True, maxcells=160, nds=(1, 2, 2, 3, 3)):
    """a long history: stencils of one or two entries that keep the values small, many applications"""
    dims, p = random_grid(rng, maxcells=maxcells, nds=nds)
    nd = len(dims)
    lds = best(dims, p)
    reach = [min(min(l[j] for l in lds), 2) for j in range(nd)]
    st = sten(rng, nd, reach, zero=0)
    st = [(o, 0) for o, _ in st]
    k = rng.randrange(len(st))
    st[k] = (st[k][0], rng.choice([-1, 1]))
    ops = [world(p, rng.randint(1, 10 ** 6), 'eager', 0, 0), N(1, dims, st, *box(rng, nd))] + history(rng, 1, dims, 1, fine=fine)
    for _ in range(count):
        ops += ['C 1', 'A 1'] if rng.random() < 0.8 else ['A 1'] if rng.random() < 0.5 else [o for o in history(rng, 1, dims, 1, fine=fine) if o[0] != 'Q']
    return ops


def manyproc(rng, sums=False):
    """more processes and cells"""
    while True:
        nd = rng.choice([1, 2, 3, 3])
        dims = [rng.choice([1, 2, 4, 6, 8, 9, 12, 15, 16, 20, 25, 32]) for _ in range(nd)]
        ps = [p for p in range(13, 65) if ndec(dims, p)]
        if ps and prod(dims) <= 1500:
            break
    p = rng.choice(ps)
    reach = [min(min(l[j] for l in best(dims, p)), 2) for j in range(nd)]
    ops = [world(p, rng.randint(1, 10 ** 6), 'eager', 0, 0), N(1, dims, sten(rng, nd, reach), *box(rng, nd))]
    return ops + history(rng, 1, dims, 2, sums, fine=rng.random() < 0.5)


def longside(rng, sums=False, cells=None):
    """sub-domains with a side or a face of hundreds of cells"""
    nd = rng.choice([1, 2, 2, 3])
    dims = [rng.choice([1, 2, 2, 3]) for _ in range(nd)]
    p = rng.choice([1, 2, 2, 3, 4])
    j = rng.randrange(nd)
    n = cells or rng.choice([257, 300, 520, 1030])
    dims[j] = max(1, n // (prod(dims) // dims[j]))
    dims[j] += -dims[j] % p if rng.random() < 0.7 else 0
    while not ndec(dims, p):
        dims[j] += 1
    reach = [min(min(l[j] for l in best(dims, p)), 3) for j in range(nd)]
    ops = [world(p, rng.randint(1, 10 ** 6), 'eager', 0, 0), N(1, dims, sten(rng, nd, reach), *box(rng, nd))]
    return ops + history(rng, 1, dims, 2, sums)


def weighed(rng, sums=False):
    """weights with a second part, far below the first; one application after each input"""
    dims, p = random_grid(rng)
    nd = len(dims)
    reach = [min(min(l[j] for l in best(dims, p)), 2) for j in range(nd)]
    st = [(o, '%s:%d' % (w, rng.randint(-900, 900))) for o, w in sten(rng, nd, reach)]
    ops = [world(p, rng.randint(1, 10 ** 6), 'eager', 0, 0), N(1, dims, st, *box(rng, nd))]
    for _ in range(3):
        ops += ['%s 1 %s' % (rng.choice('IP'), ' '.join(map(str, field(rng, prod(dims))))), 'A 1'] + (['S 1'] if sums else [])
    return ops


def scenario(rng, policy='eager', weak=0, expose=0, sums=False, maxp=12, maxcells=160, nops=None, nds=(1, 2, 2, 3, 3), fine=False):
    dims, p = random_grid(rng, maxp, maxcells, nds)
    lds = best(dims, p)
    reach = [min(min(l[j] for l in lds), 3) for j in range(len(dims))]
    if rng.random() < 0.5:
        reach = [min(r, 1) for r in reach]
    lo, hi = box(rng, len(dims))
    ops = [world(p, rng.randint(1, 10 ** 6), policy, weak, expose), N(1, dims, sten(rng, len(dims), reach), lo, hi)]
    return ops + history(rng, 1, dims, nops or rng.choice([1, 2, 3, 4]), sums, fine)


# ------------------------------------------------------------------ from recorded lines to traces
BAD = {'hang', 'dead', 'stuck', 'endless', 'abort', 'pre', 'lost'}


def split(t):
    """a value a:b"""
    a, _, b = t.partition(':')
    return int(a), int(b or 0)


def parse(ops):
    """np, {filter: (dims, stencil)} and the operations of a scenario"""
    np = int(ops[0].split()[1])
    fil, out = {}, []
    for o in ops[1:]:
        t = o.split()
        if t[0] == 'L':
            continue
        if t[0] == 'N':
            nd = int(t[2])
            dims = [int(x) for x in t[3:3 + nd]]
            q = 3 + 3 * nd
            ns = int(t[q])
            q += 1
            st = [{'o': [int(x) for x in t[q + i * (nd + 1):q + i * (nd + 1) + nd]], 'w': split(t[q + i * (nd + 1) + nd])[0],
                   'w2': split(t[q + i * (nd + 1) + nd])[1]} for i in range(ns)]
            fil[int(t[1])] = (dims, st)
        out.append((t[0], int(t[1]), t))
    return np, fil, out


def boxof(dims, cells):
    """corner and shape of the box the cells form, if they do"""
    ix = []
    for f in cells:
        x = []
        for n in reversed(dims):
            x.append(f % n)
            f //= n
        ix.append(x[::-1])
    if not ix:
        return None
    lo = [min(x[j] for x in ix) for j in range(len(dims))]
    sh = [max(x[j] for x in ix) - lo[j] + 1 for j in range(len(dims))]
    return lo, sh if prod(sh) == len(set(cells)) == len(cells) else None


def nonzero(F):
    """the finer part of a field: empty where there is none"""
    return F if any(F) else []


def globalise(dims, evs, c, v):
    n = prod(dims)
    G, seen, ok = [HOLE] * n, 0, True
    for e in evs:
        if len(e[c]) != len(e[v]):
            ok = False
        for i, x in zip(e[c], e[v]):
            if 0 <= i < n:
                ok = ok and G[i] == HOLE
                G[i] = x
                seen += 1
            else:
                ok = False
    return G, ok and seen == n


def stencil_post(ops, ev, broken=True):
    """merges what the ranks report after each operation"""
    np, fil, todo = parse(ops)
    by = [[e for e in ev if e.get('r') == r and e['e'] in ('new', 'set', 'apply', 'copy', 'sums', 'vtk')] for r in range(np)]
    for r in range(1, np):       # sums come from the root only
        pass
    pos = [0] * np
    out = [{'e': 'start'}]
    bad = [e for e in ev if e['e'] in BAD]
    live = {}
    name = {'N': 'new', 'I': 'set', 'P': 'set', 'A': 'apply', 'C': 'copy', 'S': 'sums', 'V': 'vtk'}
    for o, k, t in todo:
        if o == 'D':
            live.pop(k, None)
            continue
        if o == 'Q':
            continue
        if o != 'N' and k not in live:
            continue
        want = name[o]
        ranks = [0] if o == 'S' else range(np)
        got = []
        for r in ranks:
            if pos[r] < len(by[r]) and by[r][pos[r]]['e'] == want and by[r][pos[r]]['k'] == k:
                got.append(by[r][pos[r]])
                pos[r] += 1
        if len(got) < len(ranks):
            out.append({'e': 'broken', 'what': (bad or [{'e': 'missing'}])[0]})
            return out if broken else out[:-1]
        dims, st = fil[k]
        w = 2 + prod(dims) // 10
        if o == 'N':
            ok = got[0]['ok']
            out.append({'e': 'new', 'k': k, 'dims': dims, 'st': st, 'ok': ok, 'np': np, 'agree': all(g['ok'] == ok and g['np'] == np and g['me'] == g['r'] for g in got)})
            if ok:
                live[k] = 1
        elif o == 'S':
            out.append({'e': 'sums', 'k': k, 'in': got[0]['in'], 'out': got[0]['out'], 'in2': got[0]['in2'], 'out2': got[0]['out2']})
        elif o == 'V':
            out.append({'e': 'none'})
        else:
            fi, t1 = globalise(dims, got, 'c', 'in')
            fo, t2 = globalise(dims, got, 'oc', 'out')
            fine = {f: nonzero(globalise(dims, got, c, f)[0]) for c, f in (('c', 'in2'), ('oc', 'out2'))}
            b = boxof(dims, got[0]['c'])
            e = {'e': want, **fine, 'k': k, 'in': fi, 'out': fo, 'off': sum(g['off'] for g in got), 'tiles': t1 and t2,
                 'ld': b[1] if b and b[1] else [], 'w': w}
            if o in 'IP':
                e['F'] = [split(x)[0] for x in t[2:]]
                e['F2'] = nonzero([split(x)[1] for x in t[2:]])
            out.append(e)
    if bad and broken:
        out.append({'e': 'broken', 'what': bad[0]})
    return out


def rma_post(ops, ev, fields=True):
    """the MPI calls, with what the specification needs to know of the filters"""
    np, fil, todo = parse(ops) if ops else (1, {}, [])
    out = []
    for e in ev:
        if e['e'] == 'start':
            out.append(e)
            for k, (dims, st) in fil.items():
                out.append({'e': 'fil', 'k': k, 'st': st, 'nd': len(dims)})
        elif e['e'] in ('new', 'sums', 'vtk'):
            continue
        elif e['e'] in ('set', 'apply', 'copy'):
            if not fields:
                continue
            b = boxof(fil[e['k']][0], e['c'])
            if b and b[1] and len(e['c']) == len(e['in']):
                v = [x for _, x in sorted(zip(e['c'], e['in']))]
                out.append({'e': 'fld', 'r': e['r'], 'k': e['k'], 'd': b[1], 'v': v})
        else:
            out.append(e)
    return out


# ------------------------------------------------------------------ real MPI
class RealDriver(Driver):
    """the same harness under mpirun: the scenarios of one process count run in one world"""

    def __init__(self, c):
        self.c, self.name, self.timeout, self.env, self.ok, self.groups = c, 'stencil mpirun', 120, None, True, []
        try:
            self.bin = compile_cxx('stencil_real', [os.path.join(HARN, 'stencil.cpp')] + libsources(), cxx='mpicxx')
        except BuildFailed as x:
            self.ok = False
            c.degrade('stencil under MPI does not build: %s' % str(x)[-1500:])

    def launch(self, scen, ids, timeout=None):
        d = tempfile.mkdtemp(prefix='real_', dir=mkscratch('real'))
        p = os.path.join(d, 's')
        np = int(scen[ids[0]][0].split()[1])
        with open(p, 'w') as f:
            f.write(''.join(self.text(i, scen[i]) for i in ids))
        r = run(['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(np), self.bin, p], timeout=timeout or self.timeout, cwd=d)
        r.out = ''
        for k in range(np):
            if os.path.exists('%s.%d' % (p, k)):
                r.out += open('%s.%d' % (p, k), errors='replace').read()
        shutil.rmtree(d, ignore_errors=True)
        return r

    def check(self, spec, scen, **kw):
        if not self.ok:
            return
        by = {}
        for s in scen:
            by.setdefault(s[0].split()[1], []).append(s)
        for np in sorted(by):
            Driver.check(self, spec, by[np], parts=1, **kw)


def describe_ops(ops):
    return '; '.join(ops)


# ------------------------------------------------------------------ parts of other checks
def sums(c):
    """C17: check sums of the distributed filter"""
    rng = c.rng
    d = mock_driver(c)
    S = [scenario(rng, rng.choice(['eager', 'rand']), rng.choice([0, 1]), sums=True, fine=rng.random() < 0.5) for _ in range(pick(120, 1500))]
    S += [weighed(rng, True) for _ in range(pick(10, 100))] + [manyproc(rng, True) for _ in range(pick(4, 40))]
    S += [longside(rng, True) for _ in range(pick(6, 60))] + [longside(rng, True, 70000) for _ in range(pick(1, 4))]
    if d:
        d.check('Trace_Stencil', S, post=lambda i, e: stencil_post(i, e, broken=False), env={'PROP': 'C17'}, kind='filter check sums')
    r = RealDriver(c)
    S = [s for s in S if int(s[0].split()[1]) in (1, 4, 6)][:pick(12, 60)] if d else S[:40]
    r.check('Trace_Stencil', S, post=lambda i, e: stencil_post(i, e, broken=False), env={'PROP': 'C17'}, kind='filter check sums, mpirun')


# ------------------------------------------------------------------ whole programs under the stand-in MPI
def prog_driver(c, name, src):
    try:
        objs = [syms()]
    except BuildFailed as x:
        c.degrade(str(x))
        return None
    d = mkscratch('obj_main_' + name)
    o = os.path.join(d, 'main.o')
    try:
        # (renamed in the object: a main may end without a return, another function may not)
        cc(['g++'] + CXXFLAGS + ['-I' + repo('cxx')] + MPI_INC + mpi_include() + ['-c', repo(src), '-o', d + '/main0.o'], name)
        cc(['objcopy', '--redefine-sym', 'main=prog_main', d + '/main0.o', o], name)
    except BuildFailed as x:
        c.degrade(str(x))
        return None
    d = Driver(c, 'mock ' + name, [os.path.join(HARN, 'mockprog.cpp'), os.path.join(HARN, 'mockmpi.cpp')] + libsources(), flags=MPI_INC + mpi_include(), libs=objs + [o])
    return d if d.ok else None


_pdir = itertools.count()


def prog_scen(np, args, seed=1, policy='eager', weak=1, expose=0):
    return [world(np, seed, policy, weak, expose), 'X %s %s' % (mkscratch('mp', next(_pdir)), ' '.join(map(str, args)))]


def prog_out(ops, r=0, what='out'):
    p = os.path.join(ops[1].split()[1], '%s.%d' % (what, r))
    return open(p, errors='replace').read() if os.path.exists(p) else ''


# ------------------------------------------------------------------ schedules from the specification
SIMS = {'up3': (3, 2, 2, 'upwind'), 'lap2': (2, 2, 2, 'lap'), 'wide2': (2, 3, 2, 'wide'), 'lap4': (4, 1, 2, 'lap'), 'wideb': (3, 2, 2, 'wide2')}
STN = {'upwind': [((-1,), 2), ((0,), 1)], 'lap': [((-1,), 1), ((0,), -2), ((1,), 3)], 'wide': [((-2,), 1), ((-1,), 2), ((0,), 1)], 'wide2': [((-1,), 1), ((2,), 2)]}


def simulated(c, num):
    """behaviours of MC_Halo, as scenarios for the real code with the schedule of the behaviour"""
    def one(n):
        r = tlc('MC_Halo', 'MC_Halo_sim_%s.cfg' % n, extra=['-simulate', 'num=%d' % num, '-depth', '600', '-seed', str(SEED + 7), '-deadlock'], timeout=300)
        return n, sorted(set(re.findall(r'"?SCHED \[([-\d,]*)\]', r.raw))), r
    out = []
    for n, sch, r in pmap(one, sorted(SIMS)):
        if not sch:
            raise TLCError('no schedules from %s:\n%s' % (n, r.raw[-2000:]))
        np, s, t, st = SIMS[n]
        for x in sch:
            ops = [world(np, 1, 'script', 1, 1, [int(y) for y in x.split(',')]), N(1, [np * s], STN[st]), 'I 1 ' + ' '.join(str(i + 1) for i in range(np * s))]
            for k in range(t):
                ops += ['A 1'] + (['C 1'] if k < t - 1 else [])
            out.append(ops)
    c.cov['schedules generated from MC_Halo'] = len(out)
    return out


# ------------------------------------------------------------------ files
def vtk(c):
    """C11: files the distributed filter writes, on any grid and number of processes"""
    import C11
    rng = c.rng
    d = mock_driver(c)
    folder = mkscratch('fvtk')
    S = []
    for k in range(pick(60, 600)):
        dims, p = random_grid(rng, maxcells=100)
        if k % 10 == 9:
            dims = [rng.choice([1, 1, 2]) for _ in dims]
            dims[rng.randrange(len(dims))] = rng.choice([256, 260, 300])
            p = rng.choice([1, 2, 4])
        lo, hi = [], []
        for n in dims:
            lo.append(rng.choice([0.0, 0.0, -1.5, 2.25]))
            hi.append(lo[-1] + n * rng.choice([0.125, 0.25, 0.5, 1.0, 2.5]))
        nd = len(dims)
        path = os.path.join(folder, 'f%d.vtk' % k)
        ops = [world(p, k, rng.choice(['eager', 'rand'])), N(1, dims, [(tuple([0] * nd), 1)], lo, hi), 'I 1 ' + ' '.join(map(str, field(rng, prod(dims)))), 'A 1', 'V 1 ' + path]
        C11.stale(path)
        S.append(ops)

    def post(ops, ev):
        t = ops[1].split()
        nd = int(t[2])
        dims = [int(x) for x in t[3:3 + nd]]
        lo = [float(x) for x in t[3 + nd:3 + 2 * nd]]
        hi = [float(x) for x in t[3 + 2 * nd:3 + 3 * nd]]
        G, ok = globalise(dims, [e for e in ev if e['e'] == 'apply'], 'oc', 'out')
        out = [{'e': 'start'}, {'e': 'grid', 'dims': dims, 'lo': [int(C11.CS * a) for a in lo], 'dl': [int(round(C11.CS * (b - a) / n)) for a, b, n in zip(lo, hi, dims)], 'row': True}]
        if not ok:
            return out
        out.append({'e': 'field', 'F': G})
        p = ops[4].split()[2]
        if any(e['e'] == 'vtk' for e in ev):
            out.append(C11.fileevent(p, 1))
            C11.stale(p)
        elif any(e['e'] in BAD for e in ev):
            out.append({'e': 'broken'})
        return out
    if d:
        d.check('Trace_Vtk', S, post=post, kind='Filter::saveVTK')
    R = RealDriver(c)
    R.check('Trace_Vtk', [s for s in S if s[0].split()[1] in ('1', '4', '6')][:pick(9, 60)], post=post, kind='Filter::saveVTK, mpirun')
