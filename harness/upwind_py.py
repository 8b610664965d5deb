"""Drives upwind.Upwind (serial) or upwindMPI.Upwind (argv[2] = 'mpi') like upwind_core.h."""
import gc, io, json, math, os, sys, tracemalloc
sys.path.insert(0, sys.argv[1])
MPIV = len(sys.argv) > 2 and sys.argv[2] == 'mpi'
import numpy
real = os.fdopen(os.dup(1), 'w')
devnull = open(os.devnull, 'w')
sys.stdout = devnull
if MPIV:
    from mpi4py import MPI
    import upwindMPI as mod
    comm = MPI.COMM_WORLD
    rank, size = comm.Get_rank(), comm.Get_size()
else:
    import upwind as mod
    rank, size = 0, 1


def q(vals):
    r, out = 0.0, []
    for x in vals:
        x = float(x)
        if not abs(x) < 2e9:
            r = 9999
            out.append(0)
            continue
        y = round(x)
        r = max(r, abs(x - y) * 1000)
        out.append(int(y))
    return out, int(min(r, 9999))


def emit(**e):
    if rank == 0:
        print(json.dumps(dict(sc=sc, **e)), file=real, flush=True)


sparse = False


def shown(f):
    """the field to report: all of it, or the cells that are not zero"""
    if not sparse:
        return f, {}
    I = numpy.flatnonzero(~(f == 0))
    return f[I[:3000]], dict(len=len(f), I=[int(i) for i in I[:3000]], w=20 + 4 * min(len(I), 3000), **(dict(many=len(I)) if len(I) > 3000 else {}))


def fields():
    """the field pieced together from the sub-domains, and the one gathered by the code"""
    if not MPIV:
        return numpy.array(up.f).reshape(-1), None
    loc = comm.gather((list(map(int, up.iBeg)), list(map(int, up.iEnd)), numpy.array(up.f)), root=0)
    g = up.gatherRoot()
    if rank != 0:
        return None, None
    res = numpy.full(dims, numpy.nan)
    for b, e, f in loc:
        res[tuple(slice(i, j) for i, j in zip(b, e))] = f
    return res.reshape(-1), (numpy.array(g).reshape(-1) if g is not None else numpy.array([numpy.nan]))


text = sys.stdin.read() if rank == 0 else None
if MPIV:
    text = comm.bcast(text, root=0)
it = iter(text.split())
sc, up, keep = 0, None, None
marks = []              # memory held by all processes at the marks of a history


def ended():
    global marks
    if marks:
        emit(e='held', h=marks, slack=24576 * size if MPIV else 4096)
    marks = []


if os.environ.get('VF_MARKS'):
    tracemalloc.start()
for op in it:
    if op == 'S':
        ended()
        sc = int(next(it))
        emit(e='start')
    elif op in 'NZ':
        sparse = op == 'Z'
        nd = int(next(it))
        dims = [int(next(it)) for _ in range(nd)]
        v = numpy.array([float(next(it)) for _ in range(nd)])
        L = numpy.array([float(next(it)) for _ in range(nd)])
        keep = up           # freed after the new one exists
        up = mod.Upwind(v, L, dims)
        if not all(hasattr(up, a) for a in (('f', 'iBeg', 'iEnd', 'gatherRoot') if MPIV else ('f',))):
            (comm.Abort if MPIV else os._exit)(77)      # not the interface this harness knows
        S = 1
        f, g = fields()
        if rank == 0:
            h, x = shown(f)
            F, r = q(h)
            if g is not None:
                h, y = shown(g)
                x.update(G=q(h)[0], **(dict(GI=y['I']) if sparse else {}))
            emit(e='new', dims=dims, F=F, r=r, P=size, **x)
    elif op == 'A':
        n, dt, D = int(next(it)), float(next(it)), int(next(it))
        c = [int(next(it)) for _ in range(nd)]
        for _ in range(n):
            up.advect(dt)
        S *= D ** n
        f, g = fields()
        if rank == 0:
            h, x = shown(f * S)
            F, r = q(h)
            if g is not None:
                h, y = shown(g * S)
                G, rg = q(h)
                x.update(G=G, **(dict(GI=y['I']) if sparse else {}))
                r = max(r, rg)
            x.setdefault('w', 1 + n * len(f) // 8)
            emit(e='adv', n=n, D=D, c=c, S=S, F=F, r=r, **x)
    elif op == 'E':
        n, dt = int(next(it)), float(next(it))
        c = [int(next(it)) for _ in range(nd)]
        for _ in range(n):
            up.advect(dt)
        f, g = fields()
        if rank == 0:
            m, x = [], []
            for y in f:
                t = '%.8e' % y
                k = int(t.split('e')[1]) + 1 if 'e' in t else 0
                m.append(int(t.split('e')[0].replace('.', '')) if 'e' in t else -1)
                x.append(k if m[-1] else 0)
            emit(e='lead', n=n, c=c, m=m, x=x, w=1 + n * len(f) * (1 + n // 20) // 4)
    elif op == 'K':
        x = up.checksum()
        if rank == 0:
            V, r = q([x * S])
            emit(e='sum', v=V[0], r=r)
    elif op == 'L':
        sys.stdout.flush()
        gc.collect()
        h = tracemalloc.get_traced_memory()[0]
        marks.append(comm.allreduce(h) if MPIV else h)
    elif op == 'V':
        fn = next(it)
        up.saveVTK(fn)
        emit(e='vtk', ok=True, S=S)
ended()
if MPIV:
    # the windows are released collectively: in the same order on every process
    keep = None
    up = None
    comm.Barrier()
else:
    os._exit(0)
