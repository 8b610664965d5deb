"""C18: the same request to every program gives the same field, the one of the scheme."""
from outcomecommon import *
from decompcommon import ndec
from C11 import digits, tokens
import decimal


DIGITS = {'cxx': 6, 'f': 7, 'py': 9}


def acc(name):
    return (10 ** (9 - DIGITS[programs.lang(name).split('-')[0]])) // 2


def files(name, dims, steps, r):
    text = r.file(programs.PROGS[name][2]) or ''
    t = tokens(text, 1, loose=True)
    lines = text.split('\n', 3)
    M, X = [], []
    for k, (e, w) in enumerate(zip(t['tok'], (lines[3] if len(lines) > 3 else '').split())):
        try:
            m, x = digits(w)
        except (decimal.InvalidOperation, ValueError):
            m, x = -1, 0
        M.append(m)
        X.append(x)
        e['v'] = k + 1
    return {'e': 'vtk', 'prog': name, 'tok': t['tok'], 'm': M, 'x': X, 'w': 10 + len(t['tok']) // 10,
            'acc': acc(name)}


def corner(name, dims, r):
    """the file of a large grid: its shape and the values that are not zero"""
    t = (r.file(programs.PROGS[name][2]) or '').split('\n', 3)
    tok = t[3].split() if len(t) > 3 else []
    at = {w: k for k, w in enumerate(tok[:20]) if w.isupper()}
    e = {'e': 'vtkc', 'prog': name, 'dims': dims, 'kind': '', 'size': [], 'ncell': -1, 'nval': -1, 'nz': [], 'w': 200, 'acc': acc(name)}
    try:
        e['kind'] = tok[at['DATASET'] + 1]
        e['size'] = [int(x) - 1 for x in tok[at['DIMENSIONS'] + 1:at['DIMENSIONS'] + 4]]
        k = tok.index('CELL_DATA')
        e['ncell'] = int(tok[k + 1])
        k = tok.index('LOOKUP_TABLE', k)
        val = tok[k + 2:]
        e['nval'] = len(val)
        nz = [p for p, x in enumerate(val) if float(x) != 0][:20000]
        e['nz'] = [dict(zip('pmx', (p,) + digits(val[p]))) for p in nz]
    except (KeyError, ValueError, IndexError, decimal.InvalidOperation):
        pass
    return e


def one(t):
    """(cells, steps, [(program, processes, threads)]) -> trace"""
    n, steps, who = t
    far = n > 30 and n > steps
    ev = [{'e': 'start'}, {'e': 'askc', 'dims': [n] * 3, 'n': steps, 'w': 20 + steps ** 4 // 20} if far else {'e': 'ask', 'dims': [n] * 3, 'n': steps, 'w': 5 + n ** 3 * steps * (2 + steps // 8) // 100}]

    def go(w):
        r = programs.launch(w[0], programs.upwind_args(w[0], n, steps, vtk=True), np=w[1], threads=w[2])
        e = corner(w[0], [n] * 3, r) if far else files(w[0], [n] * 3, steps, r)
        r.drop()
        return e
    return ev + pmap(go, who, workers=3)


def run_check():
    c = Check('C18')
    c.model('MC_Upwind', pick('MC_Upwind_ok.cfg', 'MC_Upwind_big.cfg'), timeout=800)
    rng = c.rng
    names = programs.ensure(c, programs.SERIAL_UPWIND + programs.MPI_UPWIND)
    S = []
    want = [(1, 4), (2, 1), (2, 33), (3, 0), (3, 1), (4, 6), (5, 2), (5, 17), (6, 95), (11, 45), (7, 9), (8, 40), (9, 3), (10, 12), (12, 2)]
    want += [(rng.randint(2, 8), rng.randint(0, 60)) for _ in range(pick(2, 60))] + pick([], [(16, 60), (20, 20), (24, 8), (10, 95)])
    want += [(2, 300), (3, 250), (33, 5), (48, 2), (64, 8), (90, 9), (128, 6)] + pick([], [(128, 10), (100, 15), (150, 2), (50, 20)])
    for n, s in want:
        who = []
        for name in names:
            if name in programs.MPI_UPWIND:
                ps = [p for p in range(1, 13) if ndec([n] * 3, p)]
                who += [(name, p, None) for p in sorted(rng.sample(ps, min(len(ps), pick(1, 3))) + [ps[-1]])]
            elif name in programs.THREADED:
                who += [(name, 1, th) for th in rng.sample([1, 2, 3, 4, 6, 8, 11], pick(1, 3))]
            else:
                who.append((name, 1, None))
        rng.shuffle(who)
        
        k = len(who)
        S += [(n, s, who[i:i + k]) for i in range(0, len(who), k)]
    res = pmap(lambda t: (t, one(t)), S, workers=4)
    log('ran', sum(len(t[2]) for t in S), 'programs')
    before = len(c.violations)
    c.validate('Trace_Same', res, rerun=one, kind='files of the same request')
    for v in c.violations[before:]:
        if not isinstance(v['input'], str):
            n, s, who = v['input']
            v['input'] = '%d cells, %d steps: %s' % (n, s, who)
    c.cov['programs compared'] = names
    return c.finish()
