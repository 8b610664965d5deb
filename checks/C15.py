"""C15: what the programs report, write and leave running, for usable and unusable requests."""
from outcomecommon import *
from decompcommon import ndec
import stencilcommon as sc


def cxx_requests(rng, name, count):
    """argument lists, most of them unusable"""
    lap = name == 'laplacian'
    fixed = [['-h'], ['-foo'], ['--help'], ['-numcells', 4], [N, 4, '-bogus'], ['-bogus', N, 4, V], [N, 4, V, H], [V, H, N, 4],
             [N, 4, V, '-numStep', 3], [N, 4, V], [N, 4], [N, 3, N, 4, V], [N, 4, V, V], [N, 4, H, H, V], [N, 5, 'extra', V],
             [V, N, 2], [N, 1]]
    fixed += [[N, 4, ND, 3], [ND, 1, N, 6, V], [ND, 1, N, 5], [N, 1260, ND, 1, V], [N, 36, V], [N, 12600, ND, 1], [ND, '0' * 20 + '1', N, '+06']] if lap else [[N, 4, T, 0], [N, 4, T, 0, V], [T, 3, N, 4], [N, 6, T, 2, T, 1, V], [N, 4, T, -0, V], [N, '004', T, '0' * 20 + '2'], [T, '+3', N, '+2'], [N, 2, T, 1234], [N, 1, T, 12345, V]]
    if not lap and dict((o[0], 1) for o in OPTS[name]).get(STD):
        fixed += [[N, 4, STD], [STD, V, N, 3, T, 2]]
    out = list(fixed)
    for _ in range(count):
        a = []
        for _ in range(rng.randint(1, 4)):
            a += rng.choice([[N, rng.randint(1, 8)], [N, rng.randint(1, 8)], [ND, rng.randint(1, 3)] if lap else [T, rng.randint(0, 5)], [V], [V],
                             [H], ['-unknown'], ['-v'], ['word'], ['-numCell', 3], ['-1'], ['-.5']])
        if N not in a:
            a = [N, rng.randint(1, 8)] + a
        out.append(a)
    return out


def pos_requests(rng, count):
    out = [[], [4], [4, 0], [4, 3], [4, 3, 'vtk'], [4, 0, 'vtk'], [3, 2, 'VTK'], [3, 2, 'vtx'], [5, 1, 'vtk'], [1, 2], [1, 1, 'vtk'], [6, 2, 'v'],
           ['004', '02', 'vtk'], ['+3', '+1'], ['0' * 19 + '3', '0' * 20 + '2', 'vtk'], [4, 1, 'vtk', 'extra'], [2, 1, 'no', 'vtk'], [2, 1234], [1, 12345, 'vtk']]
    for _ in range(count):
        out.append([rng.randint(1, 8), rng.randint(0, 5)] + rng.choice([[], ['vtk'], ['no']]))
    return out


def mock_post(ops, ev, name):
    """a run under the stand-in MPI as a run of Outcome.tla"""
    d = ops[1].split()[1]
    np = int(ops[0].split()[1])
    out = '\n'.join(sc.prog_out(ops, r) for r in range(np))
    err = '\n'.join(sc.prog_out(ops, r, 'err') for r in range(np))
    tr = [{'e': 'start'}, req(name, ops[1].split()[2:], np)] + say(name, out, err)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not re.fullmatch(r'(out|err)\.\d+', f):
            tr.append({'e': 'file', 'n': f})
    bad = [e for e in ev if e['e'] in sc.BAD and e['e'] != 'pre']
    tr.append({'e': 'end', 'ended': not bad, 'rc': 0})
    shutil.rmtree(d, ignore_errors=True)
    return tr


def run_check():
    c = Check('C15')
    for m in ('ok', 'one') + pick((), ('ok4',)):
        c.model('MC_Outcome', 'MC_Outcome_%s.cfg' % m)
    for m in ('silent', 'helprun', 'rootonly', 'always', 'rootgather', 'allprint'):
        c.model('MC_Outcome', 'MC_Outcome_%s.cfg' % m, expect_violation=True)
    rng = c.rng
    todo = []
    for name in programs.ensure(c, ALL):
        th = 2 if name in programs.THREADED else None
        if name in MPI:
            rs = cxx_requests(rng, name, pick(4, 60)) if name in OPTS else pos_requests(rng, pick(3, 40))
            for a in rs:
                todo.append((name, a, rng.choice([1, 2, 2, 4, 4, 3, 5]), th))
            v = [V] if name in OPTS else ['vtk']
            for n, np in [(4, 3), (4, 5), (4, 7), (5, 4), (3, 2), (6, 4), (4, 8), (6, 12), (2, 8), (2, 3), (9, 6)] + [(rng.randint(1, 9), rng.randint(2, 9)) for _ in range(pick(2, 40))]:
                todo.append((name, ([N, n] + rng.choice([[], v]) if name in OPTS else [n, 1] + rng.choice([[], v])), np, th))
        else:
            todo += [(name, a, 1, th) for a in (cxx_requests(rng, name, pick(14, 120)) if name in OPTS else pos_requests(rng, pick(4, 40)))]
    validate(c, todo, 'C15')
    for name, src in (('upwindMpiCxx', 'upwind/cxx/upwindMpi.cxx'), ('laplacian', 'laplacian/cxx/laplacian.cxx')):
        p = sc.prog_driver(c, name, src)
        if not p:
            continue
        S = []
        for a in cxx_requests(rng, name, pick(10, 120)):
            S.append(sc.prog_scen(rng.choice([2, 3, 4, 5, 6]), a, rng.randint(1, 10 ** 6), rng.choice(['lazy', 'rand', 'prio', 'eager'])))
        for _ in range(pick(14, 150)):
            S.append(sc.prog_scen(rng.randint(2, 9), [N, rng.randint(1, 6)] + rng.choice([[], [V]]) + ([ND, rng.randint(1, 3)] if name == 'laplacian' else [T, rng.randint(0, 3)]),
                                  rng.randint(1, 10 ** 6), rng.choice(['lazy', 'rand', 'prio', 'eager'])))
        p.check('Trace_Outcome', S, post=lambda i, e, n=name: mock_post(i, e, n), env={'PROP': 'C15'}, kind=name + ' under the stand-in MPI')
    return c.finish()
