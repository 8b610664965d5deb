"""Builds the programs of the repository from its current tree and runs them in scratch directories."""
import threading
from vf import *

# name: (language, source, VTK file, how arguments are passed)
PROGS = {
    'upwindCxx': ('cxx-omp', 'upwind/cxx/upwind.cxx', 'up1.vtk'),
    'upwindOMPTasksCxx': ('cxx-omp', 'upwind/cxx/upwindOMPTasks.cxx', 'up1.vtk'),
    'upwindOMP5Cxx': ('cxx-omp', 'upwind/cxx/upwindOMP5.cxx', 'up.vtk'),
    'upwindAccCxx': ('cxx', 'upwind/cxx/upwindAcc.cxx', 'up.vtk'),
    'upwindAcc2Cxx': ('cxx', 'upwind/cxx/upwindAcc2.cxx', 'up.vtk'),
    'upwindMpiCxx': ('cxx-mpi', 'upwind/cxx/upwindMpi.cxx', 'upMpi.vtk'),
    'laplacian': ('cxx-mpi', 'laplacian/cxx/laplacian.cxx', 'laplacian.vtk'),
    'upwindFortran': ('f', 'upwind/fortran/upwind.F90', 'up.vtk'),
    'upwindF03': ('f', 'upwind/fortran/upwindF03.F90', 'up.vtk'),
    'upwindF08': ('f', 'upwind/fortran/upwindF08.F90', 'up.vtk'),
    'upwindF08Gpu': ('f', 'upwind/fortran/upwindF08Gpu.F90', 'up.vtk'),
    'matmult': ('f', 'matmult/fortran/matmult.F90', None),
    'upwind.py': ('py', 'upwind/python/upwind.py', 'up.vtk'),
    'upwindMPI.py': ('py-mpi', 'upwind/python/upwindMPI.py', 'upMPI.vtk'),
}
SERIAL_UPWIND = ['upwindCxx', 'upwindOMPTasksCxx', 'upwindOMP5Cxx', 'upwindAccCxx', 'upwindAcc2Cxx',
                 'upwindFortran', 'upwindF03', 'upwindF08', 'upwindF08Gpu', 'upwind.py']
MPI_UPWIND = ['upwindMpiCxx', 'upwindMPI.py']
THREADED = ['upwindCxx', 'upwindOMPTasksCxx', 'upwindOMP5Cxx', 'upwindFortran', 'upwindF03', 'upwindF08Gpu']
_built = {}
_seq = [0]
_lock = threading.Lock()


def lang(name):
    return PROGS[name][0]


def _lib(mpi):
    """object files of the library"""
    d = mkscratch('progs', 'lib')
    objs = []
    for s in libsources():
        o = os.path.join(d, os.path.basename(s) + '.o')
        objs.append((s, o))
    return objs


def build(names):
    """Builds the programs; returns {name: error} for those that do not build."""
    names = [n for n in names if n not in _built]
    d = mkscratch('progs')
    errs = {}
    cxx = [n for n in names if lang(n).startswith('cxx')]
    objs = []
    if cxx:
        def comp(so):
            if not os.path.exists(so[1]):
                cc(['mpicxx', '-std=c++17', '-O1', '-w', '-I' + repo('cxx'), '-c', so[0], '-o', so[1]], so[0])
        objs = _lib(True)
        try:
            pmap(comp, objs)
        except BuildFailed as x:
            for n in cxx:
                errs[n] = str(x)
            names = [n for n in names if n not in cxx]

    def one(n):
        k, src, _ = PROGS[n]
        src = repo(src)
        out = os.path.join(d, n)
        try:
            if k.startswith('cxx'):
                mpi = [o for s, o in objs]
                cc(['mpicxx', '-std=c++17', '-O1', '-w', '-I' + repo('cxx')] + (['-fopenmp', '-DHAVE_OPENMP'] if k == 'cxx-omp' else []) +
                   [src, '-o', out] + mpi, n)
                _built[n] = [out]
            elif k == 'f':
                md = mkscratch('progs', 'mod_' + n)
                cc(['gfortran', '-O1', '-w', '-cpp', '-fopenmp', '-DHAVE_OPENMP', '-D_THREADS_PER_TEAM=32', '-D_TEAMS=64', '-J', md, src, '-o', out], n)
                _built[n] = [out]
            else:
                _built[n] = [VENV_PY, '-B', src]
        except BuildFailed as x:
            errs[n] = str(x)
    pmap(one, names)
    return errs


def ensure(check, names):
    """Builds; programs that do not build are reported as degraded and left out."""
    errs = build(names)
    for n, e in errs.items():
        check.degrade('program %s does not build: %s' % (n, e[-800:]))
    return [n for n in names if n in _built]


class ProgRun:
    def __init__(self, r, cwd):
        self.r, self.cwd = r, cwd
        self.out, self.err, self.rc = r.out, r.err, r.rc
        self.files = sorted(os.listdir(cwd))

    def file(self, f):
        p = os.path.join(self.cwd, f)
        return open(p, errors='replace').read(1 << 26) if os.path.exists(p) else None

    def drop(self):
        shutil.rmtree(self.cwd, ignore_errors=True)


_late = [0]


def launch(name, args, np=1, threads=None, timeout=60, wrap=None, stale=()):
    """Runs a program in a directory of its own; wrap: a Python script and its arguments, which runs the program."""
    with _lock:
        _seq[0] += 1
        cwd = mkscratch('run', _seq[0])
    for f in stale:      # what an earlier run left
        with open(os.path.join(cwd, f), 'w') as o:
            o.write('stale 7.75 8.5e-3\n' * 20000)
    env = {'OMP_WAIT_POLICY': 'passive'}
    if threads:
        env['OMP_NUM_THREADS'] = str(threads)
    cmd = _built[name] + [str(a) for a in args]
    if wrap:
        cmd = cmd[:-len(args) - 1] + wrap + cmd[-len(args) - 1:]
    k = lang(name)
    if k in ('cxx-mpi', 'py-mpi'):
        cmd = ['mpirun', '--allow-run-as-root', '--oversubscribe', '-n', str(np)] + cmd
        env['OMPI_MCA_rmaps_base_oversubscribe'] = '1'
    # (when many runs do not end, the rest is not waited for that long)
    r = run(cmd, timeout=timeout if _late[0] < 5 else min(timeout, 25), cwd=cwd, merge_env=env)
    if r.timeout:
        _late[0] += 1
    return ProgRun(r, cwd)


def upwind_args(name, n, steps, vtk=False, extra=()):
    if lang(name).startswith('cxx'):
        return ['-numCells', n, '-numSteps', steps] + (['-vtk'] if vtk else []) + list(extra)
    return [n, steps] + (['vtk'] if vtk else [])


def vtk_values(text):
    """The cell values of a VTK file, read leniently."""
    if text is None:
        return None
    m = re.search(r'LOOKUP_TABLE\s+\S+', text)
    if not m:
        return None
    try:
        return [float(t) for t in text[m.end():].split()]
    except ValueError:
        return None


CHECKSUM = re.compile(r'^\s*[Cc]heck ?sum:\s*(\S+)\s*$', re.M)
