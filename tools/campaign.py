#!/usr/bin/env python3
"""campaign.py <seed> <per file> [file ...]: random one-line mutants of the repository's sources, run against the checks that
cover the file until one reports a violation.  Prints the mutants nothing reports.  Scratch copies only.
SNEAK=1: statements that are left out the k-th time they are reached (C++ and Python)."""
import os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UP = ['C06', 'C17', 'C11', 'C18', 'C10', 'C15', 'C09', 'C21']
MAP = {'cxx/CmdLineArgParser.cpp': ['C12', 'C15'], 'cxx/CmdLineArgParser.h': ['C12', 'C15'],
       'cxx/CubeDecomp.cpp': ['C03', 'C04', 'C05', 'C01'], 'cxx/CubeDecomp.h': ['C03', 'C04', 'C05'],
       'cxx/Filter.cpp': ['C01', 'C16', 'C17', 'C02', 'C11'], 'cxx/MultiArrayIter.cpp': ['C14', 'C01'], 'cxx/MultiArrayIter.h': ['C14'],
       'cxx/writeVTK.cpp': ['C11'], 'laplacian/cxx/laplacian.cxx': ['C19', 'C15', 'C02', 'C20', 'C17'], 'matmult/fortran/matmult.F90': ['C13', 'C15'],
       'upwind/cxx/upwind.cxx': UP, 'upwind/cxx/upwindAcc.cxx': UP, 'upwind/cxx/upwindAcc2.cxx': UP, 'upwind/cxx/upwindOMP5.cxx': UP,
       'upwind/cxx/upwindOMPTasks.cxx': UP, 'upwind/cxx/saveVTK.h': ['C11', 'C18'], 'upwind/cxx/upwindMpi.cxx': ['C18', 'C10', 'C15', 'C02', 'C20', 'C17', 'C11'],
       'upwind/cxx/compute_index_set.h': UP, 'upwind/cxx/compute_flat_index_offset_x.h': UP, 'upwind/cxx/compute_flat_index_offset_y.h': UP,
       'upwind/cxx/compute_flat_index_offset_z.h': UP,
       'upwind/fortran/upwind.F90': ['C07', 'C18', 'C11', 'C10', 'C15', 'C09'], 'upwind/fortran/upwindF03.F90': ['C07', 'C18', 'C11', 'C10', 'C15', 'C09'],
       'upwind/fortran/upwindF08.F90': ['C07', 'C18', 'C11', 'C10', 'C15', 'C09'], 'upwind/fortran/upwindF08Gpu.F90': ['C07', 'C18', 'C11', 'C10', 'C15', 'C09'],
       'upwind/python/upwind.py': ['C08', 'C17', 'C11', 'C18', 'C10', 'C15'], 'upwind/python/upwindMPI.py': ['C08', 'C17', 'C11', 'C18', 'C10', 'C15', 'C20'],
       'upwind/python/saveVTK.py': ['C11', 'C18']}
OPS = [(r'(?<![<>=!\-+*/&|%-])<(?![<=a-zA-Z])', '<='), (r'<=', '<'), (r'(?<![-<>=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='),
       (r'(?<=[\w\)\] ])\+(?=[ \w\(])(?!\+)', '-'), (r'(?<=[\w\)\] ])-(?=[ \w\(])(?!-)', '+'), (r'(?<=[\w\)\] ])\*(?=[ \w\(])(?!\*)', '+'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])1(?![\w.])', '2'), (r'(?<![\w.])2(?![\w.])', '3'), (r'\b1\.0\b', '1.0000001'), (r'\b0\.5\b', '0.4999999'),
       (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bTrue\b', 'False'), (r'\bFalse\b', 'True'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\bdouble\b', 'float'), (r'\bsize_t\b', 'unsigned char'), (r'\bsize_t\b', 'short'), (r'real\(8\)', 'real(4)'), (r'\.lt\.|\.LT\.', '.le.'), (r'\.and\.', '.or.'),
       (r'%', '+'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min')]


def mutants(path, rng):
    out = []
    text = open(path).read()
    lines = text.split('\n')
    comment = False
    for k, l in enumerate(lines):
        t = l.strip()
        if '/*' in t:
            comment = True
        if comment:
            comment = '*/' not in t
            continue
        if not t or t.startswith(('//', '#include', '#pragma', '!', 'std::cerr', 'print')) or (path.endswith('.py') and t.startswith(('#', '"""'))):
            continue
        code = re.sub(r'"[^"]*"|\'[^\']*\'', lambda m: '\0' * len(m.group()), l)
        for rx, to in OPS:
            if rx == '%' and path.endswith('.F90'):
                continue
            for m in re.finditer(rx, code):
                out.append((k, l[:m.start()] + to + l[m.end():]))
        if (re.match(r'^[^(){}]*[=(].*;\s*$', t) or (not path.endswith(('.cpp', '.h', '.cxx')) and re.match(r'^[\w%.\[\], ():+\-]+ *[-+*]?= ', t))) and not re.match(r'^(const |double |int |size_t |std::|bool |for|return|type|integer|real|subroutine)', t):
            out.append((k, re.match(r'\s*', l).group() + (';' if path.endswith(('.cpp', '.h', '.cxx')) else 'pass' if path.endswith('.py') else 'continue')))
    rng.shuffle(out)
    return lines, out


def sneaky(path, rng):
    out = []
    lines = open(path).read().split('\n')
    cc = path.endswith(('.cpp', '.h', '.cxx'))
    comment = False
    for k, l in enumerate(lines):
        t = l.strip()
        if '/*' in t or t.startswith('"""'):
            comment = not (comment or t.count('"""') == 2 or '*/' in t)
            continue
        if comment:
            comment = not ('*/' in t or '"""' in t)
            continue
        K = rng.choice([2, 3, 5, 11, 40, 300])
        if cc and re.match(r'^[\w>.\-\[\]():&+* ,]+?(\+\+|--|[-+*/]?= .*|\(.*\));$', t) and t.count('(') == t.count(')') and not re.match(
                r'^(const|double|int|size_t|std::\w+<|std::string|std::o|bool|for|return|long|auto|else|if|delete|using|Filter|Upwind|CubeDecomp|CmdLine|MultiArr|float|char|[a-zA-Z:<>]+ +[\w\[\]]+( =|;|\())', t):
            out.append((k, '{ static long vfn_ = 0; if (++vfn_ != %d) { %s } }' % (K, t)))
        if path.endswith('.F90') and re.match(r"^([\w%() ,+\-*:]+? *= *[^=>].*|call [\w %]+\(.*\))$", t) and not re.match(r'^(do|if|else|integer|real|type|end|!|character|logical|stop|#)\b', t, re.I) and '&' not in t and '::' not in t:
            out.append((k, 'block; integer, save :: vfn_ = 0; vfn_ = vfn_ + 1; if (vfn_ /= %d) %s; end block' % (K, t)))
        if path.endswith('.py') and re.match(r'^(self\.)?[\w.\[\], ():]+ *[-+*/]*= *[^=]|^[\w.]+\(.*\)$', t) and t.count('(') == t.count(')') and not t.startswith(('print', 'def', 'if', 'for', 'import', 'from')):
            out.append((k, re.match(r'\s*', l).group() + 'if __import__("builtins").__dict__.setdefault("vfn%d", __import__("itertools").count(1)).__next__() != %d: %s' % (k, K, t)))
    rng.shuffle(out)
    return lines, out


def one(job):
    f, k, old, new = job
    d = tempfile.mkdtemp(prefix='camp_', dir='/tmp')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s' % d, shell=True, check=True)
        p = os.path.join(d, f)
        L = open(p).read().split('\n')
        assert L[k] == old
        L[k] = new
        open(p, 'w').write('\n'.join(L))
        if f.endswith(('.cpp', '.cxx', '.h')):
            tgt = p
            if f.endswith('.h'):
                tgt = {'saveVTK.h': 'upwind/cxx/upwindAcc2.cxx', 'CmdLineArgParser.h': 'cxx/CmdLineArgParser.cpp', 'CubeDecomp.h': 'cxx/CubeDecomp.cpp', 'MultiArrayIter.h': 'cxx/MultiArrayIter.cpp'}.get(os.path.basename(f), 'upwind/cxx/upwindAcc2.cxx')
                tgt = os.path.join(d, tgt)
            if subprocess.run(['mpicxx', '-fopenmp', '-w', '-fsyntax-only', '-I', d + '/cxx', tgt], capture_output=True).returncode:
                return job, 'nocompile'
        elif f.endswith('.F90'):
            if subprocess.run(['gfortran', '-cpp', '-fopenmp', '-w', '-fsyntax-only', '-J', d, p], capture_output=True).returncode:
                return job, 'nocompile'
        elif subprocess.run([sys.executable, '-m', 'py_compile', p], capture_output=True).returncode:
            return job, 'nocompile'
        odd = []
        for c in MAP[f]:
            r = subprocess.run([V + '/bin/check', c, 'quick'], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d), cwd=V)
            if r.returncode == 1:
                return job, 'caught by ' + c
            if r.returncode != 0:
                odd.append('%s rc=%d' % (c, r.returncode))
            if 'does not build' in r.stderr + r.stdout and 'upwindAcc.cxx acc' not in r.stderr:
                odd.append(c + ' degraded')
        return job, 'SURVIVES ' + ' '.join(odd)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    seed, per = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or sorted(MAP)
    rng = random.Random(seed)
    jobs = []
    for f in files:
        L, m = (sneaky if os.environ.get('SNEAK') else mutants)('/repo/' + f, rng)
        jobs += [(f, k, L[k], n) for k, n in m[:per] if L[k] != n]
    rng.shuffle(jobs)
    with ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex:
        for (f, k, old, new), res in ex.map(one, jobs):
            print('%s:%d %s\n    - %s\n    + %s' % (f, k + 1, res, old.strip(), new.strip()) if 'SURV' in res else '%s:%d %s' % (f, k + 1, res), flush=True)


main()
