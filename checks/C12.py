"""C12: histories of the real CmdLineArgParser validated against CmdLine.tla."""
import itertools
from vf import *
from harness import Driver


def hx(s):
    return s.encode('latin1').hex() or '-'


def run_check():
    c = Check('C12')
    c.model('MC_CmdLine', pick('MC_CmdLine_ok.cfg', 'MC_CmdLine_5.cfg'), timeout=800)
    for m in ('noscan', 'set'):
        c.model('MC_CmdLine', 'MC_CmdLine_%s.cfg' % m, expect_violation=True)
    d = Driver(c, 'cmdline', [os.path.join(HARN, 'cmdline.cpp'), repo('cxx', 'CmdLineArgParser.cpp')],
               alt=[os.path.join(HARN, 'cmdline.cpp')] + libsources(exclude=('Filter.cpp',)))
    rng = c.rng
    scen = []

    def decl(k, n, v, h):
        return 'D %s %s %s %s' % (k, hx(n), hx(v), hx(h))

    def reads(opts, extra=()):
        r = ['G %s %s' % (k, hx(n)) for n, k in opts.items()] + ['G b ' + hx('-h')]
        rng.shuffle(r)
        return r + ['G %s %s' % (k, hx(n)) for k, n in extra]
    P = lambda args: 'P %d %s' % (len(args), ' '.join(map(hx, args)))
    # every argument list over a small alphabet
    opts = {'-i': 'i', '-d': 'd', '-s': 's', '-b': 'b', '-t': 'b'}
    base = [decl('i', '-i', '7', 'an int'), decl('d', '-d', '2.5', 'a real'), decl('s', '-s', 'abc', 'a text'),
            decl('b', '-b', '0', 'flag'), decl('b', '-t', '1', 'other flag')]
    items = [['-i', '3'], ['-i', '-42'], ['-i', '010'], ['-d', '-.5'], ['-d', '1.25'], ['-s', 'x'], ['-b'], ['-t'], ['-h'], ['5'], ['-z'], ['-7'], ['--i']]
    allowed = list(itertools.chain.from_iterable(itertools.product(items, repeat=n) for n in range(0, pick(3, 4))))
    for li in allowed:
        scen.append(base + [P(sum(li, []))] + (['H ' + hx('purpose')] if rng.random() < 0.3 else []) + reads(opts, [('i', '-z'), ('d', '-q')]))
    # random declarations and lists

    def word(n=None):
        return ''.join(rng.choice('abcdefgXYZ_') for _ in range(n or rng.randint(1, 6)))

    def ival():
        return rng.choice([str(rng.randint(-99, 99)), str(rng.randint(-2 ** 31 + 1, 2 ** 31 - 1)), '0', '-1', '2147483647', '007', '+5', '-0', '0%d' % rng.randint(1, 9999), '-00%d' % rng.randint(1, 9999), '+0%d' % rng.randint(8, 99)])

    def dval():
        m = rng.randint(-10 ** 6, 10 ** 6)
        f = rng.choice(['0%d.%03d' % (abs(m) // 1000, abs(m) % 1000), '%d.%03d' % (abs(m) // 1000, abs(m) % 1000), '.%03d' % (abs(m) % 1000), '%d' % (abs(m) // 1000), '%d.' % (abs(m) // 1000),
                        '%de-3' % abs(m), '%d.%de-1' % (abs(m) // 1000, abs(m) % 10), '%dE2' % (abs(m) // 1000), '%de+1' % (abs(m) // 1000)])
        if rng.random() < 0.3:      # up to fifteen digits, any exponent
            q = str(rng.randint(1, 10 ** rng.randint(1, 15) - 1))
            k = rng.randint(0, len(q))
            f = q[:k] + rng.choice(['.', '.']) + q[k:] + rng.choice(['', 'e%d' % rng.randint(-290, 290), 'e%+03d' % rng.randint(-30, 30)])
        return rng.choice(['', '-', '-', '+']) + f

    def sval():
        return rng.choice([word(), '', '-', '-3', 'a b', '1.5', '/tmp/f.vtk', 'x=-y', '.', '-.', 'h', 'a' * 60])
    for _ in range(pick(250, 3000)):
        opts, ops = {}, []
        names = set()
        while len(names) < rng.randint(1, 8):
            names.add('-' + rng.choice(['', '', '-']) + word())
        names = [n for n in names if n not in ('-h',)]
        if rng.random() < 0.3 and names:      # one name a prefix of another
            names.append(names[0] + 'x')
        for n in names:
            k = rng.choice('iidsb')
            opts[n] = k
            v = {'i': str(rng.randint(-10 ** 6, 10 ** 6)), 'd': dval(), 's': word(), 'b': rng.choice('01')}[k]
            ops.append(decl(k, n, v, rng.choice(['', 'help of ' + word()])))
        if rng.random() < 0.3:
            ops += reads(opts)
        if rng.random() < 0.5:
            ops.append('H ' + hx('purpose ' + word()))
        for _ in range(rng.choice([1, 1, 2, 3])):
            bad = rng.random() < 0.3
            args = []
            for _ in range(rng.randint(0, 7)):
                if rng.random() < 0.15:
                    args.append(rng.choice(['12', 'pos', '-5', '3.5', word()]))
                    continue
                n = rng.choice(list(opts) + ['-h'])
                args.append(n)
                if n in opts and opts[n] != 'b':
                    v = {'i': ival, 'd': dval, 's': sval}[opts[n]]()
                    while v in opts or (v[:1] == '-' and len(v) > 1 and not v[1].isdigit() and v[1] != '.'):
                        v = word()
                    args.append(v)
            args = [a for a in args]
            if bad:
                u = '-' + word() + 'Q'
                if u not in opts:
                    # not between an option and its value
                    pos = rng.randint(0, len(args))
                    while 0 < pos and args[pos - 1] in opts and opts[args[pos - 1]] != 'b':
                        pos += 1
                    args.insert(pos, u)
            ops.append(P(args))
            ops += reads(opts, [(rng.choice('idsb'), '-' + word() + 'U')])
        if rng.random() < 0.5:
            ops.append('H ' + hx('purpose ' + word()))
        scen.append(ops)
    # many options, many arguments, long texts
    for _ in range(pick(12, 150)):
        many = rng.choice([10, 40, 90, 150])
        names = ['-' + (word(rng.choice([1, 3, 40, 90, 200, 300])) if rng.random() < 0.5 else '') + 'n%d' % k for k in range(many)]
        opts = {n: rng.choice('iisdb') for n in names}
        ops = [decl(k, n, {'i': str(rng.randint(-10 ** 6, 10 ** 6)), 'd': dval(), 's': word(rng.choice([5, 300])), 'b': rng.choice('01')}[k], word(rng.choice([3, 250]))) for n, k in opts.items()]
        for _ in range(rng.choice([1, 2])):
            args = []
            for n in [rng.choice(names) for _ in range(rng.choice([3, 60, 130]))]:
                args.append(n)
                if opts[n] != 'b':
                    args.append({'i': ival, 'd': dval, 's': lambda: word(rng.choice([1, 20, 256, 300, 1100]))}[opts[n]]())
                    while opts[n] != 's' and args[-1][:1] == '-' and not (args[-1][1:2].isdigit() or args[-1][1:2] == '.'):
                        args[-1] = '5'
            ops.append(P(args))
            ops += reads(opts)
        if rng.random() < 0.3:
            ops.append('H ' + hx('purpose ' + word(300)))
        scen.append(ops)
    c.cov['argument_lists'] = len(scen)
    d.check('Trace_CmdLine', scen)
    return c.finish()
