"""Builds and drives line-oriented harnesses."""
from vf import *


def compile_cxx(name, sources, incs=(), flags=(), libs=(), cxx='g++'):
    name = name.replace(' ', '_')
    mkscratch()
    out = scratch('bin_' + name)
    inc = ['-I' + HARN, '-I' + repo('cxx')] + ['-I' + i for i in incs]
    if len(sources) == 1:
        cc([cxx] + CXXFLAGS + list(flags) + inc + list(sources) + ['-o', out] + list(libs), name)
        return out
    d = mkscratch('obj_' + name)

    def one(k):
        o = os.path.join(d, '%d.o' % k)
        cc([cxx] + CXXFLAGS + list(flags) + inc + ['-c', sources[k], '-o', o], name)
        return o
    objs = pmap(one, range(len(sources)))
    cc([cxx] + [f for f in flags if not f.startswith('-D')] + objs + ['-o', out] + list(libs), name)
    return out


class Driver:
    """A program that reads scenarios ("S <id>", operations, ".") and prints one ndjson event per line."""

    def __init__(self, check, name, sources=None, alt=None, cmd=None, timeout=60, env=None, **kw):
        self.c, self.name, self.timeout = check, name, timeout
        self.cmd, self.ok, self.env = cmd, True, env
        self.groups = []
        if cmd is None:
            self.ok = False
            errs = []
            for s in [sources] + ([alt] if alt else []):
                try:
                    self.cmd = [compile_cxx(name, s, **kw)]
                    self.ok = True
                    break
                except BuildFailed as x:
                    errs.append(str(x))
            if not self.ok:
                check.degrade('harness %s does not build: %s' % (name, errs[0][-1500:]))

    def text(self, sc, ops):
        return 'S %d\n%s\n.\n' % (sc, '\n'.join(ops))

    def launch(self, scen, ids, timeout=None):
        return run(self.cmd, inp=''.join(self.text(i, scen[i]) for i in ids), timeout=timeout or self.timeout, merge_env=self.env)

    def collect(self, scen, ids, depth=0):
        """Runs the scenarios; a crash is attributed to the scenario that was running, the rest is run again."""
        res = {}
        ids = list(ids)
        while ids:
            r = self.launch(scen, ids)
            ev = events_of(r)
            if r.rc == 77:
                self.c.degrade('harness %s does not fit the code any more' % self.name)
                return {}
            if not r.crashed and r.rc == 0:
                for i in ids:
                    res[i] = ev.get(i, [])
                return res
            # scenarios are run in order: the last one with output is the one that failed
            done = [i for i in ids if i in ev]
            bad = done[-1] if done else ids[0]
            r1 = self.launch(scen, [bad], timeout=100)
            if r1.crashed or r1.rc != 0:
                self.c.violation(self.name + ' crash', self.describe(scen[bad]),
                                 'the code under test failed (%s) %s' % (r1.describe(), r1.err[-400:]))
                self.c.crashes += 1
                res[bad] = []
            else:
                res[bad] = events_of(r1).get(bad, [])
                before = ids[:ids.index(bad) + 1]
                r2 = self.launch(scen, before)
                if not r2.timeout and (r2.crashed or r2.rc not in (0, 77)) and list(events_of(r2))[-1:] == [bad]:
                    self.c.violation(self.name + ' crash', '; then '.join(self.describe(scen[i]) for i in before),
                                     'the code under test failed after other scenarios in the same process (%s) %s' % (r2.describe(), r2.err[-400:]))
                    self.c.crashes += 1
            k = ids.index(bad)
            for i in ids[:k]:
                res[i] = ev.get(i, [])
            ids = ids[k + 1:]
            if self.c.crashes >= 2:
                for i in ids:
                    res[i] = []
                return res
        return res

    def describe(self, ops):
        return ops if isinstance(ops, str) else '; '.join(ops)

    def gather(self, scen, parts=None):
        """runs the scenarios: their events"""
        n = parts or min(NCPU, max(1, len(scen) // 4))
        groups = [list(range(k, len(scen), n)) for k in range(n)]
        self.groups = [g for g in groups if g]
        res = {}
        for g in pmap(lambda g: self.collect(scen, g), [g for g in groups if g]):
            res.update(g)
        log(self.name, 'ran', len(scen), 'scenarios')
        return res

    def check(self, spec, scen, parts=None, kind=None, post=None, res=None, **kw):
        """runs the scenarios (unless their events are given) and validates what `post` makes of the events"""
        if not self.ok or self.c.crashes >= 2:
            return
        if res is None:
            res = self.gather(scen, parts)
        def f(inp, ev):
            if post is None:
                return ev
            try:
                return post(inp, ev)
            except Exception as x:         # what was recorded cannot even be read
                return [{'e': 'start', 'sc': 0}, {'e': 'unreadable', 'r': 0, 'what': '%s: %s' % (type(x).__name__, x)}]
        pairs = [(Input(i, self.describe(scen[i])), f(scen[i], res[i])) for i in range(len(scen)) if res.get(i)]

        def rerun(i):
            r = self.launch(scen, [i.i], timeout=60)
            ev = events_of(r).get(i.i, [])
            return f(scen[i.i], ev) if ev else None
        def again(i):
            g = next((g for g in self.groups if i.i in g), [i.i])
            r = self.launch(scen, g[:g.index(i.i) + 1], timeout=60)
            ev = events_of(r).get(i.i, [])
            return f(scen[i.i], ev) if ev else None
        self.c.validate(spec, pairs, rerun=rerun, again=again if self.groups else None, kind=kind or self.name, **kw)


class Input(str):
    """the text of a scenario, with its number"""
    def __new__(cls, i, text):
        x = str.__new__(cls, text)
        x.i = i
        return x
