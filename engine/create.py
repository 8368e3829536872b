"""Filter creation callbacks (VSPublicFunction) and free callbacks."""
from refs import *

VOIDCB = ['void', 'VSMap*', 'VSMap*', 'void*', 'VSCore*', 'VSAPI*']


def is_create(F):
    return F.dtypes == VOIDCB


def is_free(F):
    return F.dtypes == ['void', 'void*', 'VSCore*', 'VSAPI*']


SETOUT = {'mapSetInt', 'mapSetFloat', 'mapSetData', 'mapSetNode', 'mapSetFrame', 'mapSetFunction', 'mapConsumeNode', 'mapConsumeFrame', 'mapConsumeFunction',
          'mapSetEmpty', 'mapSetIntArray', 'mapSetFloatArray', 'copyMap'}


class CreateClient(RefClient):
    def __init__(self, F, report, want=('frame', 'node', 'func', 'map', 'heap')):
        super().__init__(F, report, want)
        self.exitkinds = {}
        self.reads = []

    def relevant_call(self, F, I, eng):
        f = I['f']
        if isinstance(f, int):
            nm = api_name(F, F.defs.get(f))
            if nm in SETOUT:
                return True
        return super().relevant_call(F, I, eng)

    def relevant_store(self, F, I, eng):
        return super().relevant_store(F, I, eng)

    def init(self, st):
        for k in (0, 1, 3, 4):
            st.facts[('arg', k)] = (None, None, frozenset([0]))
        st.flags['err'] = 0
        st.flags['out'] = 0

    def api(self, st, I, name, args):
        if name == 'mapSetError' and args[0] == ('arg', 1):
            st.flags['err'] = 1
            return [(st, None)]
        if name in SETOUT and args and (args[0] == ('arg', 1) or name == 'copyMap' and args[1] == ('arg', 1)):
            st.flags['out'] = 1
        if name in ('createVideoFilter', 'createAudioFilter') and args[0] == ('arg', 1):
            st.flags['out'] = 1
        return super().api(st, I, name, args)

    def call(self, st, I, name, dem, args):
        # a helper the creation was delegated to: judged through its own analysis, here it may do either
        if any(a == ('arg', 1) for a in args) and dem not in DELFNS:
            st.flags['out'] = 2
        return super().call(st, I, name, dem, args)

    def icall(self, st, I, fterm, args):
        if any(a == ('arg', 1) for a in args):
            st.flags['out'] = 2
        return None

    def ret(self, st, I, val):
        if self.infeasible(st):
            return
        self.exits += 1
        if val == ('exc',):
            self.exitkinds['exception'] = self.exitkinds.get('exception', 0) + 1
            return
        err, out = st.flags['err'], st.flags['out']
        kind = 'error' if err else 'result' if out else 'nothing'
        if kind == 'nothing':
            self.report('silent', I, st, 'the creation callback can return without a result and without an error')
        else:
            self.leak_check(st, I)
        if err and out == 1:
            self.report('mixed', I, st, 'the creation callback can return both a result and an error')
        self.exitkinds[kind] = self.exitkinds.get(kind, 0) + 1


class FreeClient(RefClient):
    """which fields of the instance does the free callback release, and does it delete the instance?"""

    def __init__(self, F, report, inst=('arg', 0)):
        super().__init__(F, report)
        self.inst = inst
        self.freed = []      # per exit: set of released places
        self.deleted = []

    def init(self, st):
        st.facts[self.inst] = (None, None, frozenset([0]))
        st.flags['freed'] = frozenset()
        st.flags['deleted'] = 0

    def place(self, t):
        """instance-relative place of a term: ('f', off...) or ('vec', off)"""
        if t[0] == 'fld':
            if t[1] == self.inst:
                return (t[2],)
            p = self.place(t[1])
            return None if p is None else p + (t[2],)
        if t[0] == 'ldv':
            b, o, v = split(t[1])
            if b[0] == 'vp':
                if b[1] == self.inst:
                    return ('vec', b[2])
                p = self.place(b[1])
                return None if p is None else p + ('vec', b[2])
            if b == self.inst:
                return ('arr', o)
            p = self.place(b)
            return None if p is None else p + ('arr', o)
        return None

    def unowned_release(self, st, I, t, kind, what):
        p = self.place(t)
        if p is not None:
            if (p, kind) in st.flags['freed'] and 'vec' not in p and 'arr' not in p:
                self.report('double-release', I, st, '%s of the same instance field twice' % what)
            st.flags['freed'] = st.flags['freed'] | {(p, kind)}
            if st.flags['deleted'] and t[0] == 'fld' and t[1] == self.inst:
                pass

    def call(self, st, I, name, dem, args):
        if dem in DELFNS or dem in ('free',):
            if args[0] == self.inst:
                if st.flags['deleted']:
                    self.report('double-release', I, st, 'instance data deleted twice')
                st.flags['deleted'] = 1
                return [(st, None)]
            p = self.place(args[0])
            if p is not None:
                st.flags['freed'] = st.flags['freed'] | {(p, 'heap')}
        return super().call(st, I, name, dem, args)

    def load(self, st, I, addr):
        b, o, v = split(addr)
        if b == self.inst and st.flags['deleted']:
            self.report('use-after-release', I, st, 'reads the instance data after deleting it')
        return super().load(st, I, addr)

    def newdel_relevant(self, F, I):
        return True

    def ret(self, st, I, val):
        if self.infeasible(st):
            return
        if val == ('exc',):
            return
        self.exits += 1
        # fields known to be null on this path need no release
        self.leak_check(st, I)
        nulls = set()
        for t, f in st.facts.items():
            if f[0] == f[1] == 0 and t[0] == 'fld':
                p = self.place(t)
                if p:
                    nulls.add(p)
        self.freed.append((st.flags['freed'], frozenset(nulls), I, st))
        self.deleted.append((st.flags['deleted'], I, st))


def collect(F, report_cls=None):
    reps = {}

    def report(rule, I, st, msg, loc=None):
        key = (rule, F.m.loc(I.get('l', -1), F), msg)
        if key not in reps:
            reps[key] = st.trace
    return reps, report


def run_create(F):
    return confirm(_run_create, F)


def run_free(F):
    return confirm(_run_free, F)


def _run_create(F):
    reps, report = collect(F)
    c = CreateClient(F, report)
    e = Engine(F, c)
    e.run()
    return c, e, reps


def _run_free(F, inst=('arg', 0)):
    reps, report = collect(F)
    c = FreeClient(F, report, inst)
    e = Engine(F, c)
    e.run()
    return c, e, reps


if __name__ == '__main__':
    import sys, time
    sys.path.insert(0, '/verif/engine')
    import build
    from ir import Module
    for src, js in build.ir_files(build.filter_units()):
        if len(sys.argv) > 1 and sys.argv[1] not in src:
            continue
        M = Module(js)
        for F in M.funcs.values():
            if len(sys.argv) > 2 and sys.argv[2] not in F.dem:
                continue
            t0 = time.time()
            try:
                if is_create(F):
                    c, e, reps = run_create(F)
                    print('C %-40s steps %5d %.1fs sites %d exits %s transfers %s' % (F.sname[:60], e.steps, time.time() - t0, len(c.sites), c.exitkinds, {(t['owned'], t['inst']) for t in c.transfers}))
                elif is_free(F):
                    c, e, reps = run_free(F)
                    print('F %-40s states %5d %.1fs %s del %s' % (F.sname[:60], len(e.states), time.time() - t0, {x[:2] for x in c.freed}, {d[0] for d in c.deleted}))
                else:
                    continue
            except TooComplex:
                print('TOO COMPLEX', F.dem)
                continue
            for (rule, loc, msg), tr in sorted(reps.items(), key=lambda x: x[0]):
                print('   !!', rule, loc, msg)
