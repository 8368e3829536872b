"""getFrame callbacks: reference balance, activation protocol, requests/fetches."""
from refs import *

AR_INITIAL, AR_READY, AR_ERROR = 0, 1, -1


def is_getframe(F):
    return len(F.dtypes) == 8 and F.dtypes[0] == 'VSFrame*' and F.dtypes[5] == 'VSFrameContext*' and F.dtypes[2] == 'int'


class GetFrameClient(RefClient):
    key_terms = (('arg', 1),)

    def relevant_store(self, F, I, eng):
        return super().relevant_store(F, I, eng) or self.to_frame_data(F, I['a'][1])

    def to_frame_data(self, F, o):
        while isinstance(o, int):
            D = F.defs.get(o)
            if D is None:
                return o == 3
            if D['o'] != 'getelementptr':
                return False
            o = D['a'][0]
        return False

    def __init__(self, F, report, slots=None):
        super().__init__(F, report, ('frame', 'node', 'func', 'map'))
        self.requests = []
        self.fetches = []
        self.slots = slots or {}
        self.hasreq = any(api_name(F, F.defs.get(I['f'])) == 'requestFrameFilter' for I in F.insts() if I['o'] in ('call', 'invoke') and isinstance(I['f'], int))
        self.slotstores = {}
        self.guards = {}      # instance field holding a cached reference -> {other field: known to be non-zero / zero at every store}
        self.nothing = []
        self.exitkinds = {}

    def init(self, st):
        # instance, context, api are never null
        for k in (2, 3, 4, 5, 6):
            st.facts[('arg', k)] = (None, None, frozenset([0]))
        st.facts[('arg', 0)] = (0, None, frozenset())
        st.facts[('arg', 1)] = (-1, 1, frozenset())
        st.flags['req'] = 0
        st.flags['err'] = 0
        for k, kind in self.slots.items():
            t = ('fld', ('arg', 3), k, 0)
            st.res[t] = (kind, 1, -1)

    def api(self, st, I, name, args):
        if name == 'requestFrameFilter':
            st.flags['req'] = 1
            self.requests.append((I, args[0], args[1], st.copy()))
            self.use(st, I, args[1], name)
            return [(st, None)]
        if name == 'getFrameFilter':
            self.fetches.append((I, args[0], args[1], st.copy()))
        if name == 'setFilterError':
            st.flags['err'] = 1
            return [(st, None)]
        return super().api(st, I, name, args)

    def store(self, st, I, addr, val):
        b, o, v = split(addr)
        if b == ('arg', 3) and val in st.res and not v:
            k, c, l = st.res[val]
            if c > 0:
                st.res[val] = (k, -1, l)
                self.slotstores.setdefault(o, set()).add(k)
        elif val in st.res and st.res[val][1] > 0 and b in (('arg', 2),):
            # kept in the filter instance
            k, c, l = st.res[val]
            st.res[val] = (k, -1, l)
            # what is known about other instance fields whenever this field is set
            if not v:
                g = {}
                for t, f in st.facts.items():
                    if t[0] == 'fld' and t[1] == ('arg', 2):
                        g[t[2]] = 1 if 0 in f[2] or (f[0] or 0) > 0 else 0 if f[0] == f[1] == 0 else None
                    elif t[0] in ('bin', 'cmp') and len(t) > 3:
                        pass
                g = {k2: x for k2, x in g.items() if x is not None and k2 != o}
                old = self.guards.get(o)
                self.guards[o] = g if old is None else {k2: x for k2, x in old.items() if g.get(k2) == x}
        return super().store(st, I, addr, val)

    def ret(self, st, I, val):
        if self.infeasible(st):
            return
        self.exits += 1
        if val == ('exc',):
            return
        ar = st.fact(('arg', 1))
        ex = set()
        # returned frame leaves with one reference
        if val in st.res:
            k, c, l = st.res[val]
            if k != 'frame':
                self.report('return-kind', I, st, 'returns a %s where a frame is expected' % k)
            elif c <= 0:
                self.report('double-release', I, st, 'returns the frame acquired at %s after its reference was released' % self.F.m.loc(l))
            else:
                st.res[val] = (k, c - 1, l)
        null = val == ('c', 0) or st.isnull(val)
        nonnull = not null
        if val[0] == 'elem':
            for m in self.members(st, val[1]):
                k, c, l = st.res[m]
                st.res[m] = (k, max(0, c - 1), l)
        elif nonnull and val not in st.res and val[0] in ('fld', 'ldv'):
            self.report('unowned-return', I, st, 'returns a frame held in the instance without taking a reference')
        req, err = st.flags['req'], st.flags['err']
        # slots carried over: must be gone on terminal exits
        keep = set()
        for k, kind in self.slots.items():
            t = ('fld', ('arg', 3), k, 0)
            if t in st.res:
                nonterminal = null and not err and req
                first = st.fact(t)
                if nonterminal or st.isnull(t):
                    keep.add(t)
                if ar[0] == ar[1] == 0:
                    keep.add(t)   # nothing can be stored before the first activation
        self.leak_check(st, I, keep)
        kind = ('frame' if nonnull else 'error' if err else 'request' if req else 'nothing')
        self.exitkinds[kind] = self.exitkinds.get(kind, 0) + 1
        if nonnull and err:
            self.report('frame-and-error', I, st, 'returns a frame after setFilterError')
        if null and not err and not req:
            lo, hi, exl = ar
            can = [r for r in (0, 1) if inside(ar, r) and (r == 0 or self.hasreq)]
            if can:
                self.nothing.append((st.copy(), lambda can=can, I=I, st=st: self.report('nothing', I, st, 'returns no frame without requesting one or setting an error (activation %s)' % '/'.join({0: 'arInitial', 1: 'arAllFramesReady'}[r] for r in can))))
        if nonnull and req:
            self.report('frame-and-request', I, st, 'returns a frame in the same activation that requested more frames')
        if err and req:
            self.report('error-and-request', I, st, 'sets an error in the same activation that requested frames')


    def finish(self):
        for st, rep in self.nothing:
            if not self.contradicts(st):
                rep()

    def contradicts(self, st):
        """a cached reference is known to be set while a field that is always the opposite when it is stored says otherwise"""
        val = {}
        for t, f in st.facts.items():
            x = t
            if t[0] == 'bin' and t[1] == 'and' and t[3] == ('c', 1):
                x = t[2]
            if x[0] == 'fld' and x[1] == ('arg', 2):
                val[x[2]] = 1 if 0 in f[2] or (f[0] or 0) > 0 else 0 if f[0] == f[1] == 0 else None
        for o, g in self.guards.items():
            if val.get(o) == 1 and any(val.get(k) is not None and val[k] != x for k, x in g.items()):
                return True
        return False


def run_getframe(F):
    return confirm(_run_getframe, F)


def _run_getframe(F, throws=None):
    reps = {}

    def report(rule, I, st, msg, loc=None):
        key = (rule, F.m.loc(I.get('l', -1), F), msg)
        if key not in reps:
            reps[key] = st.trace
    c = GetFrameClient(F, report)
    e = Engine(F, c, throws=throws)
    e.run()
    c.finish()
    if c.slotstores:
        slots = {k: next(iter(v)) for k, v in c.slotstores.items() if len(v) == 1}
        reps.clear()
        c2 = GetFrameClient(F, report, slots)
        c2.slotstores = {}
        e = Engine(F, c2, throws=throws)
        e.run()
        c2.finish()
        c2.slots = slots
        c = c2
    return c, e, reps


if __name__ == '__main__':
    import sys, glob, time
    from ir import Module
    tot = 0
    for p in sys.argv[1].split(','):
        M = Module(p)
        for F in M.funcs.values():
            if not is_getframe(F):
                continue
            if len(sys.argv) > 2 and sys.argv[2] not in F.dem:
                continue
            t0 = time.time()
            try:
                c, e, reps = run_getframe(F)
            except TooComplex:
                print('TOO COMPLEX', F.dem)
                continue
            tot += 1
            dt = time.time() - t0
            print('%-60s states %5d steps %6d %.1fs sites %d exits %s' % (F.sname[:60], len(e.states), e.steps, dt, len(c.sites), c.exitkinds))
            for (rule, loc, msg), tr in sorted(reps.items(), key=lambda x: x[0]):
                print('   !!', rule, loc, msg)
                if len(sys.argv) > 3:
                    out = []
                    while tr:
                        out.append('%s%s' % (M.loc(tr[1]), tr[2]))
                        tr = tr[0]
                    print('      ', ' '.join(x.split('/')[-1] for x in reversed(out)))
    print(tot)
