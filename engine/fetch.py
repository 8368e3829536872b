"""Every frame fetched in a frame callback was requested by the activations before it."""
import re
from proto import *


class Pure:
    """which merged values of a frame callback are functions of the frame number and the instance alone, and so the same in every activation"""

    def __init__(self, F):
        self.F = F
        self.memo = {}
        self.args = (0, 2)
        self.dom = None

    def doms(self):
        if self.dom is None:
            F = self.F
            n = len(F.blocks)
            dom = [None] * n
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    ps = [dom[q] for q in F.preds(b) if dom[q] is not None]
                    if not ps:
                        continue
                    d = set.intersection(*ps) | {b}
                    if d != dom[b]:
                        dom[b] = d
                        ch = True
            self.dom = dom
        return self.dom

    def stable(self, o):
        if o not in self.memo:
            self.memo[o] = self.slice(o)
        return self.memo[o]

    def slice(self, o):
        F = self.F
        seen, w = set(), [o]
        while w:
            x = w.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            if len(seen) > 200:
                return False
            D = F.defs.get(x)
            if D is None:
                if x not in self.args:
                    return False
                continue
            k = D['o']
            if 'ph' in D:
                if F.loops_of(D['_b']):
                    return False
                dom = self.doms()
                todo, done = [q for q, v in D['ph']], set()
                w += [v for q, v in D['ph']]
                while todo:
                    q = todo.pop()
                    if q in done:
                        continue
                    done.add(q)
                    T = F.blocks[q][-1]
                    w += [a for a in T.get('a', ()) if isinstance(a, int)]
                    if dom[D['_b']] is None or q not in dom[D['_b']]:
                        todo += F.preds(q)
            elif k == 'alloca':
                for b in F.blocks:
                    for I in b:
                        if I['o'] == 'store' and I['a'][1] == x:
                            w.append(I['a'][0])
                        elif x in [a for a in I.get('a', ()) if isinstance(a, int)] and I['o'] not in ('load', 'store', 'getelementptr', 'bitcast', 'select', 'phi', 'call', 'icmp'):
                            return False
                        elif I['o'] in ('call', 'invoke') and x in I.get('a', ()) and not (isinstance(I['f'], list) and str(I['f'][1]).startswith('llvm.lifetime')):
                            return False
            elif k in ('call', 'invoke'):
                f = D['f']
                if isinstance(f, int) and api_name(F, F.defs.get(f)) in ('getVideoInfo', 'getAudioInfo', 'getNodeType'):
                    pass
                elif not (isinstance(f, list) and f[0] == 'g' and re.match(r'llvm\.(smin|smax|umin|umax|abs|fabs)', str(f[1]))):
                    return False
                w += [a for a in D['a'] if isinstance(a, int)]
            elif k in ('store', 'atomicrmw', 'cmpxchg', 'landingpad'):
                return False
            else:
                w += [a for a in D.get('a', ()) if isinstance(a, int)]
                w += [v[0] for v in D.get('var', ())]
        return True


    def decided_by_job(self, blk):
        """do only the frame number, the instance and the activation decide whether control gets to blk?"""
        F = self.F
        self.args, memo, self.memo = (0, 1, 2), self.memo, {}
        try:
            for b, insts in enumerate(F.blocks):
                T = insts[-1]
                ss = F.succs(b)
                if T['o'] not in ('br', 'switch') or len(ss) < 2:
                    continue
                r = [self.reaches(s, blk, b) for s in ss]
                if any(blk not in L and all(ok or x in L for x, ok in zip(ss, r)) for L in self.loops_around(b)):
                    continue    # the other side stays in a loop that ends
                if any(r) and not all(r) and not all(self.slice(a) for a in T['a'] if isinstance(a, int)):
                    return False
            return True
        finally:
            self.args, self.memo = (0, 2), memo

    def loops_around(self, b):
        return [set(self.F.loops[k].get('b') or ()) for k in self.F.loops_of(b)]

    def reaches(self, a, z, avoid):
        seen, todo = {a}, [a]
        while todo:
            b = todo.pop()
            if b == z:
                return True
            for s in self.F.succs(b):
                if s != avoid and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False


PURE = [None]


def canon(t, d=0):
    """term without versions; anything not expressible over (n, instance) becomes '?'"""
    k = t[0]
    if k == 'sym' and t[2] == 0 and t[-1] == 'sk' and t[1][0] in ('ph', 'sk') and PURE[0] and PURE[0].stable(t[1][2]):
        return ('same', t[1][2])
    if k == 'c' or k == 'f' or k == 'arg' or k == 'g':
        return t
    if d > 12:
        return '?'
    if k == 'fld':
        b = canon(t[1], d + 1)
        return '?' if b == '?' else ('fld', b, t[2])
    if k == 'vp':
        return ('vp', canon(t[1], d + 1), t[2]) if isinstance(t[2], int) else '?'
    if k == 'ldv':
        b, o, v = split(t[1])
        b = canon(b, d + 1)
        if b == '?':
            return '?'
        vs = []
        for s, x in v:
            c = canon(x, d + 1)
            vs.append((s, c))
        return ('el', b, o, tuple(vs))
    if k == 'bin':
        a, b = canon(t[2], d + 1), canon(t[3], d + 1)
        return '?' if '?' in (a, b) else ('bin', t[1], a, b)
    if k in ('not', 'cmp', 'sel', 'op', 'fcmp'):
        r = tuple(canon(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)
        return '?' if '?' in r else r
    return '?'


def unify(a, b):
    if a == '?' or b == '?':
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return all(unify(x, y) for x, y in zip(a, b))
    return a == b


def node_match(req, fet):
    if unify(req, fet):
        return True
    # "every element of a list of nodes" requested, one of them fetched through another table of the instance
    if req != '?' and fet != '?' and req[0] == 'el' and fet[0] == 'el' and any(x[1] == '?' for x in req[3]):
        return True
    return False


def lin(t):
    """additive normal form of an integer term: (constant, sorted parts)"""
    c, parts = 0, {}
    st = [(t, 1)]
    while st:
        x, s = st.pop()
        if x[0] == 'c':
            c += s * x[1]
        elif x[0] == 'bin' and x[1] == 'add':
            st += [(x[2], s), (x[3], s)]
        elif x[0] == 'bin' and x[1] == 'sub':
            st += [(x[2], s), (x[3], -s)]
        else:
            parts[x] = parts.get(x, 0) + s
    return (c, tuple(sorted(((k, v) for k, v in parts.items() if v), key=repr)))


def same_n(a, b):
    if a == '?' or b == '?':
        return True
    return lin(a) == lin(b) or unify(a, b)


def mentions(c):
    """does the term depend on what differs between the activations of one frame job?"""
    if c in (('arg', 1), ('arg', 3), ('arg', 4), ('arg', 5), ('arg', 6)):
        return True
    return any(mentions(x) for x in c if isinstance(x, tuple))


def stable(st):
    """facts over the frame number and the instance only"""
    r = {}
    for t, f in st.facts.items():
        if t in (('arg', 2),):
            continue
        c = canon(t)
        if c != '?' and not mentions(c):
            r[c] = f if c not in r else meet(r[c], f)
    return r


def meet(f, g):
    lo = f[0] if g[0] is None else g[0] if f[0] is None else max(f[0], g[0])
    hi = f[1] if g[1] is None else g[1] if f[1] is None else min(f[1], g[1])
    return (lo, hi, f[2] | g[2])


def compatible(a, b):
    for t, f in a.items():
        g = b.get(t)
        if g is None:
            continue
        m = meet(f, g)
        if m[0] is not None and m[1] is not None and (m[0] > m[1] or (m[1] - m[0] < 8 and all(x in m[2] for x in range(m[0], m[1] + 1)))):
            return False
        if m[0] is not None and m[0] == m[1] and m[0] in m[2]:
            return False
    return True


def equal_nodes(reqs, facts):
    """requests under other names of nodes known to be equal"""
    eqs = [(t[2], t[3]) for t, f in facts.items() if t[0] == 'cmp' and t[1] == 'eq' and f[0] == f[1] == 1]
    reqs = set(reqs)
    while True:
        new = {(n, y) for n, nd in reqs for a, b in eqs for x, y in ((a, b), (b, a)) if x == nd} - reqs
        if not new:
            return reqs
        reqs |= new


class FetchClient(GetFrameClient):
    def __init__(self, F, report, slots=None):
        super().__init__(F, report, slots)
        PURE[0] = Pure(F)
        self.initial = []      # (request set, stable facts, state) of exits of the first activation
        self.later = set()     # requested in a later activation
        self.got = []

    merge_values = True
    keep = frozenset()

    def sticky(self, st):
        if not self.keep:
            return ()
        out = []
        for t, f in st.facts.items():
            if t[0] in ('cmp', 'fcmp') and f[0] == f[1] is not None:
                c = self.canons.get(t)
                if c is None:
                    c = self.canons[t] = canon(t)
                if c in self.keep:
                    out.append((c, f[0]))
        return frozenset(out)

    def init(self, st):
        super().init(st)
        self.canons = {}
        st.flags['reqs'] = frozenset()
        st.res.clear()

    def relevant_call(self, F, I, eng):
        f = I['f']
        if isinstance(f, int):
            nm = api_name(F, F.defs.get(f))
            if nm is None:
                D = F.defs.get(f)
                return not (D and D['o'] == 'load')
            return nm in ('requestFrameFilter', 'getFrameFilter', 'setFilterError', 'getFrame', 'mapGetNode')
        return super().relevant_call(F, I, eng)

    def variant(self, o, b):
        hs = {self.F.loops[k]['h'] for k in self.F.loops_of(b)}
        seen, w = set(), [o]
        while w:
            x = w.pop()
            if not isinstance(x, int) or x in seen:
                continue
            seen.add(x)
            D = self.F.defs.get(x)
            if D is None:
                continue
            if D['o'] == 'phi' and D['_b'] in hs:
                return True
            w.extend(D.get('a', ()))
            w.extend(v[0] for v in D.get('var', ()))
        return False

    def pair(self, I, args):
        b = I['_b']
        n, nd = ('?' if c == '?' or mentions(c) else c for c in (canon(args[0]), canon(args[1])))
        if self.F.loops_of(b):
            if self.variant(I['a'][0], b):
                n = '?'
            if nd != '?' and nd[0] == 'el' and self.variant(I['a'][1], b):
                nd = nd[:3] + (tuple((s, '?') for s, x in nd[3]),)
        return n, nd

    def is_first(self, st):
        f = st.fact(('arg', 1))
        return f[0] == f[1] == 0

    def api(self, st, I, name, args):
        if name == 'requestFrameFilter':
            p = self.pair(I, args)
            if inside(st.fact(('arg', 1)), 0):
                st.flags['reqs'] = st.flags['reqs'] | {p}
            if inside(st.fact(('arg', 1)), 1):
                self.later.add(p)
        elif name == 'getFrameFilter':
            self.got.append((I,) + self.pair(I, args) + (stable(st), st.copy()))
        return super().api(st, I, name, args)

    def ret(self, st, I, val):
        if self.infeasible(st) or val == ('exc',):
            return
        if inside(st.fact(('arg', 1)), 0) and (st.flags['req'] or True):
            null = val == ('c', 0) or st.isnull(val)
            if null and not st.flags['err'] and st.flags['req']:
                self.initial.append((st.flags['reqs'], stable(st), st.copy()))

    def finish(self):
        for I, n, nd, facts, st in self.got:
            f = st.fact(('arg', 1))
            if not inside(f, 1):
                if inside(f, 0):
                    self.report('fetch-before-request', I, st, 'fetches a frame in the activation that has not requested anything yet')
                continue
            if any(same_n(n, rn) and node_match(rnd, nd) for rn, rnd in self.later):
                continue
            if nd != '?':
                facts = dict(facts)
                facts[nd] = meet(facts.get(nd, TOP), (None, None, frozenset({0})))
            ini = [(equal_nodes(reqs, fa), fa) for reqs, fa, sx in self.initial if compatible(fa, facts)]
            if not PURE[0].decided_by_job(I['_b']) and any(same_n(n, rn) and node_match(rnd, nd) for reqs, fa in ini for rn, rnd in reqs):
                continue
            for reqs, fa in ini:
                if not any(same_n(n, rn) and node_match(rnd, nd) for rn, rnd in reqs):
                    self.report('fetch-not-requested', I, st, 'fetches frame %s of %s, which the activation that requests %s did not ask for' % (show(n), show(nd), ', '.join(sorted('%s of %s' % (show(a), show(b)) for a, b in reqs))))
                    break


def show(t):
    if t == '?':
        return '(computed)'
    if t == ('arg', 0):
        return 'n'
    if t == ('arg', 2):
        return 'd'
    if t[0] == 'c':
        return str(t[1])
    if t[0] == 'fld':
        return '%s->+%s' % (show(t[1]), t[2])
    if t[0] == 'bin':
        return '(%s %s %s)' % (show(t[2]), {'add': '+', 'sub': '-', 'mul': '*', 'sdiv': '/', 'srem': '%', 'shl': '<<', 'ashr': '>>', 'and': '&'}.get(t[1], t[1]), show(t[3]))
    if t[0] == 'el':
        return '%s[%s]' % (show(t[1]) + ('+%d' % t[2] if t[2] else ''), ','.join(show(x) for s, x in t[3]))
    if t[0] == 'vp':
        return '%s->list+%s' % (show(t[1]), t[2])
    return t[0]


def _run_fetch(F):
    reps = {}

    def report(rule, I, st, msg, loc=None):
        if rule in ('fetch-not-requested', 'fetch-before-request'):
            reps.setdefault((rule, F.m.loc(I.get('l', -1), F), msg), st.trace)
    c = FetchClient(F, report)
    e = Engine(F, c)
    e.run()
    c.finish()
    keep = frozenset(t for reqs, fa, sx in c.initial for t in fa if t[0] in ('cmp', 'fcmp'))
    if reps and keep:
        # once more with the paths of the first activation kept apart by the conditions that select the requests
        first, reps2 = dict(reps), reps
        reps2.clear()
        c = FetchClient(F, report)
        c.keep = keep
        e = Engine(F, c)
        e.run()
        c.finish()
        sites = {k[:2] for k in first}
        for k in [k for k in reps if k[:2] not in sites]:
            del reps[k]
    return c, e, reps


def run_fetch(F):
    return confirm(_run_fetch, F)


if __name__ == '__main__':
    import sys, time
    import build
    from ir import Module

    def an(item):
        M = Module(item[1])
        out = []
        for F in M.funcs.values():
            if is_getframe(F) and (len(sys.argv) < 2 or sys.argv[1] in F.dem):
                t0 = time.time()
                try:
                    c, e, reps = run_fetch(F)
                except TooComplex:
                    out.append('TOO COMPLEX ' + F.sname)
                    continue
                out.append('%-50s %.1fs fetches %d init exits %d later %d' % (F.sname[:50], time.time() - t0, len(c.got), len(c.initial), len(c.later)))
                for k in reps:
                    out.append('   !! %s %s %s' % k)
        return out
    for o in build.pmap(an, build.ir_files(build.filter_units())):
        for l in o:
            print(l)
