"""Lock states of the core: per program point, which mutexes may and must be held.

Every function is analysed once, path-sensitively on the facts that correlate with locking (property
simulation: abstract states are kept apart only by the lock state, and within one lock state the known
branch outcomes are intersected). Lock states are relative to the function's entry; the entry sets are the
fixpoint over the call graph (intersection over call sites for must, union for may)."""
import re
from core import *

LOCK = re.compile(r'^std::(recursive_mutex|mutex|shared_mutex|timed_mutex)::(lock|unlock|try_lock)\(\)$')


def is_ctor(F, c):
    b = F.dem.split('(')[0]
    p = b.split('::')
    return len(p) >= 2 and p[-1].lstrip('~') == p[-2] and (c is None or p[-2] == c)


def fresh(F, base, seen=None):
    """object allocated in this very function"""
    seen = set() if seen is None else seen
    while isinstance(base, int) and base not in seen:
        seen.add(base)
        D = F.defs.get(base)
        if D is None:
            return False
        if D['o'] == 'alloca':
            return True
        if D['o'] in ('call', 'invoke'):
            f = D['f']
            return isinstance(f, list) and f[0] == 'g' and f[1].startswith('_Zn')
        if D['o'] == 'phi':
            return all(fresh(F, x, seen) for q, x in D['ph'] if not (isinstance(x, int) and x in seen))
        if D['o'] in ('getelementptr', 'bitcast'):
            base = D['a'][0]
            continue
        return False
    return False


def private_object(F, I):
    """a call on an object no other thread can know yet: under construction or destruction, or allocated here"""
    a = next((x for x in I['a']), None)
    if not isinstance(a, int):
        return False
    return a == 0 and is_ctor(F, None) or a in F.defs and F.defs[a]['o'] != 'alloca' and fresh(F, a)


class FuncLocks:
    """relative lock states of one function"""

    def __init__(self, P, F):
        self.P, self.F = P, F
        self.at = {}           # (block, n) -> set of frozenset(((lock, delta),...)) lock states before the instruction
        self.binds = {}        # (block, n) -> {argument index: lock id} for unique_locks passed by reference
        self.acq = []          # (I, lock, state before, kind)
        self.exits = {}        # state -> instruction
        self.ul = set()        # unique_lock cells
        self.run()

    def lockid(self, st, o):
        """identity of the mutex operand o points to"""
        F = self.F
        f = field_of(F, o)
        if f:
            return ('%s.%s' % (f[0], f[1]), path_expr(F, f[2]))
        if isinstance(o, list):
            return (path_expr(F, o), '')
        D = F.defs.get(o)
        if D is None and o < len(F.dtypes) - 1 and F.dtypes[o + 1].endswith('*'):
            # the mutex is the object's first member
            c = F.dtypes[o + 1][:-1].strip()
            fl = next((F.m.field(t, 0) for t in F.m.types if cls(t) == c or cls(t).endswith('::' + c)), None)
            if fl:
                return ('%s.%s' % (c, fl[0].split('+')[0]), path_expr(F, o))
        if D is not None and D['o'] == 'load':
            c = self.cell(D['a'][0])
            if c is not None:
                v = dict(st[1]).get(c)
                if v is not None and v[0] == 'lock':
                    return v[1]
                return ('?', path_expr(F, o))
        if D is not None and D['o'] == 'phi':
            return ('?', '')
        return (path_expr(F, o), '')

    def cell(self, o):
        """(base, offset) if o points into a unique_lock object (local or argument)"""
        off = 0
        F = self.F
        while isinstance(o, int):
            D = F.defs.get(o)
            if D is None:
                break
            if D['o'] == 'getelementptr':
                if D.get('var') or D.get('off') is None:
                    return None
                off += D['off']
                o = D['a'][0]
                continue
            break
        if not isinstance(o, int):
            return None
        D = F.defs.get(o)
        if D is not None and D['o'] == 'alloca' and 'unique_lock' in D.get('at', ''):
            return (o, off)
        if D is None and o < len(F.dtypes) - 1 and 'unique_lock' in F.dtypes[o + 1]:
            return (o, off)
        return None

    def run(self):
        F = self.F
        init = {}
        for k, t in enumerate(F.dtypes[1:]):
            if 'unique_lock' in t:
                init[(k, 0)] = ('lock', ('P:%d' % k, ''))
                init[(k, 8)] = ('i', 1)
                self.ul.add(k)
        st0 = (frozenset([(('P:%d' % k, ''), 0) for k in self.ul if False]), frozenset(init.items()))
        # lock state: (frozenset of (lock, delta), frozenset of cells); facts: {ssa: int}
        states = {0: {st0: {}}}
        work = [(0, st0)]
        n = 0
        while work:
            b, key = work.pop()
            n += 1
            if n > 20000:
                raise RuntimeError('lock analysis of %s does not converge' % F.dem)
            facts = dict(states[b][key])
            for s, k2, f2 in self.block(b, key, facts):
                cur = states.setdefault(s, {})
                if k2 not in cur:
                    cur[k2] = f2
                    work.append((s, k2))
                else:
                    o = cur[k2]
                    j = {x: v for x, v in o.items() if f2.get(x, None) == v}
                    if len(j) != len(o):
                        cur[k2] = j
                        work.append((s, k2))

    def ev(self, o, facts, depth=0):
        if isinstance(o, list):
            return int(o[1]) if o[0] == 'i' else 0 if o[0] == 'n' else None
        if o in facts:
            return facts[o]
        D = self.F.defs.get(o)
        if D is None or depth > 8:
            return None
        k = D['o']
        if k in ('trunc', 'zext', 'freeze'):
            v = self.ev(D['a'][0], facts, depth + 1)
            if v is None:
                return None
            return v & 1 if k == 'trunc' and D.get('t') == 'i1' else v
        if k == 'icmp':
            a, c = self.ev(D['a'][0], facts, depth + 1), self.ev(D['a'][1], facts, depth + 1)
            if a is not None and c is not None:
                p = D['p']
                if p == 'eq':
                    return int(a == c)
                if p == 'ne':
                    return int(a != c)
            if D['p'] in ('eq', 'ne') and D['a'][1] in (['n'],) and self.nonnull(D['a'][0], facts):
                return int(D['p'] == 'ne')
            return None
        if k in ('xor', 'and', 'or'):
            a, c = self.ev(D['a'][0], facts, depth + 1), self.ev(D['a'][1], facts, depth + 1)
            if k == 'and' and (a == 0 or c == 0):
                return 0
            if k == 'or' and D.get('t') == 'i1' and (a == 1 or c == 1):
                return 1
            if a is None or c is None:
                return None
            return {'xor': a ^ c, 'and': a & c, 'or': a | c}[k]
        if k == 'select':
            a = self.ev(D['a'][0], facts, depth + 1)
            if a is not None:
                return self.ev(D['a'][1 if a else 2], facts, depth + 1)
        return None

    def nonnull(self, o, facts):
        # the mutex pointer of a unique_lock that has one
        return ('nn', o) in facts

    def setfact(self, o, v, facts, depth=0):
        if not isinstance(o, int) or depth > 6:
            return
        facts[o] = v
        D = self.F.defs.get(o)
        if D is None:
            return
        if D['o'] in ('trunc', 'zext', 'freeze') and (D['o'] != 'trunc' or D.get('t') == 'i1'):
            self.setfact(D['a'][0], v, facts, depth + 1)
        elif D['o'] == 'xor' and D['a'][1] == ['i', 1, 1]:
            self.setfact(D['a'][0], 1 - v, facts, depth + 1)
        elif D['o'] == 'and' and v == 1 and D.get('t') == 'i1':
            self.setfact(D['a'][0], 1, facts, depth + 1)
            self.setfact(D['a'][1], 1, facts, depth + 1)
        elif D['o'] == 'or' and v == 0 and D.get('t') == 'i1':
            self.setfact(D['a'][0], 0, facts, depth + 1)
            self.setfact(D['a'][1], 0, facts, depth + 1)
        elif D['o'] == 'icmp' and D['p'] in ('eq', 'ne') and isinstance(D['a'][1], list) and D['a'][1][0] in ('i', 'n'):
            c = 0 if D['a'][1][0] == 'n' else int(D['a'][1][1])
            if (D['p'] == 'eq') == (v == 1):
                self.setfact(D['a'][0], c, facts, depth + 1)
            elif c == 0 and isinstance(D['a'][0], int):
                X = self.F.defs.get(D['a'][0])
                if X is not None and X['o'] in ('zext',):
                    self.setfact(X['a'][0], 1, facts, depth + 1)

    def delta(self, locks, l, d):
        x = dict(locks)
        v = x.get(l, 0) + d
        if v == 0:
            x.pop(l, None)
        else:
            x[l] = v
        return frozenset(x.items())

    def block(self, b, key, facts):
        F = self.F
        out = []
        F.defs
        cur = [(key, facts)]
        for I in F.blocks[b]:
            nxt = []
            for k, f in cur:
                nxt += self.inst(I, k, f, out)
            cur = nxt
        return out

    def enter(self, frm, to, k, f):
        """take the edge: phis, then forget facts about values the block redefines"""
        F = self.F
        g = dict(f)
        newv = {}
        for I in F.blocks[to]:
            if I['o'] != 'phi':
                break
            v = None
            nn = False
            for q, x in I['ph']:
                if q == frm:
                    v = self.ev(x, f)
            newv[I['i']] = v
        for I in F.blocks[to]:
            if 'i' in I:
                g.pop(I['i'], None)
                g.pop(('nn', I['i']), None)
        for i, v in newv.items():
            if v is not None:
                g[i] = v
        return to, k, g

    def inst(self, I, k, f, out):
        F = self.F
        o = I['o']
        pos = (I['_b'], I['_n'])
        if o in ('call', 'invoke', 'load', 'store', 'ret', 'atomicrmw', 'cmpxchg', 'resume'):
            self.at.setdefault(pos, set()).add(k[0])
        if o == 'br':
            if not I.get('a'):
                out.append(self.enter(I['_b'], I['s'][0], k, f))
                return []
            v = self.ev(I['a'][0], f)
            for n, s in enumerate(I['s']):
                if v is not None and v != (1 if n == 0 else 0):
                    continue
                g = f
                if v is None:
                    g = dict(f)
                    self.setfact(I['a'][0], 1 if n == 0 else 0, g)
                out.append(self.enter(I['_b'], s, k, g))
            return []
        if o == 'switch':
            for s in succ_of(I):
                out.append(self.enter(I['_b'], s, k, f))
            return []
        if o in ('ret', 'resume'):
            self.exits.setdefault((k[0], o), I)
            return []
        if o == 'unreachable':
            return []
        if o == 'load':
            c = self.cell(I['a'][0])
            if c is not None:
                v = dict(k[1]).get(c)
                g = dict(f)
                if v is not None and v[0] == 'i':
                    g[I['i']] = v[1]
                elif v is not None and v[0] == 'lock':
                    g[('nn', I['i'])] = 1
                return [(k, g)]
            return [(k, f)]
        if o == 'store':
            c = self.cell(I['a'][1])
            if c is not None:
                d = dict(k[1])
                v = I['a'][0]
                if c[1] == 0:
                    d[c] = ('lock', self.lockid(k, v)) if v != ['n'] else ('i', 0)
                else:
                    e = self.ev(v, f)
                    if e is None:
                        d.pop(c, None)
                    else:
                        d[c] = ('i', e)
                return [((k[0], frozenset(d.items())), f)]
            return [(k, f)]
        if o in ('call', 'invoke'):
            rs = self.call(I, k, f)
            if o == 'invoke':
                for k2, f2 in rs:
                    out.append(self.enter(I['_b'], I['s'][0], k2, f2))
                # the callee threw: it changed nothing here unless it is a lock operation that had no effect
                out.append(self.enter(I['_b'], I['s'][1], k, f))
                return []
            return rs
        return [(k, f)]

    def call(self, I, k, f):
        F = self.F
        fn = I['f']
        if isinstance(fn, list) and fn[0] == 'g':
            dem = self.P.decl.get(fn[1], [fn[1]])[0]
            m = LOCK.match(dem)
            if m:
                l = self.lockid(k, I['a'][0])
                rec = m.group(1) == 'recursive_mutex'
                if m.group(2) == 'lock':
                    self.acq.append((I, l, k[0], 'rec' if rec else 'lock'))
                    return [((self.delta(k[0], l, 1), k[1]), f)]
                if m.group(2) == 'unlock':
                    return [((self.delta(k[0], l, -1), k[1]), f)]
                self.acq.append((I, l, k[0], 'try'))
                a, b = dict(f), dict(f)
                if 'i' in I:
                    a[I['i']] = 1
                    b[I['i']] = 0
                return [((self.delta(k[0], l, 1), k[1]), a), (k, b)]
            bind = {}
            for n, a in enumerate(I['a']):
                c = self.cell(a) if isinstance(a, int) else None
                if c is not None and c[1] == 0:
                    d = dict(k[1])
                    v = d.get(c)
                    own = d.get((c[0], 8))
                    bind[n] = (v[1] if v is not None and v[0] == 'lock' else ('?', ''), own[1] if own else None)
            if bind:
                self.binds.setdefault((I['_b'], I['_n']), []).append((fn[1], bind, k[0]))
                m = re.match(r'^std::unique_lock<.*>::(\w+)', dem)
                if m:
                    c = (next(iter(bind)), )
        if 'i' in I and I['i'] in f:
            f = dict(f)
            f.pop(I['i'], None)
        return [(k, f)]


def repo_loc(F, I):
    for f, l, fn in F.m.locchain(I.get('l', -1)):
        if f.startswith('/repo/'):
            return '%s:%d' % (short(f), l)
    return '%s:%d' % (short(F.file), F.line) if F.file else '?'


THREAD = re.compile(r'^(void )?std::thread::|std::thread::thread')


class Locks:
    """whole-program lock sets"""

    def __init__(self, P):
        self.P = P
        self.fl = {n: FuncLocks(P, F) for n, F in P.funcs.items()}
        self.calls()
        self.fix()

    def calls(self):
        """call sites: callee -> [(caller name, I)]; function pointers handed to a call count as called there, thread entry points as roots"""
        P = self.P
        self.sites = {}
        self.roots = set(P.in_tables)
        self.icalls = []
        for F in P.funcs.values():
            for I in F.insts():
                if I['o'] in ('call', 'invoke'):
                    fn = I['f']
                    dem = P.decl.get(fn[1], [''])[0] if isinstance(fn, list) and fn[0] == 'g' else ''
                    if isinstance(fn, list) and fn[0] == 'g':
                        if fn[1] in P.funcs:
                            self.sites.setdefault(fn[1], []).append((F.name, I))
                    elif isinstance(fn, int):
                        self.icalls.append((F.name, I))
                    for a in I['a']:
                        if isinstance(a, list) and a[0] == 'g' and a[1] in P.funcs:
                            if 'std::thread' in dem:
                                self.roots.add(a[1])
                            elif (F.file or '').startswith('/repo/') and dem.startswith('std::') or 'std::' in dem.split('(')[0]:
                                self.sites.setdefault(a[1], []).append((F.name, I))
                            else:
                                self.roots.add(a[1])
                else:
                    for a in operands(I):
                        if isinstance(a, list) and a[0] == 'g' and a[1] in P.funcs:
                            self.roots.add(a[1])

    def live(self):
        """functions reachable from an entry point (address taken, or external and never called inside the core)"""
        P = self.P
        out = {}
        for F in P.funcs.values():
            for I in F.insts():
                if I['o'] in ('call', 'invoke'):
                    for a in [I['f']] + list(I['a']):
                        if isinstance(a, list) and a[0] == 'g' and a[1] in P.funcs:
                            out.setdefault(F.name, set()).add(a[1])
        start = set(self.roots)
        for F in P.repo_funcs():
            if F.name not in self.sites and F.ext and not F.dem.split('(')[0].rsplit('::', 1)[0] in self.classes():
                start.add(F.name)
        seen, todo = set(start), list(start)
        while todo:
            x = todo.pop()
            for y in out.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen, start

    def classes(self):
        if not hasattr(self, '_cl'):
            self._cl = {re.sub(r'^.*[ :]', '', cls(t)) for M in self.P.modules for t in M.types} | {cls(t) for M in self.P.modules for t in M.types}
        return self._cl

    def resolve(self, name, l, depth=0):
        """type-level names of a lock id"""
        if l[0].startswith('P:') and depth < 4:
            k = int(l[0][2:])
            r = set()
            for cn, I in self.sites.get(name, ()):
                for fn, bind, st in self.fl[cn].binds.get((I['_b'], I['_n']), ()):
                    if fn == name and k in bind:
                        r |= self.resolve(cn, bind[k][0], depth + 1)
            return r
        return {l[0]}

    def fix(self):
        P = self.P
        self.alive, starts = self.live()
        TOP = None
        self.must = {n: TOP for n in P.funcs}
        self.may = {n: frozenset() for n in P.funcs}
        for n in starts:
            self.must[n] = frozenset()
        changed = True
        while changed:
            changed = False
            for n in P.funcs:
                if n not in self.alive:
                    continue
                must = self.must[n]
                may = self.may[n]
                if n not in starts:
                    must = TOP
                for cn, I in self.sites.get(n, ()):
                    if cn not in self.alive:
                        continue
                    h = self.held(cn, I)
                    if h is None:
                        continue
                    if private_object(P.funcs[cn], I) and not is_ctor(P.funcs[n], None):
                        pass
                    elif must is TOP:
                        must = h[0]
                    else:
                        must = must & h[0]
                    may = may | h[1]
                if n in starts:
                    must = frozenset()
                if must != self.must[n] or may != self.may[n]:
                    self.must[n], self.may[n] = must, may
                    changed = True

    def held(self, n, I):
        """(must, may) sets of type-level locks before I in function n; None when not reached"""
        L = self.fl[n]
        sts = L.at.get((I['_b'], I['_n']))
        if not sts or self.must[n] is None:
            return None
        must, may = None, set()
        for st in sts:
            mu, ma = set(self.must[n]), set(self.may[n])
            for l, d in st:
                ns = self.resolve(n, l)
                if d > 0:
                    if len(ns) == 1:
                        mu |= ns
                    ma |= ns
                elif d < 0:
                    mu -= ns
                    ma -= ns
            must = mu if must is None else must & mu
            may |= ma
        return frozenset(must), frozenset(may)


if __name__ == '__main__':
    import time
    t = time.time()
    P = core_program()
    A = Locks(P)
    print(len(P.funcs), len(A.alive), '%.1f' % (time.time() - t))
    dead = [F.dem[:80] for F in P.repo_funcs() if F.name not in A.alive]
    print('dead', len(dead), dead[:60])
    # order
    edges = {}
    for n in A.alive:
        F = P.funcs[n]
        for I, l, st, kind in A.fl[n].acq:
            h = A.held(n, I)
            for x in A.resolve(n, l):
                for y in h[1]:
                    edges.setdefault((y, x, kind), set()).add('%s (%s)' % (F.dem[:60], repo_loc(F, I)))
    for e, w in sorted(edges.items()):
        print(e, sorted(w)[:4])
