"""Path-sensitive abstract interpretation over the exported IR ("property simulation", Das et al. 2002).

A state is (term environment, memory, facts, property state).  States that reach the same block with the same
property state are joined, states with different property states are kept apart.  Facts are a finite table of
intervals / excluded values per term: no constraint solver is involved.

Clients subclass Client and get callbacks for API calls, other calls, loads/stores and exits."""
from functools import lru_cache
from ir import succ_of, operands

import re
NONNULL = ('nn',)
_vec = re.compile(r'^std::vector<(?:VSFrame|VSNode|VSFunction|VSMap|VSFilterDependency).*?>::(~?\w+|operator\[\]|operator=)\(')


@lru_cache(maxsize=None)
def VECTOR(dem):
    return _vec.match(dem)

MAXDEPTH = 14


def leaves(t, out):
    """the scalar quantities a (boolean, integer) term is computed from"""
    if t[0] in ('cmp', 'fcmp', 'bin', 'not', 'op'):
        for x in t[1:]:
            if isinstance(x, tuple):
                leaves(x, out)
    elif t[0] in ('fld', 'ldv', 'sym', 'm'):
        out.add(t)
    return out


class TooComplex(Exception):
    pass


def is_const(t):
    return t[0] == 'c'


@lru_cache(maxsize=None)
def syms(t):
    """generational symbols occurring in a term"""
    k = t[0]
    if k in ('sym', 'm', 'old'):
        s = frozenset([t])
        if len(t) > 3 and isinstance(t[3], tuple):
            for x in t[3:]:
                if isinstance(x, tuple):
                    s |= syms(x)
        return s
    s = frozenset()
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                s |= syms(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y:
                        for z in y:
                            if isinstance(z, tuple) and z and isinstance(z[0], str):
                                s |= syms(z)
    return s


@lru_cache(maxsize=None)
def depth(t):
    d = 0
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                d = max(d, depth(x))
            else:
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and z and isinstance(z[0], str):
                                d = max(d, depth(z))
    return d + 1


@lru_cache(maxsize=200000)
def subst(t, old, new):
    if t == old:
        return new
    if old not in syms(t):
        return t
    out = []
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                x = subst(x, old, new)
            else:
                x = tuple((tuple(subst(z, old, new) if isinstance(z, tuple) and z and isinstance(z[0], str) else z for z in y) if isinstance(y, tuple) else y) for y in x)
        out.append(x)
    return tuple(out)


def wrap(v, bits):
    if bits >= 64:
        bits = 64
    m = 1 << bits
    v &= m - 1
    if bits > 1 and v >= m >> 1:
        v -= m
    return v


def split(t):
    """pointer term -> (base, const offset, var part or ())"""
    if t[0] == 'p':
        return t[1], t[2], ()
    if t[0] == 'pv':
        return t[1], t[2], t[3]
    return t, 0, ()


def mkptr(base, off, var=()):
    if var:
        return ('pv', base, off, var)
    if off:
        return ('p', base, off)
    return base


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def mkcmp(pred, a, b):
    """-> (term, polarity) with normalised predicate"""
    if pred not in NEG:
        return ('fcmp', pred, a, b), True
    if is_const(a) and not is_const(b):
        a, b, pred = b, a, SWAP[pred]
    if is_const(b):
        c = b[1]
        pol = True
        if pred == 'ne':
            pred, pol = 'eq', False
        elif pred == 'sge':
            pred, pol = 'slt', False
        elif pred == 'sgt':
            pred, b, pol = 'slt', ('c', c + 1), False
        elif pred == 'sle':
            pred, b = 'slt', ('c', c + 1)
        elif pred == 'uge':
            pred, pol = 'ult', False
        elif pred == 'ugt':
            pred, b, pol = 'ult', ('c', c + 1), False
        elif pred == 'ule':
            pred, b = 'ult', ('c', c + 1)
        return ('cmp', pred, a, b), pol
    # both symbolic: use eq / slt / ult with a canonical form
    pol = True
    if pred in ('sge', 'uge', 'ne'):
        pred, pol = NEG[pred], False
    elif pred in ('sgt', 'ugt'):
        a, b, pred = b, a, SWAP[pred]
    elif pred in ('sle', 'ule'):
        # a<=b == !(b<a)
        a, b, pred, pol = b, a, {'sle': 'slt', 'ule': 'ult'}[pred], False
    if pred == 'eq' and repr(a) > repr(b):
        a, b = b, a
    return ('cmp', pred, a, b), pol


TOP = (None, None, frozenset())


class State:
    __slots__ = ('env', 'mem', 'ver', 'facts', 'res', 'flags', 'marks', 'trace')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.ver = {}
        self.facts = {}
        self.res = {}
        self.flags = {}
        self.marks = {}
        self.trace = None

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ver = dict(self.ver)
        s.facts = dict(self.facts)
        s.res = dict(self.res)
        s.flags = dict(self.flags)
        s.marks = dict(self.marks)
        s.trace = self.trace
        return s

    # ---- facts
    def fact(self, t):
        if t[0] == 'c':
            return (t[1], t[1], frozenset())
        f = self.facts.get(t)
        if f is not None:
            return f
        if t[0] in ('al', 'g', 'api', 'vp0'):
            return (None, None, frozenset([0]))
        if t[0] in ('p', 'pv'):
            return (None, None, frozenset([0]))
        if t[0] == 'bin':
            return self.binfact(t)
        if t[0] in ('zext',):
            return (0, None, frozenset())
        return TOP

    def binfact(self, t):
        op, a, b = t[1], t[2], t[3]
        if op == 'and' and b[0] == 'c' and b[1] >= 0:
            return (0, b[1], frozenset())
        if op in ('urem', 'lshr', 'udiv'):
            return (0, None, frozenset())
        if op == 'add' and b[0] == 'c':
            f = self.fact(a)
            return (None if f[0] is None else f[0] + b[1], None if f[1] is None else f[1] + b[1], frozenset(x + b[1] for x in f[2]))
        return TOP

    def nonnull(self, t):
        f = self.fact(t)
        return 0 in f[2] or (f[0] is not None and f[0] > 0) or (f[1] is not None and f[1] < 0)

    def isnull(self, t):
        f = self.fact(t)
        return f[0] == 0 and f[1] == 0

    def setfact(self, t, f):
        if t[0] == 'c':
            return
        self.facts[t] = f


class Client:
    """override what is needed; every hook may return None for the default behaviour"""
    eng = None
    key_terms = ()
    merge_values = False

    def sticky(self, st):
        """extra part of the state key: states that differ here are not merged"""
        return ()


    def init(self, st):
        pass

    def api(self, st, I, name, args):
        return None

    def call(self, st, I, name, dem, args):
        return None

    def icall(self, st, I, fterm, args):
        return None

    def load(self, st, I, addr):
        return None

    def elem(self, st, I, addr):
        """variable-index load; return a term or None"""
        return None

    def store(self, st, I, addr, val):
        return None

    def ret(self, st, I, val):
        pass

    def unreachable(self, st, I):
        pass

    def prop_syms(self, st):
        """symbols whose locations must be kept apart when joining"""
        return frozenset(st.res)

    def loop_at_least_once(self, k):
        return False

    def search_loop(self, k):
        return False

    def droppable(self, v):
        return False

    def rename(self, st, old, new):
        for r in [r for r in st.res if old in syms(r)]:
            v = st.res.pop(r)
            st.res[subst(r, old, new)] = v

    def relevant_call(self, F, I, eng):
        return True

    def relevant_store(self, F, I, eng):
        return False

    def interesting_phi(self, F, I):
        return False

    def skippable(self, st, cond):
        return not (syms(cond) & self.prop_syms(st)) and cond not in self.key_terms and not any(t in cond for t in self.key_terms)

    def skipped_access(self, st, I, t):
        pass

    def edge(self, st, b, s):
        """called when control moves from b to s; return False to prune"""
        return True


def confirm(run, F):
    """run an analysis; when it reports something, repeat it without merging states that decided conditions differently and keep what persists"""
    r = run(F)
    r[1].undecided = set()
    if not r[2]:
        return r
    Engine.fine = {t for t, bs in r[1].tested.items() if len(bs) > 1}
    Engine.MAXSTATES = 4000
    try:
        r2 = run(F)
    except TooComplex:
        # exits without any outcome are only reported when the finer run confirms them
        r[1].undecided = {k for k in r[2] if k[0] == 'silent'}
        return r[0], r[1], {k: v for k, v in r[2].items() if k[0] != 'silent'}
    finally:
        Engine.fine = None
        Engine.MAXSTATES = 40000
    return r[0], r[1], {k: v for k, v in r[2].items() if k in r2[2]}


class Engine:
    fine = None

    MAXSTATES = 40000

    def __init__(self, F, client, explore_unwind='throws', throws=None, argterms=None):
        self.F = F
        self.M = F.m
        self.c = client
        client.eng = self
        self.throws = throws or (lambda I, name: False)
        self.explore_unwind = explore_unwind
        F.defs
        self.live = self.liveness()
        self.argterms = argterms or {}
        self.hdr = {L['h']: k for k, L in enumerate(F.loops)}
        self.loopblocks = [set(L['b']) for L in F.loops]
        self.setup_skip()
        self.arrays = {}
        self.tested = {}
        self.states = {}
        self.steps = 0
        self.joincount = {}
        self._lv = {}
        self.entry_phi = {}
        self.visited_edges = set()

    def liveness(self):
        F = self.F
        n = len(F.blocks)
        use = [set() for _ in range(n)]
        df = [set() for _ in range(n)]
        phiuse = [{} for _ in range(n)]  # block -> pred -> set
        for b, insts in enumerate(F.blocks):
            for I in insts:
                if 'ph' in I:
                    for p, o in I['ph']:
                        if isinstance(o, int):
                            phiuse[b].setdefault(p, set()).add(o)
                else:
                    for o in operands(I):
                        if isinstance(o, int) and o not in df[b]:
                            use[b].add(o)
                if 'i' in I:
                    df[b].add(I['i'])
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in F.succs(b):
                    out |= live[s] - {I['i'] for I in F.blocks[s] if 'ph' in I}
                    out |= phiuse[s].get(b, set())
                new = use[b] | (out - df[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        # include phis of the block itself (live at entry after phi evaluation)
        res = []
        for b in range(n):
            s = set(live[b])
            for I in F.blocks[b]:
                if 'ph' in I:
                    s.add(I['i'])
            res.append(s)
        return res

    # ---- regions without any effect the client cares about are skipped
    def setup_skip(self):
        F = self.F
        n = len(F.blocks)
        self.relevant = [False] * n
        dead = [False] * n     # blocks that only lead to unreachable
        for b, insts in enumerate(F.blocks):
            t = insts[-1]
            if t['o'] == 'unreachable':
                dead[b] = True
        ch = True
        while ch:
            ch = False
            for b in range(n):
                if not dead[b] and F.succs(b) and all(dead[s] for s in self.norm_succs(b)):
                    dead[b] = True
                    ch = True
        self.dead = dead
        for b, insts in enumerate(F.blocks):
            for I in insts:
                if I['o'] in ('ret', 'resume', 'landingpad'):
                    self.relevant[b] = True
                elif I['o'] in ('call', 'invoke') and self.c.relevant_call(F, I, self):
                    self.relevant[b] = True
                elif I['o'] == 'store' and self.c.relevant_store(F, I, self):
                    self.relevant[b] = True
        # post-dominators over normal edges (virtual exit = n)
        import networkx as nx
        G = nx.DiGraph()
        for b in range(n):
            if dead[b]:
                continue
            ss = [s for s in self.norm_succs(b) if not dead[s]]
            for s in ss:
                G.add_edge(s, b)
            if not ss:
                G.add_edge(n, b)
        self.ipdom = nx.immediate_dominators(G, n) if n in G else {}
        self.skipinfo = {}

    def norm_succs(self, b):
        t = self.F.blocks[b][-1]
        if t['o'] == 'invoke':
            f = t['f']
            nm = f[1] if isinstance(f, list) and f[0] == 'g' else None
            if nm in ('__cxa_throw', '__cxa_rethrow'):
                return [t['s'][1]]
            return [t['s'][0]]
        return self.F.succs(b)

    def skip(self, b):
        if b in self.skipinfo:
            return self.skipinfo[b]
        r = None
        p = self.ipdom.get(b)
        n = len(self.F.blocks)
        if p is not None and p != n and p != b:
            R = set()
            st = [s for s in self.norm_succs(b) if s != p and not self.dead[s]]
            ok = True
            while st and ok:
                x = st.pop()
                if x in R:
                    continue
                R.add(x)
                if self.relevant[x]:
                    ok = False
                for s in self.norm_succs(x):
                    if s != p and not self.dead[s]:
                        st.append(s)
                if self.F.blocks[x][-1]['o'] == 'invoke' and self.F.blocks[x][-1]['s'][1] is not None and self.throws(self.F.blocks[x][-1], None):
                    ok = False
            if ok and R:
                # phis at the join that select between constants are flags: keep the paths apart
                for I in self.F.blocks[p]:
                    if 'ph' not in I:
                        break
                    ops = [o for q, o in I['ph'] if q in R or q == b]
                    if len(ops) > 1 and (I['t'] == 'i1' or all(isinstance(o, list) for o in ops) and len({repr(o) for o in ops}) > 1) and not (p in self.hdr):
                        ok = False
                    # phis over values defined inside are unknown afterwards; pointers of interest stay exact
                    if I['t'] == 'ptr' and self.c.interesting_phi(self.F, I):
                        ok = False
                if ok:
                    eff = []
                    for x in R:
                        for I in self.F.blocks[x]:
                            if I['o'] in ('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg'):
                                eff.append(I)
                    r = (p, R, eff)
        self.skipinfo[b] = r
        return r

    def do_skip(self, st, b, info, cond):
        p, R, eff = info
        F = self.F
        dirty = []
        def outer(o, seen):
            """terms of the outside values an address inside the region is computed from"""
            if not isinstance(o, int):
                return [self.val(st, o)] if o and o[0] in ('g', 'cg') else []
            D = F.defs.get(o)
            if D is None or D['_b'] not in R:
                return [st.env[o]] if o in st.env else [self.val(st, o)] if D is None else []
            if o in seen:
                return []
            seen.add(o)
            if D['o'] == 'getelementptr':
                r = []
                for t in outer(D['a'][0], seen):
                    bb, oo, vv = split(t)
                    exact = 'off' in D and not D.get('var')
                    r.append(mkptr(bb, oo + D['off'], vv) if exact else mkptr(bb, oo, tuple(vv) + ((1, ('und', D['i'])),)))
                return r
            if D['o'] == 'phi':
                return [t for q, x in D['ph'] for t in outer(x, seen)]
            if D['o'] == 'select':
                return outer(D['a'][1], seen) + outer(D['a'][2], seen)
            return []
        for I in eff:
            if I['o'] == 'store':
                for t in outer(I['a'][1], set()):
                    self.c.skipped_access(st, I, t)
                    dirty.append((t, I, I.get('sz')))
            else:
                f = I.get('f')
                if isinstance(f, list) and f[0] == 'g' and (f[1].startswith('llvm.') and not f[1].startswith('llvm.mem')):
                    continue
                for a in I.get('a', ()):
                    for t in outer(a, set()):
                        self.c.skipped_access(st, I, t)
                        dirty.append((t, I, None))
        for x in R:
            for I in F.blocks[x]:
                if I['o'] == 'load':
                    for t in outer(I['a'][0], set()):
                        self.c.skipped_access(st, I, t)
        for t, I, sz in dirty:
            self.havoc(st, t, I, sz)
        # values leaving the region
        for x in R:
            for I in F.blocks[x]:
                if 'i' in I and I['i'] in self.live[p]:
                    self.unknown(st, I['i'], ('sk', x, I['i']))
        phis = {}
        for I in F.blocks[p]:
            if 'ph' not in I:
                break
            vals = set()
            fromout = None
            for q, o in I['ph']:
                if q == b:
                    vals.add(self.val(st, o))
                elif q in R:
                    if isinstance(o, int) and F.defs.get(o) is not None and F.defs[o]['_b'] in R:
                        vals.add(None)
                    else:
                        vals.add(self.val(st, o))
            if len(vals) == 1 and None not in vals:
                phis[I['i']] = vals.pop()
            else:
                phis[I['i']] = self.merged(st, b, p, R, I, cond) if I['t'] != 'ptr' and self.c.merge_values else None
        self.push_skip(st, b, p, R, phis)

    def merged(self, st, b, p, R, I, cond):
        """the value of a phi at the end of a plain if/else as a selection between its two values"""
        F = self.F
        T = F.blocks[b][-1]
        if T['o'] != 'br' or len(I['ph']) != 2 or cond is None or any(F.succs(x) != [p] or F.preds(x) != [b] for x in R):
            return None
        sc = F.succs(b)
        if len(sc) != 2 or sc[0] == sc[1]:
            return None
        v = {}
        for q, o in I['ph']:
            if isinstance(o, int) and F.defs.get(o) is not None and F.defs[o]['_b'] in R:
                return None
            if q == b:
                v[p] = self.val(st, o)
            elif q in R:
                v[q] = self.val(st, o)
            else:
                return None
        if set(v) != set(sc) or any(t is None or size(t) > 30 for t in v.values()) or size(cond) > 30:
            return None
        x, y = v[sc[0]], v[sc[1]]
        if (syms(x) | syms(y)) & self.c.prop_syms(st):
            return None
        return ('sel', cond, x, y)

    def unknown(self, st, k, sym):
        s = ('sym', sym, 0, 'sk')
        if self.mentions(st, s):
            self.rename(st, s, ('sym', sym, 1, 'sk'))
        st.facts = {t: f for t, f in st.facts.items() if s not in syms(t)}
        st.env[k] = s

    def push_skip(self, st, b, p, R, phis):
        for k, t in phis.items():
            if t is None:
                self.unknown(st, k, ('ph', p, k))
            else:
                st.env[k] = t
        self.push(st, b, p, via=R)

    # ---- operand -> term
    def val(self, st, o):
        if isinstance(o, int):
            t = st.env.get(o)
            if t is None:
                if o < len(self.F.args):
                    t = self.argterms.get(o, ('arg', o))
                else:
                    t = ('und', o)
                st.env[o] = t
            return t
        k = o[0]
        if k == 'i':
            return ('c', o[1])
        if k == 'n' or k == 'z':
            return ('c', 0)
        if k == 'u':
            return ('u',)
        if k == 'g':
            return ('g', o[1])
        if k == 'cg':
            return mkptr(self.val(st, o[1]), o[2] or 0)
        if k == 'f':
            return ('f', o[1])
        if k == 'ce' and o[1] in ('inttoptr', 'bitcast', 'ptrtoint', 'trunc', 'zext', 'sext', 'addrspacecast'):
            return self.val(st, o[2])
        return ('k', repr(o))

    # ---- symbols
    def rename(self, st, old, new):
        def r(t):
            return subst(t, old, new) if old in syms(t) else t
        for k, t in list(st.env.items()):
            if old in syms(t):
                st.env[k] = subst(t, old, new)
        newmem = {}
        for (b, o), t in st.mem.items():
            if o == '*':
                t2 = frozenset(r(x) for x in t)
            else:
                t2 = r(t)
            b2 = r(b)
            if o == '*' and (b2, o) in newmem:
                t2 = t2 | newmem[(b2, o)]
            newmem[(b2, o)] = t2
        st.mem = newmem
        st.ver = {r(b): v for b, v in st.ver.items()}
        facts = {}
        for t, f in st.facts.items():
            s = syms(t)
            if new in s:
                continue
            if old in s:
                t = subst(t, old, new)
            facts[t] = f
        st.facts = facts
        self.c.rename(st, old, new)

    def fresh(self, st, I, tag=0, of=None):
        iid = I['i'] if 'i' in I else -1000 - I['_b'] * 1000 - I['_n']
        t = ('sym', iid, 0, tag) + ((of,) if of is not None else ())
        # older instances of the same instruction: all generational symbols with this id and tag
        if self.mentions(st, t):
            self.shift(st, t, 0)
        return t

    def shift(self, st, t, g):
        old = t[:2] + (g + 1,) + t[3:]
        limit = 1
        if t in st.res and any(x == t for k, x in st.mem.items() if k[1] != '*'):
            limit = 4
        if g + 1 < limit and self.mentions(st, old):
            self.shift(st, old, g + 1)
        elif g + 1 >= limit and g + 1 > 1:
            pass
        self.rename(st, t, old)

    def mentions(self, st, sym):
        if sym in st.res:
            return True
        for t in st.env.values():
            if sym in syms(t):
                return True
        for (b, o), t in st.mem.items():
            if sym in syms(b):
                return True
            if o == '*':
                for x in t:
                    if sym in syms(x):
                        return True
            elif sym in syms(t):
                return True
        for t in st.facts:
            if sym in syms(t):
                return True
        return False

    # ---- memory
    def root(self, t):
        b, o, v = split(t)
        return b

    def load(self, st, addr, I, tag=None):
        b, o, v = split(addr)
        isptr = I.get('t') in ('ptr', None)
        if v:
            e = self.c.elem(st, I, addr) if isptr else None
            if e is not None:
                return e
            w = st.mem.get((b, '*'))
            return ('ldv', addr, st.ver.get(b, 0))
        if (b, o) in st.mem:
            return st.mem[(b, o)]
        e = self.c.elem(st, I, addr) if isptr and any(m in st.res for m in st.mem.get((b, '*'), ())) and self.in_array(b, o) else None
        if e is not None:
            return e
        if b[0] == 'g':
            g = self.M.globals.get(b[1])
            if g and g['const'] and 'init' in g:
                c = const_at(g['init'], o)
                if c is not None:
                    return self.val(st, c)
        if tag:
            return ('fld', b, o, st.ver.get(b, 0), tag)
        return ('fld', b, o, st.ver.get(b, 0))

    def note_array(self, I, addr):
        """remember which part of an object variable stores go to"""
        b, o, v = split(addr)
        if not v:
            return
        self.arrays.setdefault(b[:2], set()).add(self.array_range(I['a'][1], o))

    def array_range(self, op, o):
        rng = None
        G = self.F.defs.get(op) if isinstance(op, int) else None
        if G is not None and G['o'] == 'getelementptr' and G.get('var'):
            m = re.match(r'\[(\d+) x (ptr|i64|double|i32|float|i16|i8)\]$', G['st'])
            if m:
                w = {'ptr': 8, 'i64': 8, 'double': 8, 'i32': 4, 'float': 4, 'i16': 2, 'i8': 1}[m.group(2)]
                rng = (o, o + int(m.group(1)) * w)
        return rng

    def in_array(self, b, o):
        r = self.arrays.get(b[:2])
        return r is None or None in r or any(x[0] <= o < x[1] for x in r)

    def store(self, st, addr, val, size=8):
        b, o, v = split(addr)
        if v:
            st.ver[b] = ('w',)
            key = (b, '*')
            st.mem[key] = st.mem.get(key, frozenset()) | {val}
            # a variable store may overwrite scalars, keep those that hold tracked values
            return
        st.mem[(b, o)] = val
        # overlapping narrower entries
        for d in range(1, size):
            st.mem.pop((b, o + d), None)

    def havoc(self, st, base, I, size=None):
        """memory of base object may have been changed by a call"""
        b, o, v = split(base)
        if b[0] in ('c', 'g', 'api', 'u', 'arg', 'k'):
            return
        keep = self.c.prop_syms(st)
        for (bb, oo) in list(st.mem):
            if bb == b and oo != '*' and (oo >= o if v and all(sc > 0 for sc, x in v) else size is None or v or o <= oo < o + size):
                t = st.mem[(bb, oo)]
                if not (syms(t) & keep):
                    del st.mem[(bb, oo)]
        st.ver[b] = ('h', I['_b'], I['_n'])

    # ---- evaluation of conditions
    def truth(self, st, t):
        if t[0] == 'c':
            return t[1] != 0
        if t[0] == 'not':
            r = self.truth(st, t[1])
            return None if r is None else not r
        f = st.facts.get(t)
        if f is not None:
            if f[0] is not None and f[0] == f[1]:
                return f[0] != 0
            if 0 in f[2]:
                return True
        if t[0] == 'cmp':
            pred, a, b = t[1], t[2], t[3]
            if a == b:
                return {'eq': True, 'slt': False, 'ult': False}[pred]
            fa, fb = st.fact(a), st.fact(b)
            if pred == 'eq':
                if fa[0] is not None and fa[0] == fa[1] and fb[0] is not None and fb[0] == fb[1]:
                    return fa[0] == fb[0]
                if fb[0] is not None and fb[0] == fb[1] and (fb[0] in fa[2] or (fa[1] is not None and fa[1] < fb[0]) or (fa[0] is not None and fa[0] > fb[0])):
                    return False
                if fa[0] is not None and fa[0] == fa[1] and (fa[0] in fb[2] or (fb[1] is not None and fb[1] < fa[0]) or (fb[0] is not None and fb[0] > fa[0])):
                    return False
                ba, bb = split(a), split(b)
                if ba[0] == bb[0] and not ba[2] and not bb[2] and ba[0][0] not in ('c',) and a[0] in ('p',) + (ba[0][0],) and ba[1] != bb[1]:
                    return False
                if ba[0][0] == 'al' and bb[0][0] == 'al' and ba[0] != bb[0]:
                    return False
            elif pred == 'slt':
                if fa[1] is not None and fb[0] is not None and fa[1] < fb[0]:
                    return True
                if fa[0] is not None and fb[1] is not None and fa[0] >= fb[1]:
                    return False
                r = st.facts.get(('cmp', 'slt', b, a))
                if r == (1, 1, frozenset()):
                    return False
            elif pred == 'ult':
                if b == ('c', 0):
                    return False
                if fa[0] is not None and fa[0] >= 0 and fb[0] is not None and fb[0] >= 0:
                    if fa[1] is not None and fa[1] < fb[0]:
                        return True
                    if fb[1] is not None and fa[0] >= fb[1]:
                        return False
                r = st.facts.get(('cmp', 'ult', b, a))
                if r == (1, 1, frozenset()):
                    return False
        if t[0] == 'bin' and t[1] in ('and', 'or'):
            x, y = self.truth(st, t[2]), self.truth(st, t[3])
            if t[1] == 'and' and t[4] == 1:
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            elif t[1] == 'or':
                if x or y:
                    return True
                if x is False and y is False:
                    return False
        if t[0] in ('bin',):
            f = st.fact(t)
            if f[0] is not None and f[0] > 0 or 0 in f[2]:
                return True
        return None

    def assume(self, st, t, v):
        """add fact; returns False if contradictory"""
        r = self.truth(st, t)
        if r is not None:
            return r == v
        k = t[0]
        if k == 'not':
            return self.assume(st, t[1], not v)
        if k == 'cmp':
            pred, a, b = t[1], t[2], t[3]
            if b[0] == 'c':
                if not self.refine(st, a, pred, b[1], v):
                    return False
            elif pred == 'eq':
                if v:
                    fa, fb = st.fact(a), st.fact(b)
                    if fa[0] is not None and fa[0] == fa[1]:
                        self.refine(st, b, 'eq', fa[0], True)
                    elif fb[0] is not None and fb[0] == fb[1]:
                        self.refine(st, a, 'eq', fb[0], True)
                    elif 0 in fb[2]:
                        self.refine(st, a, 'eq', 0, False)
                    elif 0 in fa[2]:
                        self.refine(st, b, 'eq', 0, False)
            st.facts[t] = (1, 1, frozenset()) if v else (0, 0, frozenset())
            self.derive(st, a, b, pred, v)
            return True
        if k == 'bin' and t[1] == 'and' and t[4] == 1 and v:
            return self.assume(st, t[2], True) and self.assume(st, t[3], True)
        if k == 'bin' and t[1] == 'or' and not v:
            return self.assume(st, t[2], False) and self.assume(st, t[3], False)
        if v:
            st.facts[t] = (None, None, frozenset([0])) if k != 'fcmp' else (1, 1, frozenset())
        else:
            st.facts[t] = (0, 0, frozenset())
        return True

    def derive(self, st, a, b, pred, v):
        # x & m == 0 etc. are kept as opaque facts; propagate through additive constants
        if b[0] == 'c' and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'c':
            self.refine(st, a[2], pred, b[1] - a[3][1], v)
        if b[0] == 'c' and a[0] == 'and1':
            pass
        # result of a boolean-valued term compared with 0
        if b == ('c', 0) and pred == 'eq' and a[0] in ('cmp', 'fcmp', 'not') and False:
            self.assume(st, a, not v)

    def refine(self, st, a, pred, c, v):
        lo, hi, ex = st.fact(a)
        if pred == 'eq':
            if v:
                if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ex:
                    return False
                lo = hi = c
                ex = frozenset()
            else:
                if lo == c and hi == c:
                    return False
                if len(ex) < 12:
                    ex = ex | {c}
                if lo == c:
                    lo = c + 1
                if hi == c:
                    hi = c - 1
        elif pred == 'slt':
            if v:
                if lo is not None and lo >= c:
                    return False
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                if hi is not None and hi < c:
                    return False
                lo = c if lo is None else max(lo, c)
        elif pred == 'ult':
            if v and c > 0:
                lo = 0 if lo is None else max(lo, 0)
                hi = c - 1 if hi is None else min(hi, c - 1)
            elif not v and lo is not None and lo >= 0 and c >= 0:
                if hi is not None and hi < c:
                    return False
                lo = max(lo, c)
        if lo is not None and hi is not None and lo > hi:
            return False
        while lo is not None and lo in ex:
            ex = ex - {lo}
            lo += 1
        if lo is not None and hi is not None and lo > hi:
            return False
        st.setfact(a, (lo, hi, ex))
        return True

    # ---- main loop
    def run(self):
        st = State()
        self.c.init(st)
        self.work = []
        self.push(st, None, 0)
        while self.work:
            key = self.work.pop()
            b = key[0]
            self.pending.discard(key)
            st = self.states[key].copy()
            self.exec_block(st, b)

    pending = None

    def push(self, st, frm, b, via=None):
        if self.pending is None:
            self.pending = set()
        self.steps += 1
        if self.steps > self.MAXSTATES:
            raise TooComplex(self.F.dem)
        if frm is not None:
            self.visited_edges.add((frm, b))
            for k in self.F.loops_of(frm):
                if b not in self.loopblocks[k]:
                    if frm == self.F.loops[k]['h'] and (st.marks.get(k) == 0 and self.c.loop_at_least_once(k) or self.c.search_loop(k)):
                        return
                    st.marks.pop(k, None)
            if b in self.hdr:
                k = self.hdr[b]
                if frm in self.loopblocks[k]:
                    st.marks[k] = 1
                else:
                    st.marks[k] = 0
            if self.c.edge(st, frm, b) is False:
                return
            # phis
            new = {}
            for I in (self.F.blocks[b] if via is None else ()):
                if 'ph' not in I:
                    break
                for p, o in I['ph']:
                    if p == frm:
                        t = self.val(st, o)
                        if I['t'] == 'ptr' and t[0] in ('p', 'pv') and b in self.hdr and frm in self.loopblocks[self.hdr[b]]:
                            # an iterator: one summary position after the first round
                            bs = split(t)[0]
                            o0 = st.env.get(I['i']) or self.entry_phi.get((b, I['i']))
                            if o0 is not None and split(o0)[0] == bs and o0 != t:
                                t = ('pv', bs, 0, ((1, ('it', b, I['i'])),))
                        elif I['t'] == 'ptr' and b in self.hdr:
                            self.entry_phi[(b, I['i'])] = t
                        new[I['i']] = t
            st.env.update(new)
        live = self.live[b]
        st.env = {k: t for k, t in st.env.items() if k in live}
        if b in self.hdr:
            self.summarise_ivs(st, b)
        self.gc(st)
        ps = self.c.prop_syms(st)
        ek = frozenset((k, t) for k, t in st.env.items() if t[0] in ('sym',) and t in ps or (t[0] != 'c' and (syms(t) & ps) and t[0] in ('sym', 'elem')))
        mk = frozenset((k, t) for k, t in st.mem.items() if (k[1] == '*' and any(x in ps for x in t)) or (k[1] != '*' and t in ps))
        kt = tuple((t, st.fact(t)) for t in self.c.key_terms)
        key = (b, kt, frozenset(st.res.items()), frozenset(st.flags.items()), frozenset(st.marks.items()), ek, mk, self.c.sticky(st))
        if self.fine is not None:
            # keep states apart that decided a live condition differently
            lv = set()
            for t in st.env.values():
                leaves(t, lv)
            lv &= self.fine
            inner = set()
            for k in self.F.loops_of(b):
                inner |= self.loopblocks[k]
            key += (frozenset((t, f[0]) for t, f in st.facts.items() if t[0] in ('cmp', 'fcmp') and f[0] == f[1] is not None and leaves(t, set()) <= lv and not (inner and self.made_in(t, inner))),)
        old = self.states.get(key)
        if old is None:
            self.states[key] = st
            if key not in self.pending:
                self.pending.add(key)
                self.work.append(key)
            return
        j = self.join(old, st, b)
        if j is None:
            return
        self.states[key] = j
        if key not in self.pending:
            self.pending.add(key)
            self.work.append(key)

    def made_in(self, t, blocks):
        """does term t depend on something computed in these blocks?"""
        if not isinstance(t, tuple):
            return False
        if t[:1] == ('sym',):
            i = t[1]
            if isinstance(i, tuple):
                return i[1] in blocks
            D = self.F.defs.get(i)
            return D is None and i <= -1000 or D is not None and D['_b'] in blocks
        if t[:1] in (('m',), ('old',), ('h',), ('j',), ('it',)):
            return t[1] in blocks
        if t[:1] in (('und',), ('w',), ('al',)):
            return t[0] != 'al'
        return any(self.made_in(x, blocks) for x in t)

    def summarise_ivs(self, st, b):
        pass

    def gc(self, st):
        """drop memory of dead local objects and facts about dead symbols"""
        byb = {}
        for (b, o), t in st.mem.items():
            byb.setdefault(b, []).append((o, t))
        alive = set()
        for t in st.env.values():
            alive |= bases(t)
        stack = list(alive)
        for b in byb:
            if b[0] != 'al' and b not in alive:
                alive.add(b)
                stack.append(b)
        while stack:
            b = stack.pop()
            for o, t in byb.get(b, ()):
                for x in (t if o == '*' else (t,)):
                    for y in bases(x):
                        if y not in alive:
                            alive.add(y)
                            stack.append(y)
        for b in byb:
            if b[0] == 'al' and b not in alive:
                for o, t in byb[b]:
                    del st.mem[(b, o)]
        if st.res:
            dead = [r for r, v in st.res.items() if self.c.droppable(v)]
            for r in dead:
                if not any(r in syms(t) for t in st.env.values()) and not any((r in syms(k[0])) or (r in syms(t) if k[1] != '*' else any(r in syms(x) for x in t)) for k, t in st.mem.items()):
                    del st.res[r]

    def join(self, old, st, b):
        """join st into old; None when old already covers st"""
        changed = False
        r = old.copy()
        n = self.joincount[b] = self.joincount.get(b, 0) + 1
        # symbols of an earlier visit of this block
        stale = set()
        for k, t in st.env.items():
            o = old.env.get(k)
            m = ('m', b, k)
            if t != m and o == m or (o is not None and o != t):
                stale.add(m)
        for m in stale:
            if any(m in syms(t) for t in st.env.values()) or any(m in syms(t) for t in st.facts) or any(m in syms(k[0]) or (k[1] != '*' and m in syms(t)) or (k[1] == '*' and any(m in syms(x) for x in t)) for k, t in st.mem.items()):
                st = st.copy()
                self.rename(st, m, ('old', b, m[2]))
        for k in set(old.env) | set(st.env):
            a, c = old.env.get(k), st.env.get(k)
            if a == c:
                continue
            if a is None or c is None:
                if a is None:
                    r.env[k] = c
                continue
            m = ('m', b, k)
            if a == m or (a[0] == 'pv' and m in syms(a)) :
                if a == m:
                    # widen fact of m with fact of c
                    fo, fn = old.fact(m), st.fact(c)
                    j = jfact(fo, fn, n)
                    if j != fo:
                        changed = True
                        if j == TOP:
                            r.facts.pop(m, None)
                        else:
                            r.facts[m] = j
                else:
                    if split(a)[0] != split(c)[0]:
                        r.env[k] = m
                        changed = True
                continue
            ba, bc = split(a), split(c)
            changed = True
            if ba[0] == bc[0] and ba[0][0] not in ('c', 'u') and (a[0] in ('p', 'pv') or c[0] in ('p', 'pv')):
                r.env[k] = ('pv', ba[0], 0, ((1, m),))
                continue
            if a[0] == 'u':
                r.env[k] = c
                continue
            if c[0] == 'u':
                continue
            r.env[k] = m
            j = jfact(old.fact(a), st.fact(c), n)
            r.facts.pop(m, None)
            if j != TOP:
                r.facts[m] = j
        for k in set(old.mem) | set(st.mem):
            a, c = old.mem.get(k), st.mem.get(k)
            if a == c:
                continue
            if k[1] == '*':
                u = (a or frozenset()) | (c or frozenset())
                if u != a:
                    r.mem[k] = u
                    changed = True
                continue
            m = ('m', b, ('mem', k[0], k[1]))
            if a == m:
                continue
            if a is None:
                a = ('fld', k[0], k[1], old.ver.get(k[0], 0))
            if c is None:
                c = ('fld', k[0], k[1], st.ver.get(k[0], 0))
            if a == c:
                continue
            changed = True
            r.mem[k] = m
            j = jfact(old.fact(a), st.fact(c), n)
            r.facts.pop(m, None)
            if j != TOP:
                r.facts[m] = j
        for k in set(old.ver) | set(st.ver):
            a, c = old.ver.get(k, 0), st.ver.get(k, 0)
            if a != c and a != ('j', b):
                r.ver[k] = ('j', b)
                changed = True
        for t, f in old.facts.items():
            if t not in r.facts or (t[0] == 'm' and t[1] == b):
                continue
            g = st.facts.get(t)
            if g is None:
                g = st.fact(t)
            if g != f:
                j = jfact(f, g, n)
                if j != f:
                    changed = True
                    if j == TOP:
                        del r.facts[t]
                    else:
                        r.facts[t] = j
        return r if changed else None

    # ---- instructions
    def exec_block(self, st, b):
        F = self.F
        insts = F.blocks[b]
        self.exec_from(st, b, 0)

    def exec_from(self, st, b, start):
        insts = self.F.blocks[b]
        work = [(st, start)]
        while work:
            st, n = work.pop()
            while n < len(insts):
                I = insts[n]
                r = self.step(st, I, b)
                n += 1
                if r is None:
                    continue
                if r == 'stop':
                    break
                # list of states continuing at next instruction
                if not r:
                    break
                for s in r[1:]:
                    work.append((s, n))
                st = r[0]

    def step(self, st, I, b):
        o = I['o']
        env = st.env
        if o == 'phi':
            return None
        if o == 'load':
            addr = self.val(st, I['a'][0])
            d = I['a'][0]
            D = self.F.defs.get(d) if isinstance(d, int) else None
            if D is not None and D['o'] == 'getelementptr' and (D['st'] in ('struct.VSAPI', 'struct.VSPLUGINAPI') or D['st'].endswith('::VSAPI3')) and 'off' in D and 'var' not in D:
                fl = self.M.field(D['st'], D['off'])
                env[I['i']] = ('api', fl[0] if fl else '?%d' % D['off'])
                return None
            if isinstance(d, int) and d < len(self.F.args) and d < len(self.F.dtypes) - 1 and self.F.dtypes[d + 1] == 'VSAPI*':
                env[I['i']] = ('api', 'createVideoFilter')   # slot 0 is addressed without a gep
                return None
            if D is None or D['o'] != 'getelementptr':
                # slot 0 of VSAPI through a loaded pointer
                if addr[0] == 'fld' and len(addr) > 4 and addr[4] == 'VSAPI*':
                    env[I['i']] = ('api', 'createVideoFilter')
                    return None
            x = self.c.load(st, I, addr)
            if x is None:
                x = self.load(st, addr, I)
                if isinstance(x, list):   # forked
                    out = []
                    for s, v in x:
                        s.env[I['i']] = v
                        out.append(s)
                    return out
            env[I['i']] = x
            return None
        if o == 'store':
            v = self.val(st, I['a'][0])
            addr = self.val(st, I['a'][1])
            self.note_array(I, addr)
            r = self.c.store(st, I, addr, v)
            if r is None:
                self.store(st, addr, v, I.get('sz', 8))
            return None
        if o == 'getelementptr':
            p = self.val(st, I['a'][0])
            if 'off' not in I:
                env[I['i']] = ('pv', self.root(p), 0, ((1, ('und', I['i'])),))
                return None
            bb, oo, vv = split(p)
            off = oo + I['off']
            var = list(vv)
            for op, sc in I.get('var', ()):
                t = self.val(st, op)
                f = st.fact(t)
                if f[0] is not None and f[0] == f[1] and not self.loop_variant(op, b):
                    off += f[0] * sc
                else:
                    var.append((sc, t))
            t = mkptr(bb, off, tuple(var))
            if depth(t) > MAXDEPTH:
                t = mkptr(bb, 0, ((1, ('und', I['i'])),))
            env[I['i']] = t
            return None
        if o == 'alloca':
            env[I['i']] = ('al', I['i'])
            return None
        if o == 'icmp':
            a, c = self.val(st, I['a'][0]), self.val(st, I['a'][1])
            t, pol = mkcmp(I['p'], a, c)
            # icmp (bool-ish), 0
            if t[1] == 'eq' and t[3] == ('c', 0) and a[0] in ('cmp', 'fcmp', 'not') or (t[1] == 'eq' and t[3] == ('c', 0) and a[0] == 'bin' and a[4] == 1):
                t, pol = a, not pol
            if t[0] == 'cmp' and t[1] == 'eq' and t[3] == ('c', 1) and a[0] in ('cmp', 'fcmp', 'not'):
                t = a
            env[I['i']] = t if pol else ('not', t)
            self.foldbool(st, I['i'])
            return None
        if o == 'fcmp':
            a, c = self.val(st, I['a'][0]), self.val(st, I['a'][1])
            env[I['i']] = ('fcmp', I['p'], a, c)
            return None
        if o in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = self.val(st, I['a'][0])
            if o == 'trunc' and I.get('t') == 'i1' and a[0] not in ('cmp', 'fcmp', 'not', 'c') and not (a[0] == 'bin' and a[4] == 1):
                f = st.fact(a)
                if f[0] is not None and f[0] == f[1]:
                    a = ('c', f[0] & 1)
                else:
                    a = ('not', ('cmp', 'eq', a, ('c', 0)))
            elif o == 'trunc' and a[0] == 'c':
                a = ('c', wrap(a[1], int(I['t'][1:])) if I['t'][0] == 'i' else a[1])
            elif o == 'zext' and a[0] == 'c' and a[1] < 0:
                a = ('c', a[1] & ((1 << int(I['ft'][1:])) - 1))
            env[I['i']] = a
            return None
        if o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            a, c = self.val(st, I['a'][0]), self.val(st, I['a'][1])
            env[I['i']] = self.binop(st, o, a, c, I)
            return None
        if o == 'select':
            c = self.val(st, I['a'][0])
            x, y = self.val(st, I['a'][1]), self.val(st, I['a'][2])
            r = self.truth(st, c)
            if r is True:
                env[I['i']] = x
            elif r is False:
                env[I['i']] = y
            elif x == y:
                env[I['i']] = x
            elif I.get('t') == 'ptr' or (syms(x) | syms(y)) & self.c.prop_syms(st):
                s2 = st.copy()
                out = []
                if self.assume(st, c, True):
                    st.env[I['i']] = x
                    out.append(st)
                if self.assume(s2, c, False):
                    s2.env[I['i']] = y
                    out.append(s2)
                return out
            elif I.get('t') == 'i1' and x[0] in ('c', 'cmp', 'not', 'bin', 'fcmp') and y[0] in ('c', 'cmp', 'not', 'bin', 'fcmp'):
                if y == ('c', 0):
                    env[I['i']] = ('bin', 'and', c, x, 1)
                elif x == ('c', 1):
                    env[I['i']] = ('bin', 'or', c, y, 1)
                else:
                    env[I['i']] = ('sel', c, x, y)
            else:
                t = ('sel', c, x, y)
                if depth(t) > MAXDEPTH:
                    t = ('und', I['i'])
                env[I['i']] = t
                j = jfact(st.fact(x), st.fact(y), 0)
                if j != TOP:
                    st.facts[t] = j
            return None
        if o == 'br':
            if 'a' not in I:
                if self.F.succs(b)[0] in self.hdr or True:
                    self.push(st, b, I['s'][0])
                return 'stop'
            c = self.val(st, I['a'][0])
            for x in leaves(c, set()):
                self.tested.setdefault(x, set()).add(b)
            sk = self.skip(b)
            if sk is not None and self.truth(st, c) is None and self.c.skippable(st, c):
                self.do_skip(st, b, sk, c)
                return 'stop'
            r = self.truth(st, c)
            if r is not False:
                s2 = st.copy() if r is None else st
                if self.assume(s2, c, True):
                    self.tr(s2, I, 'T')
                    self.push(s2, b, I['s'][0])
            if r is not True:
                if self.assume(st, c, False):
                    self.tr(st, I, 'F')
                    self.push(st, b, I['s'][1])
            return 'stop'
        if o == 'switch':
            c = self.val(st, I['a'][0])
            f = st.fact(c)
            sk = self.skip(b)
            if sk is not None and not (f[0] is not None and f[0] == f[1]) and self.c.skippable(st, c):
                self.do_skip(st, b, sk, c)
                return 'stop'
            groups = {}
            for v, blk in I['cs']:
                groups.setdefault(blk, []).append(v)
            taken = False
            for blk, vs in groups.items():
                if blk == I['d']:
                    continue
                poss = [v for v in vs if self.possible(f, v)]
                if not poss:
                    continue
                s2 = st.copy()
                if len(poss) == 1:
                    self.refine(s2, c, 'eq', poss[0], True)
                else:
                    ex = f[2]
                    s2.setfact(c, (min(poss), max(poss), frozenset(x for x in range(min(poss), min(max(poss), min(poss) + 40)) if x not in poss)))
                self.tr(s2, I, str(poss[0]))
                self.push(s2, b, blk)
            if f[0] is not None and f[0] == f[1] and any(f[0] == v for v, blk in I['cs'] if blk != I['d']):
                return 'stop'
            for v, blk in I['cs']:
                if blk != I['d']:
                    if not self.refine(st, c, 'eq', v, False):
                        return 'stop'
            self.tr(st, I, 'default')
            self.push(st, b, I['d'])
            return 'stop'
        if o in ('call', 'invoke'):
            return self.docall(st, I, b)
        if o == 'ret':
            v = self.val(st, I['a'][0]) if I['a'] else None
            self.c.ret(st, I, v)
            return 'stop'
        if o == 'unreachable':
            self.c.unreachable(st, I)
            return 'stop'
        if o == 'resume':
            self.c.ret(st, I, ('exc',))
            return 'stop'
        if o == 'landingpad':
            env[I['i']] = ('lp', I['i'])
            return None
        if o == 'extractvalue':
            a = self.val(st, I['a'][0])
            env[I['i']] = ('ev', a, tuple(I['ix']))
            if a[0] == 'lp':
                if I['ix'] == [1]:
                    env[I['i']] = ('sym', I['i'], 0, 'sel')
                    st.facts.pop(('sym', I['i'], 0, 'sel'), None)
            return None
        if 'i' in I:
            ts = tuple(self.val(st, x) for x in I.get('a', ()))
            t = ('op', o) + ts + (I.get('t', ''),)
            if depth(t) > MAXDEPTH:
                t = ('und', I['i'])
            env[I['i']] = t
        return None

    def loop_variant(self, o, b):
        """SSA value computed from a phi of a loop header around block b"""
        if not isinstance(o, int):
            return False
        key = (o, b)
        r = self._lv.get(key)
        if r is None:
            hs = {self.F.loops[k]['h'] for k in self.F.loops_of(b)}
            r = False
            seen = set()
            w = [o]
            while w and not r:
                x = w.pop()
                if not isinstance(x, int) or x in seen:
                    continue
                seen.add(x)
                D = self.F.defs.get(x)
                if D is None:
                    continue
                if D['o'] == 'phi':
                    if D['_b'] in hs:
                        r = True
                elif D['o'] in ('add', 'sub', 'mul', 'shl', 'sext', 'zext', 'trunc'):
                    w.extend(D['a'])
            self._lv[key] = r
        return r

    def foldbool(self, st, i):
        t = st.env[i]
        u = t[1] if t[0] == 'not' else t
        if u[0] == 'cmp' and u[2][0] == 'c' and u[3][0] == 'c':
            a, b = u[2][1], u[3][1]
            r = {'eq': a == b, 'slt': a < b, 'ult': (a & (2**64 - 1)) < (b & (2**64 - 1))}[u[1]]
            if t[0] == 'not':
                r = not r
            st.env[i] = ('c', 1 if r else 0)

    def possible(self, f, v):
        if f[0] is not None and v < f[0]:
            return False
        if f[1] is not None and v > f[1]:
            return False
        return v not in f[2]

    def tr(self, st, I, d):
        n = st.trace[3] if st.trace else 0
        if n < 300:
            st.trace = (st.trace, I.get('l', -1), d, n + 1)

    def binop(self, st, o, a, c, I):
        bits = int(I['t'][1:]) if I.get('t', '')[:1] == 'i' and I['t'][1:].isdigit() else 64
        fa, fc = st.fact(a), st.fact(c)
        if a[0] != 'c' and fa[0] is not None and fa[0] == fa[1]:
            a = ('c', fa[0])
        if c[0] != 'c' and fc[0] is not None and fc[0] == fc[1]:
            c = ('c', fc[0])
        if a[0] == 'c' and c[0] == 'c':
            x, y = a[1], c[1]
            m = (1 << bits) - 1
            try:
                v = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y, 'lshr': lambda: (x & m) >> y, 'ashr': lambda: x >> y,
                     'sdiv': lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1), 'udiv': lambda: (x & m) // (y & m),
                     'srem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1), 'urem': lambda: (x & m) % (y & m)}[o]()
                return ('c', wrap(v, bits) if bits > 1 else v & 1)
            except (ZeroDivisionError, ValueError, OverflowError):
                return ('und', I['i'])
        if o in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c':
            a, c = c, a
        if o == 'sub' and c[0] == 'c':
            o, c = 'add', ('c', -c[1])
        if o == 'sub' and a == c:
            return ('c', 0)
        if c == ('c', 0):
            if o in ('add', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if o in ('mul', 'and'):
                return c
        if o == 'mul' and c == ('c', 1):
            return a
        if o == 'add' and c[0] == 'c' and a[0] in ('p',) or (o == 'add' and c[0] == 'c' and a[0] == 'al'):
            b_, o_, v_ = split(a)
            return mkptr(b_, o_ + c[1], v_)
        if o == 'add' and c[0] == 'c' and a[0] == 'bin' and a[1] == 'add' and a[3][0] == 'c':
            return self.binop(st, 'add', a[2], ('c', a[3][1] + c[1]), I)
        if o == 'xor' and bits == 1 and c == ('c', 1):
            return a[1] if a[0] == 'not' else ('not', a)
        if bits == 1 and o == 'and' and c == ('c', 1):
            return a
        # pointer difference on the same object
        if o == 'sub' and a[0] in ('p', 'al', 'sym', 'fld') and c[0] in ('p', 'al', 'sym', 'fld'):
            x, y = split(a), split(c)
            if x[0] == y[0]:
                return ('c', x[1] - y[1])
        if o in ('add', 'mul', 'and', 'or', 'xor') and c[0] != 'c' and repr(a) > repr(c):
            a, c = c, a
        t = ('bin', o, a, c, bits)
        if depth(t) > MAXDEPTH:
            return ('und', I['i'])
        return t

    def docall(self, st, I, b):
        f = self.val(st, I['f'])
        args = [self.val(st, x) for x in I['a']]
        res = None
        if f[0] == 'api':
            res = self.c.api(st, I, f[1], args)
            if res is None:
                res = self.default_api(st, I, f[1], args)
        elif f[0] == 'g':
            name = f[1]
            dem = self.M.dem(name)
            if name.startswith('llvm.'):
                res = self.intrinsic(st, I, name, args)
            else:
                res = self.c.call(st, I, name, dem, args)
                if res is None and VECTOR(dem):
                    res = self.vector_call(st, I, dem, args)
                if res is None:
                    res = self.default_call(st, I, name, dem, args)
        else:
            res = self.c.icall(st, I, f, args)
            if res is None:
                res = self.default_call(st, I, None, '<indirect>', args)
        out = []
        if res == 'stop':
            return 'stop'
        for s, v in res:
            if 'i' in I:
                s.env[I['i']] = v if v is not None else ('und', I['i'])
            out.append(s)
        if I['o'] == 'invoke':
            nm = f[1] if f[0] == 'g' else None
            unw = False
            if nm == '__cxa_throw' or nm == '__cxa_rethrow' or (not I.get('nt') and self.throws(I, nm)):
                unw = True
            for s in out:
                if unw:
                    s2 = s.copy()
                    self.c_unwind(s2, I)
                    self.push(s2, b, I['s'][1])
                if not I.get('nr') and nm not in ('__cxa_throw', '__cxa_rethrow'):
                    self.push(s, b, I['s'][0])
            return 'stop'
        if I.get('nr'):
            for s in out:
                self.c.unreachable(s, I)
            return 'stop'
        return out

    def c_unwind(self, st, I):
        pass

    def newsym(self, st, I, tag=0, of=None):
        t = self.fresh(st, I, tag, of)
        for k in [k for k in st.facts if t in syms(k)]:
            del st.facts[k]
        return t

    # ---- std::vector<tracked pointer>: one summary cell per vector object, keyed by the object's address
    def vector_call(self, st, I, dem, args):
        m = VECTOR(dem).group(1)
        b, o, v = split(args[0])
        vp = ('vp', b, o) if not v else ('vp', b, ('v', v))
        ver = st.ver.get(vp, 0)
        if m in ('operator[]', 'at'):
            return [(st, ('pv', vp, 0, ((1, args[1]),)))]
        if m in ('begin', 'cbegin', 'data', 'rbegin', 'front', 'back'):
            return [(st, ('pv', vp, 0, ((1, ('k', m, ver)),)))]
        if m in ('end', 'cend', 'rend'):
            return [(st, ('pv', vp, 0, ((1, ('k', 'end', ver)),)))]
        if m == 'size':
            return [(st, ('op', 'size', vp, ver))]
        if m == 'empty':
            return [(st, mkcmp('eq', ('op', 'size', vp, ver), ('c', 0))[0])]
        if m in ('push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'vector', 'operator='):
            for a in args[1:]:
                bb, oo, vv = split(a)
                if bb[0] == 'al' and not vv:
                    for (x, off), t in list(st.mem.items()):
                        if x == bb and off != '*' and oo <= off < oo + 16:
                            self.store(st, ('pv', vp, 0, ((1, ('k', 'in')),)), t)
        st.ver[vp] = ('v', I['_b'], I['_n'])
        return [(st, self.newsym(st, I) if 'i' in I else None)]

    # which API functions write through a pointer argument: name -> arg index
    OUTARG = {'mapGetInt': 3, 'mapGetIntSaturated': 3, 'mapGetIntArray': 2, 'mapGetFloat': 3, 'mapGetFloatSaturated': 3, 'mapGetFloatArray': 2,
              'mapGetData': 3, 'mapGetDataSize': 3, 'mapGetDataTypeHint': 3, 'mapGetNode': 3, 'mapGetFrame': 3, 'mapGetFunction': 3,
              'queryVideoFormat': 0, 'queryAudioFormat': 0, 'getVideoFormatByID': 0, 'getVideoFormatName': 1, 'getAudioFormatName': 1, 'getCoreInfo': 1, 'getCoreInfo2': 1, 'getFrame': 2}

    def default_api(self, st, I, name, args):
        k = self.OUTARG.get(name)
        if k is not None and k < len(args) and args[k] != ('c', 0):
            self.havoc(st, args[k], I, 4 if name.startswith('mapGet') else 28 if 'VideoFormat' in name else None)
            if name.startswith('mapGet'):
                self.store(st, args[k], self.newsym(st, I, 'err'), 4)
        v = self.newsym(st, I) if 'i' in I else None
        return [(st, v)]

    def default_call(self, st, I, name, dem, args):
        # any local object passed by address may be modified
        for a in args:
            bb = split(a)[0]
            if bb[0] in ('al', 'sym', 'fld', 'ldv', 'm'):
                self.havoc(st, a, I)
        v = self.newsym(st, I) if 'i' in I else None
        if v is not None and dem in ('operator new(unsigned long)', 'operator new[](unsigned long)'):
            st.facts[v] = (None, None, frozenset([0]))
        return [(st, v)]

    def intrinsic(self, st, I, name, args):
        if name.startswith('llvm.memset') or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            bb, oo, vv = split(args[0])
            if name.startswith('llvm.memset') and args[2][0] == 'c' and args[1][0] == 'c' and not vv and args[2][1] <= 4096:
                self.zero(st, bb, oo, args[2][1], args[1][1])
            elif not name.startswith('llvm.memset') and args[2][0] == 'c' and not vv and args[2][1] <= 4096:
                sb, so, sv = split(args[1])
                n = args[2][1]
                ents = {}
                if not sv:
                    for (x, o), t in st.mem.items():
                        if x == sb and o != '*' and so <= o < so + n:
                            ents[o - so] = t
                    if sb[0] == 'g':
                        g = self.M.globals.get(sb[1])
                        if g and g['const'] and 'init' in g:
                            for d in range(0, n, 4):
                                c = const_at(g['init'], so + d)
                                if c is not None:
                                    ents[d] = self.val(st, c)
                for (x, o) in list(st.mem):
                    if x == bb and o != '*' and oo <= o < oo + n:
                        del st.mem[(x, o)]
                if not sv:
                    # fields that are not known become stable symbols of the source
                    for d in range(0, n, 4):
                        if d not in ents:
                            ents[d] = ('fld', sb, so + d, st.ver.get(sb, 0))
                    for d, t in ents.items():
                        st.mem[(bb, oo + d)] = t
                else:
                    st.ver[bb] = ('h', I['_b'], I['_n'])
            else:
                self.havoc(st, args[0], I)
            return [(st, None)]
        if 'i' in I:
            t = ('op', name) + tuple(args)
            if depth(t) > MAXDEPTH:
                t = ('und', I['i'])
            return [(st, t)]
        return [(st, None)]

    def zero(self, st, bb, oo, n, v):
        for (x, o) in list(st.mem):
            if x == bb and o != '*' and oo <= o < oo + n:
                del st.mem[(x, o)]
        b = v & 255
        for d in range(0, n, 4):
            st.mem[(bb, oo + d)] = ('c', wrap(b * 0x01010101, 32)) if b else ('c', 0)


@lru_cache(maxsize=None)
def bases(t):
    k = t[0]
    if k in ('al', 'sym', 'm'):
        r = {t}
        for x in t[3:]:
            if isinstance(x, tuple):
                r |= bases(x)
        return frozenset(r)
    r = set()
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                r |= bases(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple) and z and isinstance(z[0], str):
                                r |= bases(z)
    return frozenset(r)


def jfact(a, b, n):
    if a == b:
        return a
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    if n > 6:
        # widening
        if lo is not None and (a[0] is None or lo < a[0]):
            lo = 0 if lo >= 0 else None
        if hi is not None and (a[1] is None or hi > a[1]):
            hi = None
    ex = frozenset(x for x in a[2] | b[2] if not inside(a, x) and not inside(b, x))
    if lo is None and hi is None and not ex:
        return TOP
    return (lo, hi, ex)


def size(t):
    return 1 + sum(size(x) for x in t if isinstance(x, tuple))


def inside(f, x):
    if x in f[2]:
        return False
    if f[0] is not None and x < f[0]:
        return False
    if f[1] is not None and x > f[1]:
        return False
    return True


def const_at(init, off, _d=0):
    """operand encoding of the constant at byte offset, for struct initialisers with explicit offsets"""
    if not isinstance(init, list):
        return None
    if init[0] == 'a':
        best = None
        for e in init[1:]:
            if isinstance(e, list) and e and e[0] == '@':
                if e[1] == off and not (isinstance(e[2], list) and e[2][0] == 'a'):
                    return e[2]
                if e[1] <= off:
                    best = e
            else:
                return arr_at(init, off)
        if best is not None:
            return const_at(best[2], off - best[1])
        return None
    if init[0] == 'z':
        return ['i', 0, 32]
    if off == 0 and init[0] in ('i', 'n', 'g', 'f', 'cg'):
        return init
    return None


def arr_at(init, off):
    els = init[1:]
    if not els:
        return None
    e = els[0]
    if e[0] == 'i':
        sz = e[2] // 8 or 1
    elif e[0] in ('n', 'g', 'cg'):
        sz = 8
    else:
        return None
    if off % sz:
        return None
    k = off // sz
    if 0 <= k < len(els) and els[k][0] in ('i', 'n', 'g', 'cg'):
        return els[k]
    return None
