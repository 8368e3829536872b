"""Property simulation over the core's functions (repo functions kept as calls, followed into when the client
wants their events).

One abstract state per program point, call stack, client tag and set of sticky facts; everything else is joined.
Values are terms over access paths (object, class, field); branch outcomes are facts about terms and die when the
memory they mention may have changed. Exceptional edges are not followed."""
import re, heapq
from core import cls, gepchain
from ir import succ_of

PURE = re.compile(r'::(begin|end|cbegin|cend|rbegin|size|empty|front|back|operator\[\]|operator->|operator\*|find|count|get|c_str|data|at|length|max_size|capacity|lower_bound|'
                  r'operator==|operator!=|operator<|what|type|unique|contains|base)(\[abi:[a-z0-9]+\])?(<.*>)?\(')
MAXDEPTH = 14


class TooBig(Exception):
    pass


def short_name(dem):
    """Class::method without template arguments and parameters"""
    s = dem
    # strip the parameter list at depth 0
    out, depth = [], 0
    i = 0
    opn = re.search(r'operator\s*(<=>|<<=|>>=|->\*|\(\)|<<|>>|->|<=|>=|[<>]|[^\s\w(]+)?', s)
    prot = (opn.start(), opn.end()) if opn else (-1, -1)
    while i < len(s):
        if prot[0] <= i < prot[1]:
            if depth == 0:
                out.append(s[i])
            i += 1
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            if c == '(':
                if s.startswith('(anonymous namespace)', i):
                    out.append('(anonymous namespace)')
                    i += len('(anonymous namespace)')
                    continue
                break
            out.append(c)
        i += 1
    r = ''.join(out).strip()
    if opn is None and ' ' in r:
        r = r.split(' ')[-1]
    elif opn is not None:
        k = r.find('operator')
        p = r.rfind(' ', 0, k)
        if p >= 0:
            r = r[p + 1:]
    return r


def mentions(t, p):
    if t == p:
        return True
    return isinstance(t, tuple) and any(mentions(x, p) for x in t if isinstance(x, tuple))


def anyterm(t, pred):
    if pred(t):
        return True
    return isinstance(t, tuple) and any(anyterm(x, pred) for x in t if isinstance(x, tuple))


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def depth(t):
    return 1 + max((depth(x) for x in t if isinstance(x, tuple)), default=0) if isinstance(t, tuple) else 0


C0 = ('c', 0)
M64 = 2**64
ICMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
        'ult': lambda a, b: a % M64 < b % M64, 'ule': lambda a, b: a % M64 <= b % M64, 'ugt': lambda a, b: a % M64 > b % M64, 'uge': lambda a, b: a % M64 >= b % M64}


def neg(c):
    return (c[0], c[1], not c[2])


def cond(t):
    """(term, constant, equal?)"""
    if isinstance(t, tuple):
        k = t[0]
        if k == 'c':
            return (t, 0, False)
        if k in ('trunc', 'zext', 'freeze', 'sext'):
            return cond(t[1])
        if k == 'xor' and t[2] == ('c', 1):
            return neg(cond(t[1]))
        if k == 'xor' and t[1] == ('c', 1):
            return neg(cond(t[2]))
        if k == 'icmp':
            p, a, b = t[1], t[2], t[3]
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
                p = {'ugt': 'ult', 'ult': 'ugt', 'uge': 'ule', 'ule': 'uge', 'sgt': 'slt', 'slt': 'sgt', 'sge': 'sle', 'sle': 'sge'}.get(p, p)
            if p in ('eq', 'ne'):
                if b[0] == 'c':
                    if b[1] == 0:
                        c = cond(a)
                        return neg(c) if p == 'eq' else c
                    if a[0] in ('trunc', 'zext', 'sext'):
                        a = a[1]
                    return (a, b[1], p == 'eq')
                x, y = sorted((a, b), key=repr)
                return (('same', x, y), 0, p == 'ne')
            if b == C0 and p == 'ugt':
                return cond(a)
            if b == C0 and p == 'ule':
                return neg(cond(a))
            if b == ('c', 1) and p == 'ult':
                return neg(cond(a))
            if b == ('c', 1) and p == 'uge':
                return cond(a)
            if p in ('ugt', 'sgt'):
                return ((p[0] + 'lt', b, a), 0, False)
            if p in ('ult', 'slt'):
                return ((p, a, b), 0, False)
            if p in ('uge', 'sge'):
                return ((p[0] + 'lt', a, b), 0, True)
            if p in ('ule', 'sle'):
                return ((p[0] + 'lt', b, a), 0, True)
    return (t, 0, False)


class State:
    __slots__ = ('stack', 'env', 'mem', 'facts', 'tag', 'hist')

    def __init__(s):
        s.stack = ()      # ((function, block, next instruction), ...) innermost last
        s.env = ()        # one dict per frame
        s.mem = {}
        s.facts = {}
        s.tag = ()
        s.hist = ()

    def copy(s):
        n = State()
        n.stack, n.env, n.mem, n.facts, n.tag, n.hist = s.stack, tuple(dict(e) for e in s.env), dict(s.mem), dict(s.facts), s.tag, s.hist
        return n

    def get(s, k, d=None):
        for a, b in s.tag:
            if a == k:
                return b
        return d

    def set(s, k, v):
        s.tag = tuple(sorted([x for x in s.tag if x[0] != k] + [(k, v)], key=lambda x: x[0]))


class Client:
    """what an analysis overrides"""
    cells = ()            # ('ld', place) terms whose truth keeps states apart
    named = ()            # short names never followed into
    tagterms = False      # the tag holds terms, which are renamed when memory changes

    def event(self, F, I, dem, short):
        """does this call instruction matter (used to decide which helpers to follow into)"""
        return False

    def event_store(self, cls, field):
        return False

    def follows(self, G, sn):
        return False

    def follow_args(self, args):
        """calls with these arguments are followed"""
        return False

    def models(self, sn):
        """use the built-in model of library and smart pointer classes"""
        return True

    def canon(self, base, c):
        """canonical object term of a base pointer of class c"""
        return base

    def call(self, fl, st, I, dem, short, args):
        return None

    def store(self, fl, st, I, ptr, val):
        pass

    def prestore(self, fl, st, I, ptr, val, old):
        """before memory changes: old is what ptr held"""

    def block(self, fl, st, I, what, args):
        """memcpy, memmove, memset"""

    def branch(self, fl, st, I, c, outcome):
        pass

    def key(self, fl, st):
        """facts that keep states apart"""
        return None

    def ret(self, fl, st):
        pass

    def end(self, fl, st):
        """path ended without returning"""


class Flow:
    def __init__(self, P, client, limit=60000):
        self.P, self.c = P, client
        self.limit = limit
        self.live = {}
        self.sid = {}
        self._ord = {}
        self.seq = 0
        self.steps = 0
        self._wants = None
        self._mods = None

    # ---- program facts

    def callee(self, F, I):
        f = I.get('f')
        if isinstance(f, list) and f[0] == 'g':
            G = self.P.funcs.get(f[1])
            return f[1], G.dem if G is not None else F.m.dem(f[1])
        return None, None

    def wants(self):
        """functions whose bodies (transitively) contain events"""
        if self._wants is None:
            direct, callers = set(), {}
            for F in self.P.funcs.values():
                repo = (F.file or '').startswith('/repo/')
                for I in F.insts():
                    if I['o'] in ('call', 'invoke'):
                        n, dem = self.callee(F, I)
                        if n:
                            callers.setdefault(n, set()).add(F.name)
                            if repo and self.c.event(F, I, dem, short_name(dem)):
                                direct.add(F.name)
                        elif repo and self.c.event(F, I, None, None):
                            direct.add(F.name)
                    elif repo and I['o'] in ('store', 'atomicrmw'):
                        f = self.fieldof(F, I['a'][1] if I['o'] == 'store' else I['a'][0])
                        if f and self.c.event_store(f[0], f[1]):
                            direct.add(F.name)
            todo = list(direct)
            out = set(direct)
            while todo:
                n = todo.pop()
                for k in callers.get(n, ()):
                    if k not in out:
                        out.add(k)
                        todo.append(k)
            self._wants = out
        return self._wants

    def fieldof(self, F, o):
        base, ch = gepchain(F, o)
        for st, off in ch[:1]:
            if off is None:
                return None
            fl = F.m.field(cls(st), off)
            if fl:
                return cls(st), fl[0].split('.')[0].split('+')[0]
        return None

    def mods(self):
        """function -> set of (class, field) it may store to, transitively; '*' = calls through a pointer"""
        if self._mods is None:
            d, callees = {}, {}
            for F in self.P.funcs.values():
                s, cs = set(), set()
                for I in F.insts():
                    o = I['o']
                    if o in ('store', 'atomicrmw', 'cmpxchg'):
                        f = self.fieldof(F, I['a'][1] if o == 'store' else I['a'][0])
                        if f:
                            s.add(f)
                    elif o in ('call', 'invoke'):
                        n, dem = self.callee(F, I)
                        if n is None:
                            s.add('*')
                        elif n in self.P.funcs:
                            cs.add(n)
                        if n is None or n not in self.P.funcs or not (self.P.funcs[n].file or '').startswith('/repo/'):
                            if dem is None or not self.pure(dem):
                                for a in I.get('a', ()):
                                    f = self.fieldof(F, a) if isinstance(a, int) else None
                                    if f:
                                        s.add(f)
                d[F.name], callees[F.name] = s, cs
            ch = True
            while ch:
                ch = False
                for n, cs in callees.items():
                    k = len(d[n])
                    for c in cs:
                        d[n] |= d[c]
                    if len(d[n]) != k:
                        ch = True
            api = set()
            for n in self.P.in_tables:
                if n in d:
                    api |= d[n]
            for n in d:
                if '*' in d[n]:
                    d[n] = d[n] | api
            self._api = api
            self._mods = d
        return self._mods

    def pure(self, dem):
        # trailing const of a member function
        return bool(PURE.search(dem)) or bool(re.search(r'\) const(\[abi:\w+\])?$', dem))

    def liveness(self, F):
        """live-in SSA values per block"""
        L = self.live.get(F.name)
        if L is not None:
            return L
        n = len(F.blocks)
        use, defs, phiuse = [set() for _ in range(n)], [set() for _ in range(n)], {}
        from ir import operands
        for b, ins in enumerate(F.blocks):
            for I in ins:
                if 'ph' in I:
                    for p, o in I['ph']:
                        if isinstance(o, int):
                            phiuse.setdefault(p, {}).setdefault(b, set()).add(o)
                else:
                    for o in operands(I):
                        for x in self.ints(o):
                            if x not in defs[b]:
                                use[b].add(x)
                if 'i' in I:
                    defs[b].add(I['i'])
        L = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in F.succs(b):
                    out |= L[s]
                    out |= phiuse.get(b, {}).get(s, set())
                new = use[b] | (out - defs[b])
                # phi results are defined in the block
                if new != L[b]:
                    L[b] = new
                    ch = True
        self.live[F.name] = L
        # a phi's own operands are live out of the predecessor, its result is defined here
        return L

    def ints(self, o):
        if isinstance(o, int):
            yield o
        elif isinstance(o, list) and o and o[0] == 'cg' and isinstance(o[1], int):
            yield o[1]

    # ---- terms

    def site(self, stack):
        k = tuple((f.name, b, n) for f, b, n in stack[:-1])
        return self.sid.setdefault(k, len(self.sid))

    def opq(self, st, i, kind='v'):
        F = st.stack[-1][0]
        return ('o', kind, self.site(st.stack), F.name if len(F.name) < 40 else F.sname or F.name[:40], i)

    def val(self, st, o):
        F = st.stack[-1][0]
        if isinstance(o, int):
            t = st.env[-1].get(o)
            return t if t is not None else self.opq(st, o)
        if o is None:
            return ('u',)
        k = o[0]
        if k == 'i':
            return ('c', o[1])
        if k == 'n':
            return C0
        if k == 'g':
            s = F.m.string(o)
            if s is not None:
                return ('str', s)
            return ('g', o[1])
        if k == 'cg':
            s = F.m.string(o)
            if s is not None:
                return ('str', s)
            return ('off', self.val(st, o[1]), o[2])
        return ('k', repr(o))

    def gep(self, st, I):
        F = st.stack[-1][0]
        base = self.val(st, I['a'][0])
        if I.get('var'):
            vs = tuple(self.val(st, o) for o, _ in I['var'])
            off = I.get('off') or 0
            c = cls(I.get('st', ''))
            fl = F.m.field(c, off) if c else None
            if fl and not (base[0] == 'f' and base[2] == c):
                base = ('f', self.c.canon(base, c), c, fl[0].split('+')[0].split('.')[0])
                off = int(fl[0].split('+')[1]) if '+' in fl[0] else 0
            if all(v[0] == 'c' for v in vs):
                off += sum(v[1] * k for v, (_, k) in zip(vs, I['var']))
                return ('off', base, off) if off else base
            return ('idx', base, vs, off)
        off = I.get('off')
        stn = I.get('st', '')
        c = cls(stn)
        fl = F.m.field(c, off) if off is not None else None
        if fl:
            if base[0] == 'f' and base[2] == c:
                return base
            nm = fl[0].split('+')[0]
            top = nm.split('.')[0]
            ob = self.c.canon(base, c)
            return ('f', ob, c, top) if nm == top or True else None
        if off == 0 or not off:
            return base
        if base[0] == 'off' and isinstance(base[2], int):
            off += base[2]
            base = base[1]
            return ('off', base, off) if off else base
        return ('off', base, off)

    def load(self, st, p):
        if p in st.mem:
            return st.mem[p]
        return ('ld', p)

    # ---- killing

    def kill(self, st, pred, why):
        """memory locations p with pred(p) may have changed"""
        hit = set()

        def find(t):
            if isinstance(t, tuple) and t:
                if t[0] in ('ld', 'call') and len(t) > 1:
                    for x in t[1:]:
                        if isinstance(x, tuple) and anyterm(x, pred):
                            hit.add(t)
                            return
                for x in t:
                    find(x)
        for e in st.env:
            for v in e.values():
                find(v)
        for v in st.mem.values():
            find(v)
        for t in st.facts:
            find(t)
        if self.c.tagterms:
            find(st.tag)
        for k in [k for k in st.mem if anyterm(k, pred)]:
            del st.mem[k]
        if not hit:
            return
        ren = {}
        for h in hit:
            n = ('snap', depthlimit(h), why)
            ren[h] = n
        # earlier snapshots of the same name are other values
        olds = set(ren.values())

        def r(t):
            if t in olds:
                return ('snap', t, 'old')
            if t in ren:
                return ren[t]
            if isinstance(t, tuple):
                return tuple(r(x) if isinstance(x, tuple) else x for x in t)
            return t

        def stale(t):
            return anyterm(t, lambda x: isinstance(x, tuple) and len(x) == 3 and x[0] == 'snap' and x[2] == 'old')
        for e in st.env:
            for k, v in list(e.items()):
                v2 = r(v)
                if v2 is not v:
                    if stale(v2):
                        e[k] = ('o', 'stale', k, repr(why))
                    else:
                        e[k] = v2
        for k, v in list(st.mem.items()):
            v2 = r(v)
            if stale(v2):
                st.mem[k] = ('o', 'stale', repr(k), repr(why))
            else:
                st.mem[k] = v2
        nf = {}
        for t, v in st.facts.items():
            t2 = r(t)
            if not stale(t2):
                nf[t2] = v
        # snapshots nothing refers to any more are dropped with their facts
        st.facts = nf
        if self.c.tagterms:
            st.tag = unsnap(r(st.tag))

    def forget(self, st, term):
        """an SSA value is about to be redefined: facts about its old value go"""
        if term[0] != 'o':
            return
        dead = [t for t in st.facts if mentions(t, term)]
        for t in dead:
            del st.facts[t]
        for e in st.env:
            for k, v in list(e.items()):
                if v != term and mentions(v, term):
                    e[k] = ('o', 'stale', k, repr(term)[:60])
                elif v == term:
                    e[k] = ('o', 'stale', k, repr(term)[:60])
        for k, v in list(st.mem.items()):
            if mentions(v, term):
                st.mem[k] = ('o', 'stale', repr(k)[:80], repr(term)[:60])
        if self.c.tagterms:
            st.tag = subst(st.tag, term, ('o', 'stale', 'tag', repr(term)[:60]))

    # ---- facts

    def known(self, st, t):
        """1/0/None: truth of the condition term"""
        if t[0] == 'c':
            return 1 if t[1] else 0
        a, k, eq = cond(t)
        if a[0] == 'c':
            return int((a[1] == k) == eq)
        f = st.facts.get(a)
        if f is None:
            return None
        if f[0] == 'eq':
            return int((f[1] == k) == eq)
        if k in f[1]:
            return int(not eq)
        return None

    def truth(self, st, t):
        """zero or not: what ('ld', place) is known to hold"""
        m = self.load(st, t[1])
        return self.known(st, m if m[0] != 'icmp' else m)

    def assume(self, st, t, outcome):
        """False if contradictory"""
        k = self.known(st, t)
        if k is not None:
            return bool(k) == bool(outcome)
        a, c, eq = cond(t)
        if not outcome:
            eq = not eq
        if eq:
            st.facts[a] = ('eq', c)
        else:
            f = st.facts.get(a)
            st.facts[a] = ('ne', (f[1] if f else frozenset()) | {c})
            if a[0] in ('ult', 'slt', 'same') and c == 0:
                st.facts[a] = ('eq', 1)
        return True

    # ---- execution

    def run(self, F, args=None, tag=(), mem=()):
        st = State()
        st.mem = dict(mem)
        st.stack = ((F, 0, 0),)
        st.env = ({k: (args[k] if args and k < len(args) else ('arg', k)) for k in range(len(F.dtypes) - 1 if F.dtypes else 0)},)
        if not st.env[0] and F.args:
            st.env = ({k: ('arg', k) for k in range(len(F.args))},)
        st.tag = tag
        self.states = {}
        self.work = []
        self.enter(st, None, 0)
        n = 0
        while self.work:
            key = heapq.heappop(self.work)[2]
            s = self.states[key][0]
            self.states[key][1] = False
            n += 1
            if n > self.limit:
                raise TooBig(F.dem)
            self.block(s.copy())
        self.steps += n
        return n

    def enter(self, st, frm, to):
        """go to block `to` of the innermost frame"""
        F = st.stack[-1][0]
        st.stack = st.stack[:-1] + ((F, to, 0),)
        if frm is not None:
            vals = []
            for I in F.blocks[to]:
                if 'ph' not in I:
                    break
                for p, o in I['ph']:
                    if p == frm:
                        vals.append((I, self.val(st, o)))
                        break
            for I, v in vals:
                me = self.opq(st, I['i'])
                if v != me:
                    self.forget(st, me)
            head = any(L['b'][0] == to or L.get('h') == to for L in F.loops or ())
            for I, v in vals:
                # counters are not unrolled
                st.env[-1][I['i']] = self.opq(st, I['i']) if head and I.get('t') in ('i16', 'i32', 'i64') else v
        live = self.liveness(F)[to]
        phis = {I['i'] for I in F.blocks[to] if 'ph' in I}
        e = {k: v for k, v in st.env[-1].items() if k in live or k in phis}
        st.env = st.env[:-1] + (e,)
        self.push(st)

    def push(self, st):
        c = self.c
        sticky = (c.key(self, st),) + tuple(self.truth(st, t) for t in c.cells)
        F, b, n = st.stack[-1]
        consts = ()
        if n == 0:
            for i, v in st.env[-1].items():
                if v[0] != 'c' and F.defs.get(i, {}).get('t') == 'i1':
                    k = self.known(st, v)
                    if k is not None:
                        st.env[-1][i] = ('c', int(k))
            consts = tuple((I['i'], st.env[-1].get(I['i'])) for I in F.blocks[b] if 'ph' in I and (st.env[-1].get(I['i'], ('u',))[0] == 'c') and I.get('t') in ('i1', 'i8', 'i32'))
            # small constants already in flight stay apart as well
            consts += tuple(sorted((k, v) for k, v in st.env[-1].items() if v[0] == 'c' and F.defs.get(k, {}).get('t') in ('i1', 'i8') and (k, v) not in consts))
        key = (tuple((f.name, b, n) for f, b, n in st.stack), st.tag, sticky, consts)
        old = self.states.get(key)
        if old is None:
            self.states[key] = [st, True]
            self.todo(key)
            return
        o = old[0]
        changed = False
        envs, joins = [], []
        for d, (a, b2) in enumerate(zip(o.env, st.env)):
            e = {}
            for k, v in a.items():
                w = b2.get(k)
                if w is None:
                    changed = True
                    continue
                if v != w:
                    m = self.joined(st, d, k)
                    if v != m:
                        changed = True
                    e[k] = m
                    joins.append(m)
                else:
                    e[k] = v
            envs.append(e)
        mem = {k: v for k, v in o.mem.items() if st.mem.get(k) == v}
        changed |= len(mem) != len(o.mem)
        facts = {}
        for t, v in o.facts.items():
            w = st.facts.get(t)
            if w == v:
                facts[t] = v
            elif w is not None:
                if v[0] == 'ne' and w[0] == 'ne':
                    x = v[1] & w[1]
                    if x:
                        facts[t] = ('ne', x)
                elif v[0] == 'ne' and w[0] == 'eq' and w[1] not in v[1]:
                    facts[t] = v
                elif w[0] == 'ne' and v[0] == 'eq' and v[1] not in w[1]:
                    facts[t] = w
        for t in c.cells:
            # what both sides know about a watched cell survives even if its value does not
            if t[1] not in mem:
                k = self.truth(st, t)
                if k is not None:
                    facts[t] = ('eq', 0) if k == 0 else ('ne', frozenset({0}))
        if joins:
            # facts under the joined name speak of another value
            facts = {t: v for t, v in facts.items() if not any(mentions(t, m) for m in joins)}
        changed |= facts != o.facts
        if changed:
            n2 = State()
            n2.stack, n2.env, n2.mem, n2.facts, n2.tag, n2.hist = o.stack, tuple(envs), mem, facts, o.tag, o.hist
            # facts about joined values do not survive
            old[0] = n2
            if not old[1]:
                old[1] = True
                self.todo(key)

    def joined(self, st, d, k):
        F = st.stack[d][0]
        return ('o', 'v', self.site(st.stack[:d + 1]), F.name if len(F.name) < 40 else F.sname or F.name[:40], k)

    def order(self, F):
        o = self._ord.get(F.name)
        if o is None:
            seen, post = set(), []
            stack = [(0, iter(F.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(F.succs(s))))
                        break
                else:
                    post.append(b)
                    stack.pop()
            # inner loop bodies before what follows the loop
            o = {b: i for i, b in enumerate(reversed(post))}
            self._ord[F.name] = o
        return o

    def todo(self, key):
        self.seq += 1
        fs = self.P.funcs
        heapq.heappush(self.work, (tuple((self.order(fs[f]).get(b, 0), n) for f, b, n in key[0]), self.seq, key))

    def block(self, st):
        F, b, n = st.stack[-1]
        ins = F.blocks[b]
        while True:
            I = ins[n]
            if 'ph' in I:
                n += 1
                continue
            st.stack = st.stack[:-1] + ((F, b, n),)
            o = I['o']
            if o == 'br':
                if not I.get('a'):
                    self.enter(st, b, I['s'][0])
                    return
                t = self.val(st, I['a'][0])
                k = self.known(st, t)
                for out, s in ((1, I['s'][0]), (0, I['s'][1])):
                    if k is not None and k != out:
                        continue
                    x = st.copy()
                    if k is None and not self.assume(x, t, out):
                        continue
                    x.hist = (x.hist + ((F.loc(I), out),))[-12:] if k is None else x.hist
                    r = self.c.branch(self, x, I, t, out)
                    if r is False:
                        continue
                    self.enter(x, b, s)
                return
            if o == 'switch':
                t = self.val(st, I['a'][0])
                if t[0] == 'c':
                    to = next((x for v, x in I['cs'] if v == t[1]), I['d'])
                    self.enter(st, b, to)
                    return
                for v, x in I['cs']:
                    s2 = st.copy()
                    if self.assume(s2, ('icmp', 'eq', t, ('c', v)), 1):
                        s2.hist = (s2.hist + ((F.loc(I), v),))[-12:]
                        self.enter(s2, b, x)
                s2 = st.copy()
                if all(self.assume(s2, ('icmp', 'eq', t, ('c', v)), 0) for v, x in I['cs']):
                    s2.hist = (s2.hist + ((F.loc(I), -1),))[-12:]
                    self.enter(s2, b, I['d'])
                return
            if o == 'ret':
                v = self.val(st, I['a'][0]) if I.get('a') else ('u',)
                if len(st.stack) == 1:
                    st.set('ret', v) if False else None
                    self.c.ret(self, st, v) if self.c.ret.__code__.co_argcount > 3 else self.c.ret(self, st)
                    return
                CF, cb, cn = st.stack[-2]
                J = CF.blocks[cb][cn]
                st.stack = st.stack[:-1]
                st.env = st.env[:-1]
                if 'i' in J:
                    st.env[-1][J['i']] = v
                self.after(st, J)
                return
            if o in ('unreachable', 'resume'):
                self.c.end(self, st)
                return
            if o in ('call', 'invoke'):
                r = self.call(st, I)
                if r == 'enter' or r == 'stop':
                    return
                if o == 'invoke':
                    self.enter(st, b, I['s'][0])
                    return
                n += 1
                continue
            self.simple(st, I)
            n += 1

    def after(self, st, I):
        """continue the innermost frame after its call I"""
        F, b, n = st.stack[-1]
        if I['o'] == 'invoke':
            self.enter(st, b, I['s'][0])
        else:
            st.stack = st.stack[:-1] + ((F, b, n + 1),)
            self.push(st)

    def define(self, st, I, v):
        st.env[-1][I['i']] = v

    def simple(self, st, I):
        o = I['o']
        if o == 'store':
            v, p = self.val(st, I['a'][0]), self.val(st, I['a'][1])
            self.do_store(st, I, p, v)
            return
        if 'i' not in I:
            return
        if o == 'getelementptr':
            v = self.gep(st, I)
        elif o == 'load':
            v = self.load(st, self.val(st, I['a'][0]))
        elif o == 'alloca':
            v = ('al', self.site(st.stack), I['i'])
        elif o == 'icmp':
            v = ('icmp', I['p'], self.val(st, I['a'][0]), self.val(st, I['a'][1]))
            a, b = v[2], v[3]
            if a[0] == 'c' and b[0] == 'c' and I['p'] in ICMP and isinstance(a[1], int) and isinstance(b[1], int):
                v = ('c', int(ICMP[I['p']](a[1], b[1])))
            elif I['p'] in ('eq', 'ne') and a[0] in ('off', 'f') and b[0] in ('off', 'f') and a != b and (a[1] if a[0] == 'off' else a) == (b[1] if b[0] == 'off' else b):
                v = ('c', int(I['p'] == 'ne'))
            elif a == b and I['p'] in ('eq', 'ne', 'ult', 'ugt', 'slt', 'sgt') and a[0] != 'u':
                v = ('c', int(I['p'] == 'eq'))
        elif o == 'select':
            c, a, b = (self.val(st, x) for x in I['a'])
            k = self.known(st, c)
            v = a if k == 1 else b if k == 0 else ('select', c, a, b)
        elif o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            v = self.val(st, I['a'][0])
        elif o in ('trunc', 'zext', 'sext'):
            x = self.val(st, I['a'][0])
            v = x if x[0] == 'c' and (o != 'sext' or 0 <= x[1] < 2**31 and x[1] > 1 or x[1] == 0) else (o, x)
            if o == 'zext' and x[0] == 'trunc' or o == 'trunc' and x[0] == 'zext':
                v = x[1]
        elif o in ('add', 'sub', 'mul', 'xor', 'or', 'and', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            v = (o,) + tuple(self.val(st, x) for x in I['a'])
            if v[1][0] == 'c' and v[2][0] == 'c' and o in ('add', 'sub', 'xor', 'or', 'and'):
                a, b = v[1][1], v[2][1]
                v = ('c', {'add': a + b, 'sub': a - b, 'xor': a ^ b, 'or': a | b, 'and': a & b}[o])
            elif o in ('add', 'sub') and v[2][0] == 'c' and v[1][0] == 'add' and v[1][2][0] == 'c':
                d = v[1][2][1] + (v[2][1] if o == 'add' else -v[2][1])
                v = ('add', v[1][1], ('c', d)) if d else v[1][1]
            elif o == 'sub' and v[2][0] == 'c':
                v = ('add', v[1], ('c', -v[2][1]))
        elif o == 'atomicrmw':
            p = self.val(st, I['a'][0])
            old = self.load(st, p)
            v = self.rmw(st, I, p, I.get('p', 'add'), self.val(st, I['a'][1]))
        elif o in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            v = (o, self.val(st, I['a'][0]))
        elif o == 'extractvalue':
            v = ('ev', self.val(st, I['a'][0]), repr(I.get('x', I.get('ix', ''))))
        else:
            v = self.opq(st, I['i'])
            self.forget(st, v)
        if v[0] != 'c' and depth(v) > MAXDEPTH:
            v = self.opq(st, I['i'], 'deep')
            self.forget(st, v)
        st.env[-1][I['i']] = v

    def rmw(self, st, I, p, op, d):
        """returns the old value; memory gets the new one"""
        old = self.load(st, p)
        new = ('add', old, d) if op == 'add' else ('add', old, ('c', -d[1])) if op == 'sub' and d[0] == 'c' else ('sub', old, d) if op == 'sub' else self.opq(st, I.get('i', I['_n']), 'rmw')
        if new[0] == 'add' and new[2][0] == 'c' and new[1][0] == 'add' and new[1][2][0] == 'c':
            k = new[1][2][1] + new[2][1]
            new = ('add', new[1][1], ('c', k)) if k else new[1][1]
        if new[0] == 'add' and new[1][0] == 'c' and new[2][0] == 'c':
            new = ('c', new[1][1] + new[2][1])
        tok = ('o', 'old', 0, '', 0)
        st.env[-1]['$old'], st.env[-1]['$new'] = old, new
        self.do_store(st, I, p, new, ssa=('$old', '$new'))
        old = st.env[-1].pop('$old')
        st.env[-1].pop('$new')
        return old

    def elements(self, st, base):
        for k in st.mem:
            if k[0] in ('idx', 'off') and k[1] == base or k == base:
                yield k

    def do_store(self, st, I, p, v, ssa=None):
        self.c.prestore(self, st, I, p, v, self.load(st, p))
        st.env[-1]['$v'] = v
        F, b, n = st.stack[-1]
        if p[0] in ('idx', 'off') and any(x[0] == 'idx' or p[0] == 'idx' for x in self.elements(st, p[1])):
            # elements of one array that may be the same one
            hit = lambda x: x == p or isinstance(x, tuple) and len(x) > 2 and x[0] in ('idx', 'off') and x[1] == p[1] and (x[0] == 'idx' or p[0] == 'idx')
        else:
            hit = lambda x: x == p
        self.kill(st, hit, (self.site(st.stack), b, n, p[3] if p[0] == 'f' and len(p) > 3 else ''))
        v = st.env[-1].pop('$v')
        if depth(v) > MAXDEPTH:
            v = ('o', 'deep', self.site(st.stack), F.name[:40], 's%d.%d' % (b, n))
            self.forget(st, v)
        st.mem[p] = v
        self.c.store(self, st, I, p, v)

    # ---- calls

    def call(self, st, I):
        F, b, n = st.stack[-1]
        name, dem = self.callee(F, I)
        args = [self.val(st, a) for a in I.get('a', ())]
        if name is None:
            ft = self.val(st, I['f']) if 'f' in I else ('u',)
            r = self.c.call(self, st, I, None, None, [ft] + args)
            if r == 'stop':
                self.c.end(self, st)
                return 'stop'
            if r is None:
                self.havoc_api(st)
                self.havoc_args(st, args)
                r = ('u',)
            self.result(st, I, r)
            return
        if name.startswith('llvm.'):
            if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.stacksave', 'llvm.stackrestore')):
                return
            if name.startswith('llvm.threadlocal.address'):
                self.result(st, I, args[0])
                return
            if name.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                self.c.block(self, st, I, name.split('.')[1], args)
                self.havoc_args(st, args[:1])
                return
            self.result(st, I, ('call', name.split('.')[1]) + tuple(args) if name.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs')) else ('u',))
            return
        sn = short_name(dem)
        r = self.c.call(self, st, I, dem, sn, args)
        if r == 'stop':
            self.c.end(self, st)
            return 'stop'
        if r is None and self.c.models(sn):
            r = self.model(st, I, dem, sn, args)
        if r is not None:
            self.result(st, I, r)
            return
        G = self.P.funcs.get(name)
        if G is not None and (self.follow(st, G, sn) or self.c.follow_args(args) and (G.file or '').startswith('/repo/') and not any(f.name == G.name for f, b, n in st.stack)):
            st.stack = st.stack + ((G, 0, 0),)
            st.env = st.env + ({k: v for k, v in enumerate(args)},)
            self.push(st)
            return 'enter'
        if G is not None and (G.file or '').startswith('/repo/'):
            m = self.mods().get(name, set())
            if m:
                self.kill(st, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and (x[2], x[3]) in m, (self.site(st.stack), b, n))
            self.havoc_args(st, [a for a in args if a[0] == 'al'])
            if self.pure(dem) and not m:
                self.result(st, I, ('call', sn) + tuple(args))
            else:
                self.result(st, I, ('u',))
            return
        if self.pure(dem):
            self.result(st, I, ('call', sn) + tuple(self.byval(st, a) for a in args))
            return
        # destructors of locals leave nothing behind
        self.havoc_args(st, args)
        self.result(st, I, ('u',))

    def follow(self, st, G, sn):
        if sn in self.c.named or sn.startswith('SemiStaticVector::') or any(f.name == G.name for f, b, n in st.stack) or len(st.stack) > 6:
            return False
        if G.name in self.wants() or self.c.follows(G, sn):
            return True
        # tiny accessors
        return (G.file or '').startswith('/repo/') and len(G.blocks) <= 8 and sum(map(len, G.blocks)) <= 40 and not G.loops

    def byval(self, st, a):
        """local iterators and the like are what they hold"""
        if a[0] == 'al' and a in st.mem:
            return ('at', st.mem[a])
        return a

    def result(self, st, I, r):
        if 'i' not in I:
            return
        if r == ('u',):
            r = self.opq(st, I['i'])
            self.forget(st, r)
        elif depth(r) > MAXDEPTH:
            r = self.opq(st, I['i'], 'deep')
            self.forget(st, r)
        st.env[-1][I['i']] = r

    def havoc_args(self, st, args):
        F, b, n = st.stack[-1]
        ps = [a for a in args if a[0] in ('f', 'al', 'off', 'idx', 'call', 'ld', 'o')]
        if not ps:
            return
        al = [p for p in ps if p[0] in ('al', 'f', 'off', 'idx')]
        if al:
            self.kill(st, lambda x: any(x == p for p in al), (self.site(st.stack), b, n))

    def havoc_api(self, st):
        F, b, n = st.stack[-1]
        self.mods()
        m = self._api
        self.kill(st, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and (x[2], x[3]) in m, (self.site(st.stack), b, n))

    def model(self, st, I, dem, sn, args):
        """library classes with known semantics"""
        if sn.startswith('vs_intrusive_ptr::'):
            m = sn.split('::')[1]
            if m in ('get', 'operator->', 'operator*', 'operator bool') or m.startswith('operator bool'):
                return self.load(st, args[0])
            if m == 'vs_intrusive_ptr':
                if len(args) == 1:
                    self.do_store(st, I, args[0], C0)
                elif '&&' in dem:
                    v = self.load(st, args[1])
                    self.do_store(st, I, args[0], v)
                    st.env[-1]['$k'] = args[0]
                    self.do_store(st, I, args[1], C0)
                    st.env[-1].pop('$k')
                elif re.search(r'\(vs_intrusive_ptr<.*> const&\)', dem):
                    self.do_store(st, I, args[0], self.load(st, args[1]))
                else:
                    self.do_store(st, I, args[0], args[1])
                return ('u0',)
            if m == 'operator=':
                src = self.load(st, args[1])
                self.do_store(st, I, args[0], src)
                if '&&' in dem:
                    self.do_store(st, I, args[1], C0)
                return args[0]
            if m == '~vs_intrusive_ptr':
                st.mem.pop(args[0], None)
                return ('u0',)
            if m == 'reset':
                self.do_store(st, I, args[0], C0)
                return ('u0',)
        if sn.startswith(('std::atomic::', 'std::__atomic_base::', 'std::atomic_bool')):
            m = sn.split('::', 2)[2]
            if m.startswith('operator') and dem.endswith('const') or m == 'load':
                return self.load(st, args[0])
            if m in ('store', 'operator='):
                self.do_store(st, I, args[0], args[1])
                return args[1]
            if m in ('operator++', 'operator--'):
                one = ('c', 1)
                post = '(int)' in dem
                old = self.rmw(st, I, args[0], 'add' if m == 'operator++' else 'sub', one)
                return old if post else self.load(st, args[0])
            if m in ('fetch_add', 'fetch_sub'):
                return self.rmw(st, I, args[0], m[6:], args[1])
            if m in ('operator+=', 'operator-='):
                self.rmw(st, I, args[0], 'add' if '+' in m else 'sub', args[1])
                return self.load(st, args[0])
            if m == 'exchange':
                old = self.load(st, args[0])
                st.env[-1]['$x'] = old
                self.do_store(st, I, args[0], args[1])
                return st.env[-1].pop('$x')
        if sn in ('std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::as_const'):
            return args[0]
        return None


def unsnap(t):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'snap' and t[2] == 'old':
            return ('o', 'stale', 'tag', repr(depthlimit(t[1], 3)))
        return tuple(unsnap(x) if isinstance(x, tuple) else x for x in t)
    return t


def depthlimit(t, n=6):
    if not isinstance(t, tuple):
        return t
    if n == 0:
        return ('..',)
    return tuple(depthlimit(x, n - 1) for x in t)
