"""The Python module (src/cython/vapoursynth.pyx) as Cython compiles it: call graph, API calls, interpreter lock states."""
import json, re
import build, core
from ir import Module, succ_of

PY = re.compile(r'^_?Py[A-Z_]\w*$|^__Pyx_\w+$')
HOLDS_ANYWAY = {'PyGILState_Ensure', 'PyGILState_Release', 'PyEval_SaveThread', 'PyEval_RestoreThread', 'Py_IsInitialized', 'PyGILState_Check', 'PyThreadState_Get'}


def short(n):
    """__pyx_f_11vapoursynth_7RawNode_ensure_valid -> RawNode_ensure_valid"""
    m = re.match(r'(?:__pyx_\w+?_)?11vapoursynth_(.*)', re.sub(r'^__pyx_\w*?_11', '11', n))
    n = m.group(1) if m else n
    return re.sub(r'(?<![A-Za-z])\d+(?=[A-Za-z_])', '', n)


class Cy:
    def __init__(self):
        src = build.cython()
        self.M = Module(src)
        with open(src + '.names') as f:
            names = json.load(f)
        base = self.M.globals.get('vsir_string_tab', {}).get('init')
        self.names = {base[1] + 8 * int(k): v for k, v in names.items()} if isinstance(base, list) and base[0] == 'i' else {}
        self.funcs = self.M.funcs
        self.vtab = {}          # (vtab struct, offset) -> {function}
        self.callbacks = {}     # function -> [(F, I)] handed out as C callbacks
        self.tables = set()
        for F in self.funcs.values():
            F.sname = short(F.dem.split('(')[0])
        self.link()

    def repo(self):
        return [F for F in self.funcs.values() if (F.file or '').startswith('/repo/')]

    def link(self):
        M = self.M
        loads = {}
        stores = []
        for F in self.funcs.values():
            for I in F.insts():
                if I['o'] == 'store':
                    v, p = I['a']
                    g, off = (p[1], 0) if isinstance(p, list) and p[0] == 'g' else (p[1][1], p[2]) if isinstance(p, list) and p[0] == 'cg' else (None, 0)
                    if g and 'vtable' in g:
                        if isinstance(v, list) and v[0] == 'g' and v[1] in self.funcs:
                            self.vtab.setdefault((self.M.globals[g].get('ty') or g, off), set()).add(v[1])
                            loads.setdefault(g, {})[off] = v[1]
                elif I['o'] in ('call', 'invoke'):
                    for x in I.get('a', ()):
                        if isinstance(x, list) and x[0] == 'g' and x[1] in self.funcs:
                            self.callbacks.setdefault(x[1], []).append((F, I))

        def walk(i):
            if isinstance(i, list):
                if len(i) == 2 and i[0] == 'g' and i[1] in self.funcs:
                    self.tables.add(i[1])
                    return
                for x in i:
                    walk(x)
        for g in M.globals.values():
            walk(g.get('init'))

    def slot(self, F, I):
        """(table, slot) of an indirect call through a structure of function pointers"""
        f = I.get('f')
        if not isinstance(f, int):
            return None
        D = F.defs.get(f)
        if D is None or D['o'] != 'load':
            return None
        x = core.field_of(F, D['a'][0])
        if x is None:
            # the first slot is the address itself
            return self.first(F, D)
        return x[0], x[1]

    def first(self, F, D):
        B = F.defs.get(D['a'][0]) if isinstance(D['a'][0], int) else None
        if B is None or B['o'] != 'load':
            return None
        x = core.field_of(F, B['a'][0])
        t = None
        if x:
            t = self.fieldtype(F, B['a'][0])
        elif isinstance(B['a'][0], list) and B['a'][0][0] == 'g':
            t = self.M.globals.get(B['a'][0][1], {}).get('ty')
        else:
            o = B['a'][0]
            t = self.otype(F, o)
            if t and not t.startswith('__pyx_vtab'):
                f = self.M.field(t, 0)
                t = f[1] if f else None
        if not t:
            return None
        t = re.sub(r'^const |\bstruct |[ *]|const', '', t)
        f = self.M.field(t, 0)
        return (t, f[0]) if f else None

    def fieldtype(self, F, o):
        base, ch = core.gepchain(F, o)
        if ch and ch[0][1] is not None:
            f = self.M.field(ch[0][0], ch[0][1])
            return re.sub(r'^const |[ *]', '', f[1]) if f else None

    def otype(self, F, o):
        if isinstance(o, int) and o < len(F.args) and o + 1 < len(F.dtypes):
            return re.sub(r'^const |[ *]', '', F.dtypes[o + 1])
        D = F.defs.get(o) if isinstance(o, int) else None
        if D is not None and D['o'] == 'load':
            return self.fieldtype(F, D['a'][0])
        return None

    def targets(self, F, I):
        """functions of the module a call may reach"""
        f = I.get('f')
        if isinstance(f, list):
            return [f[1]] if f[0] == 'g' and f[1] in self.funcs else []
        s = self.slot(F, I)
        if s and 'vtabstruct' in s[0]:
            out = set()
            nm = s[1].split('.')[-1]
            for (t, off), fs in self.vtab.items():
                x = self.M.field(t, off)
                if x and x[0].split('.')[-1] == nm and s[0] in self.bases(t):
                    out |= fs
            return sorted(out)
        return []

    def bases(self, t):
        out = []
        while t and t not in out:
            out.append(t)
            fl = self.M.types.get(t, {}).get('fields')
            t = fl[0][4] if fl and fl[0][0] == '__pyx_base' else None
        return out

    def api(self, F, I):
        """name of the API function an indirect call reaches"""
        s = self.slot(F, I)
        return s[1] if s and s[0] == 'VSAPI' else None

    def string(self, F, o):
        """the interned name a value is"""
        D = F.defs.get(o) if isinstance(o, int) else None
        if D is not None and D['o'] == 'load' and isinstance(D['a'][0], list) and D['a'][0][0] == 'cg' and 'mstate_global' in str(D['a'][0][1]):
            return self.names.get(D['a'][0][2])
        return None

    def name(self, I):
        f = I.get('f')
        return self.M.dem(f[1]).split('(')[0] if isinstance(f, list) and f[0] == 'g' else None


class Gil:
    """held: may the interpreter lock be held / not be held before each instruction.  A state is the stack of what was taken and given back;
    'H' and 'N' are what the caller had."""

    def __init__(self, C):
        self.C = C
        self.entry = {}         # function -> {'H', 'N'}
        self.at = {}            # (function, block, n) -> {state}
        self.exits = {}         # function -> {(stack, instruction)}
        work = set()

        def add(n, s):
            if s not in self.entry.setdefault(n, set()):
                self.entry[n].add(s)
                work.add(n)
        for F in C.funcs.values():
            n = F.name
            if n in C.callbacks and F.dtypes[0] != '_object*' and not (len(F.dtypes) > 1 and F.dtypes[1] == '_object*'):
                add(n, 'N')
            elif F.ext and (F.file or '').startswith('/repo/') and not F.sname.startswith('PyInit'):
                add(n, 'N')
            elif n in C.tables or n in C.callbacks or F.sname.startswith('PyInit'):
                add(n, 'H')
        # what nobody is seen to call comes from a slot or table filled at run time
        called = set()
        for F in C.funcs.values():
            for I in F.insts():
                if I['o'] in ('call', 'invoke'):
                    called |= set(C.targets(F, I))
        for F in C.repo():
            if F.name not in called and F.name not in self.entry:
                add(F.name, 'H')
        while work:
            n = work.pop()
            for m, s in self.run(C.funcs[n]):
                add(m, s)

    def run(self, F):
        C = self.C
        out = set()
        seen = {}
        todo = [(0, (e,)) for e in self.entry[F.name]]
        self.exits[F.name] = set()
        while todo:
            b, st = todo.pop()
            if st in seen.setdefault(b, set()):
                continue
            seen[b].add(st)
            for k, I in enumerate(F.blocks[b]):
                self.at.setdefault((F.name, b, k), set()).add(st)
                if I['o'] in ('call', 'invoke'):
                    nm = C.name(I)
                    if nm in ('PyEval_SaveThread', 'PyEval_ReleaseThread'):
                        st = st + ('N',)
                    elif nm == 'PyGILState_Ensure':
                        st = st + ('H',)
                    elif nm in ('PyEval_RestoreThread', 'PyGILState_Release'):
                        st = st[:-1] if len(st) > 1 else ('?',)
                    else:
                        for t in C.targets(F, I):
                            if st[-1] in 'HN':
                                out.add((t, st[-1]))
                if I['o'] == 'ret':
                    self.exits[F.name].add((st, k, b))
            if len(st) < 8:
                for s in F.succs(b):
                    todo.append((s, st))
        return out


NONE = ['g', '_Py_NoneStruct']


class Valid:
    """which objects are known to hold a live pointer: forward must-facts ('ld', object, field) 'is neither NULL nor None'"""

    def __init__(self, C):
        self.C = C
        self.K = {}
        self.only = {}
        self.inn = {}           # function -> {block: facts}
        self.entry = {}
        self.summary = {}
        self.true = {}          # what holds when the function returns something other than zero
        callers = {}
        for F in C.funcs.values():
            for I in F.insts():
                if I['o'] in ('call', 'invoke'):
                    for t in C.targets(F, I):
                        callers.setdefault(t, []).append((F, I))
        for F in C.funcs.values():
            F.defs
        self.roots = {n for n in C.funcs if n in C.tables or n in C.callbacks or n not in callers or C.funcs[n].ext}
        todo = [F for F in C.repo()]
        for F in todo:
            self.entry[F.name] = frozenset() if F.name in self.roots else None
        for rnd in range(8):
            changed = False
            for F in todo:
                if self.entry[F.name] is None and any(self.entry.get(G.name) is not None for G, I in callers.get(F.name, ())):
                    pass
                s = self.solve(F)
                if self.summary.get(F.name, 0) != s:
                    self.summary[F.name] = s
                    changed = True
            for F in todo:
                if F.name in self.roots:
                    continue
                e = None
                for G, I in callers.get(F.name, ()):
                    f = self.before(G, I)
                    if f is None:
                        continue
                    x = set()
                    for k, o in enumerate(I.get('a', ())):
                        kk = self.key(G, o)
                        for fact in f:
                            r = self.rebase(fact, kk, ('a', k))
                            if r:
                                x.add(r)
                    e = x if e is None else e & x
                e = frozenset(e or ())
                if e != self.entry[F.name]:
                    self.entry[F.name] = e
                    changed = True
            if not changed:
                break

    @staticmethod
    def rebase(fact, old, new):
        """the fact with one object named differently"""
        if fact == old:
            return new
        if fact[0] == 'ld':
            r = Valid.rebase(fact[1], old, new)
            return ('ld', r, fact[2]) if r else None
        return None

    def key(self, F, o, depth=0):
        if not isinstance(o, int):
            return ('c', str(o))
        k = (F.name, o)
        if k in self.K:
            return self.K[k]
        self.K[k] = ('v', o)
        self.K[k] = r = self._key(F, o, depth)
        return r

    def _key(self, F, o, depth):
        if o < len(F.args):
            return ('a', o)
        D = F.defs.get(o)
        if D is None or depth > 12:
            return ('v', o)
        if D['o'] == 'phi' or 'ph' in D:
            ks = {self.key(F, x, depth + 1) for p, x in D['ph']}
            return ks.pop() if len(ks) == 1 else ('v', o)
        if D['o'] in ('freeze', 'bitcast'):
            return self.key(F, D['a'][0], depth + 1)
        if D['o'] == 'load':
            x = core.field_of(F, D['a'][0])
            v = self.spilled(F, D['a'][0])
            if v is not None:
                return self.key(F, v, depth + 1)
            if x:
                return ('ld', self.key(F, x[2], depth + 1), x[1].split('.')[-1])
        return ('v', o)

    def bare(self, F, c):
        """(value, polarity) a condition comes down to"""
        pol = True
        for _ in range(8):
            D = F.defs.get(c) if isinstance(c, int) else None
            if D is None:
                break
            if D['o'] in ('zext', 'sext', 'trunc', 'freeze'):
                c = D['a'][0]
            elif D['o'] == 'xor' and isinstance(D['a'][1], list) and D['a'][1][0] == 'i' and D['a'][1][1] in (1, -1):
                c, pol = D['a'][0], not pol
            elif D['o'] == 'icmp' and D['p'] in ('eq', 'ne') and isinstance(D['a'][1], list) and D['a'][1][0] == 'i' and D['a'][1][1] == 0:
                c, pol = D['a'][0], pol == (D['p'] == 'ne')
            else:
                break
        return c, pol

    def settled(self, F, b, x):
        """what a condition is known to be when block b is left, from the branches that lead to it"""
        v, pv = self.bare(F, x)
        for _ in range(6):
            ps = set(F.preds(b))
            if len(ps) != 1:
                return None
            p = ps.pop()
            t = F.blocks[p][-1]
            if t['o'] == 'br' and t.get('a') and len(set(F.succs(p))) == 2:
                c, pc = self.bare(F, t['a'][0])
                if c == v:
                    return ((b == F.succs(p)[0]) == pc) == pv
            b = p
        return None

    def spilled(self, F, p):
        """the only thing ever stored in a local variable"""
        A = F.defs.get(p) if isinstance(p, int) else None
        if A is None or A['o'] != 'alloca':
            return None
        if F.name not in self.only:
            st = self.only[F.name] = {}
            for I in F.insts():
                if I['o'] == 'store' and isinstance(I['a'][1], int):
                    st.setdefault(I['a'][1], []).append(I['a'][0])
                elif I['o'] in ('call', 'invoke') and 'CYTHON_UNUSED' not in (self.C.name(I) or ''):
                    for x in I.get('a', ()):
                        if isinstance(x, int):
                            st.setdefault(x, []).append(None)
        vs = self.only[F.name].get(p, [])
        return vs[0] if len(vs) == 1 else None

    def implied(self, F, c, pol, depth=0):
        """facts that hold when the condition is pol"""
        if depth > 10:
            return set()
        if not isinstance(c, int):
            return set()
        D = F.defs.get(c)
        if D is None:
            return set()
        o = D['o']
        if o in ('zext', 'trunc', 'freeze', 'sext'):
            return self.implied(F, D['a'][0], pol, depth + 1)
        if o == 'xor' and isinstance(D['a'][1], list) and D['a'][1][0] == 'i' and D['a'][1][1] in (1, -1) and D.get('t') in (None, 'i1'):
            return self.implied(F, D['a'][0], not pol, depth + 1)
        if o == 'icmp':
            a, b = D['a']
            if isinstance(a, list) and not isinstance(b, list):
                a, b = b, a
            if isinstance(b, list) and (b[0] == 'n' or b[0] == 'i' and b[1] == 0 or b[:2] == NONE):
                eq = D['p'] == 'eq'
                if D['p'] not in ('eq', 'ne'):
                    return set()
                if isinstance(b, list) and b[0] == 'i':
                    return self.implied(F, a, pol != eq, depth + 1)
                if pol != eq:
                    return {self.key(F, a)}
                return set()
            return set()
        if o in ('call', 'invoke') and pol:
            s = None
            for t in self.C.targets(F, D):
                x = self.true.get(t, frozenset())
                if x is not None:
                    s = x if s is None else s & x
            return {self.rebase(x, self.root(x), self.key(F, D['a'][self.root(x)[1]])) for x in s or () if self.root(x)[1] < len(D['a'])}
        if 'ph' in D:
            out = None
            for p, x in D['ph']:
                if isinstance(x, list) and x[0] == 'i' and (x[1] != 0) != pol:
                    continue
                if isinstance(x, int) and self.settled(F, p, x) == (not pol):
                    continue
                s = self.implied(F, x, pol, depth + 1) if isinstance(x, int) else set()
                s = s | self.edge(F, p, D['_b'], self.out.get(p, frozenset()))
                out = s if out is None else out & s
            return out or set()
        return set()

    def edge(self, F, b, s, facts):
        t = F.blocks[b][-1]
        out = set(facts)
        if t['o'] == 'br' and t.get('a') and len(F.succs(b)) == 2:
            x, y = F.succs(b)
            if x != y:
                out |= self.implied(F, t['a'][0], s == x)
        return out

    def solve(self, F):
        ent = self.entry[F.name]
        inn = {0: frozenset(ent or ())}
        self.out = {}
        work = [0]
        n = 0
        again = False
        while n < 20000:
            if not work:        # what a phi implies depends on the state of its predecessors
                if not again:
                    break
                again = False
                work = sorted(inn)
            n += 1
            b = work.pop(0)
            f = set(inn[b])
            for k, I in enumerate(F.blocks[b]):
                self.step(F, I, f)
            self.out[b] = frozenset(f)
            for s in F.succs(b):
                x = frozenset(self.edge(F, b, s, f))
                y = x if s not in inn else inn[s] & x
                if s not in inn or y != inn[s]:
                    inn[s] = y
                    again = True
                    if s not in work:
                        work.append(s)
        self.inn[F.name] = inn
        # what holds whenever the function returns without an error
        res = tru = None
        for b, blk in enumerate(F.blocks):
            t = blk[-1]
            if t['o'] != 'ret' or b not in inn:
                continue
            v = t['a'][0] if t.get('a') else None
            for x, facts in self.returns(F, b, v, set()):
                res = facts if res is None else res & facts
                if not (isinstance(x, list) and x[0] == 'i' and x[1] == 0):
                    tru = facts if tru is None else tru & facts
        # None: it only raises
        self.true[F.name] = None if tru is None else frozenset(x for x in tru if self.root(x)[0] == 'a')
        return None if res is None else frozenset(x for x in res if self.root(x)[0] == 'a')

    def returns(self, F, b, v, seen):
        D = F.defs.get(v) if isinstance(v, int) else None
        if isinstance(v, list) and (v[0] == 'n' or v[0] == 'i' and v[1] < 0):
            return
        if D is not None and 'ph' in D and v not in seen:
            seen.add(v)
            for p, x in D['ph']:
                if isinstance(x, list) and (x[0] == 'n' or x[0] == 'i' and x[1] < 0):
                    continue
                if p not in self.out:
                    continue
                if isinstance(x, int) and 'ph' in (F.defs.get(x) or {}):
                    yield from self.returns(F, p, x, seen)
                else:
                    yield x, set(self.edge(F, p, D['_b'], self.out[p]))
        elif b in self.out:
            yield v, set(self.out[b])

    @staticmethod
    def root(k):
        while k[0] == 'ld':
            k = k[1]
        return k

    def step(self, F, I, f):
        if I['o'] in ('call', 'invoke'):
            ts = self.C.targets(F, I)
            if ts:
                s = None
                for t in ts:
                    x = self.summary.get(t, frozenset())
                    if x is not None:
                        s = x if s is None else s & x
                for fact in s or ():
                    r = self.root(fact)
                    if r[1] < len(I.get('a', ())):
                        f.add(self.rebase(fact, r, self.key(F, I['a'][r[1]])))
        elif I['o'] == 'store':
            v, p = I['a']
            x = core.field_of(F, p)
            if x:
                k = ('ld', self.key(F, x[2]), x[1].split('.')[-1])
                for y in [y for y in f if self.rebase(y, k, k)]:
                    f.discard(y)
                if isinstance(v, int):
                    f.add(k)        # what is stored is checked where it comes from

    def before(self, F, I):
        inn = self.inn.get(F.name, {})
        if I['_b'] not in inn:
            return None
        f = set(inn[I['_b']])
        for k, J in enumerate(F.blocks[I['_b']]):
            if J is I:
                return f
            self.step(F, J, f)
        return f
