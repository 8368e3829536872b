"""Which extension type the objects of the Python module are known to have: what is declared is checked where it comes from, what is not must have been tested."""
import re
import core, cy, cyflow

OBJ = re.compile(r'^(?:const )?(?:struct[. ])?__pyx_obj_\d+vapoursynth_(\w+?)\s*\*?$')


def cls(t):
    m = OBJ.match(t or '')
    return m.group(1) if m and not m.group(1).startswith('__pyx_') else None


# what the module iterates over itself, knowing what it yields
YIELDS = ('frames', 'plugins', 'functions')


class Types:
    def __init__(self, C, V):
        self.C, self.V = C, V
        self.sub = {}
        for t in C.M.types:
            n = cls(t)
            if n:
                self.sub[n] = [cls(b) for b in C.bases(t) if cls(b)]
        self.users = {}         # (function, argument) -> class, of pointers that come back from the core
        self.memo = {}
        self.state = {}
        self.true = {}

    def key(self, F, o):
        k = self.V.key(F, o)
        if k[0] == 'v':
            D = F.defs.get(o)
            if D is not None and D['o'] == 'load' and isinstance(D['a'][0], list) and D['a'][0][0] == 'g':
                return ('g', D['a'][0][1])
        return k

    def isa(self, a, b):
        return a == b or b in self.sub.get(a, ())

    def ptype(self, F, o):
        """class whose type object this is"""
        D = F.defs.get(o) if isinstance(o, int) else None
        if D is not None and D['o'] == 'load' and isinstance(D['a'][0], list) and D['a'][0][0] == 'cg' and 'mstate_global' in str(D['a'][0][1]):
            n = self.names().get(D['a'][0][2])
            return n
        return None

    def names(self):
        if 'n' not in self.memo:
            out = {}
            for F in self.C.funcs.values():
                if not F.sname.startswith('__Pyx_modinit'):
                    continue
                made = {}
                for I in F.insts():
                    if I['o'] in ('call', 'invoke') and 'i' in I:
                        m = next((m for m in (re.search(r'__pyx_type_\d+vapoursynth_(\w+?)_spec$', str(x[1])) for x in I.get('a', ()) if isinstance(x, list) and x[0] == 'g') if m), None)
                        if m:
                            made[I['i']] = m.group(1)
                    elif I['o'] == 'store' and I['a'][0] in made if isinstance(I.get('a', [None])[0], int) else False:
                        P = F.defs.get(I['a'][1]) if isinstance(I['a'][1], int) else None
                        if P is not None and P['o'] == 'getelementptr':
                            out[P.get('off')] = made[I['a'][0]]
            self.memo['n'] = out
        return self.memo['n']

    def typeof(self, F, o):
        """value whose type this is"""
        D = F.defs.get(o) if isinstance(o, int) else None
        if D is not None and D['o'] == 'load':
            B = F.defs.get(D['a'][0]) if isinstance(D['a'][0], int) else None
            if B is not None and B['o'] == 'getelementptr' and B.get('off') == 8:
                return B['a'][0]
        if D is not None and D['o'] in ('call', 'invoke') and self.C.name(D) in ('Py_TYPE', '_Py_TYPE', 'PyObject_Type'):
            return D['a'][0]
        return None

    def static(self, F, o):
        """class a value has by declaration"""
        if not isinstance(o, int):
            return '*' if isinstance(o, list) and (o[0] == 'n' or o[:2] == cy.NONE) else None
        if o < len(F.args):
            t = cls(F.dtypes[o + 1]) if o + 1 < len(F.dtypes) else None
            if t is None and o == 0:
                t = self.selfof(F)
            return t or self.users.get((F.name, o))
        D = F.defs.get(o)
        if D is None:
            return None
        if D['o'] == 'load':
            return cls(self.C.fieldtype(F, D['a'][0]))
        if D['o'] in ('call', 'invoke'):
            n = self.C.name(D) or ''
            if n.endswith('NewRef'):
                return self.static(F, D['a'][0])
            m = re.search(r'_*pyx_tp_new(?:_vectorcall)?_\d+vapoursynth_(\w+)$', n)
            if m:
                return m.group(1)
            if re.match(r'_*(Pyx_)?_?PyObject_(Call|Fast|Vectorcall(?!Method))', n) and D.get('a'):
                t = self.ptype(F, D['a'][0])
                if t:
                    return t
            ts = {cls(self.C.funcs[t].dtypes[0]) if self.C.funcs[t].dtypes else None for t in self.C.targets(F, D)}
            if len(ts) == 1:
                return ts.pop()
        if D['o'] in ('bitcast', 'freeze'):
            return self.static(F, D['a'][0])
        return None

    def selfof(self, F):
        """class whose table a method is in"""
        for m in re.finditer(r'vapoursynth_(\d+)', F.name):
            n = F.name[m.end():m.end() + int(m.group(1))]
            if n in self.sub and re.search(r'__pyx_p[wf]_|__pyx_f_', F.name):
                return n
        m = re.search(r'__pyx_(?:tp_\w+?|getprop|setprop|sq_\w+?|mp_\w+?|nb_\w+?|specialmethod)_\d+vapoursynth_(\w+)', F.name)
        if m:
            return max((n for n in self.sub if m.group(1) == n or m.group(1).startswith(n + '_') or m.group(1).startswith(n)), key=len, default=None)
        return None

    def leaves(self, F, o, seen=None):
        seen = seen if seen is not None else set()
        if not isinstance(o, int) or o in seen:
            return set()
        seen.add(o)
        D = F.defs.get(o)
        if D is not None and 'ph' in D:
            return set().union(*[self.leaves(F, x, seen) for p, x in D['ph']])
        if D is not None and D['o'] in ('call', 'invoke') and re.search(r'NewRef$', self.C.name(D) or ''):
            return self.leaves(F, D['a'][0], seen)
        return {o}

    def given(self, F, o):
        """why the class of a value is not asked for: the language or another part of the module sees to it"""
        ls = self.leaves(F, o)
        if re.search(r'___r?(mul|add|sub|floordiv|truediv|mod|pow|lshift|rshift|and|or|xor)__$', F.sname) and ls and all(x < len(F.args) for x in ls):
            return 'operator'
        if not any(self.C.string(F, x) in YIELDS for I in F.insts() if I['o'] in ('call', 'invoke') for x in I.get('a', ())):
            return None
        for x in ls:
            D = F.defs.get(x)
            if D is None or not (D['o'] == 'load' or D['o'] in ('call', 'invoke') and (self.C.name(D) is None and len(D.get('a', ())) == 1 or re.search(r'Iter_?Next|GetItem', self.C.name(D) or ''))):
                return None
        return 'iteration' if ls else None

    # facts: ('is', key, class)
    def implied(self, F, c, pol, depth=0):
        if not isinstance(c, int) or depth > 8:
            return set()
        D = F.defs.get(c)
        if D is None:
            return set()
        o = D['o']
        if o in ('zext', 'trunc', 'freeze', 'sext'):
            return self.implied(F, D['a'][0], pol, depth + 1)
        if o == 'xor' and isinstance(D['a'][1], list) and D['a'][1][0] == 'i' and D['a'][1][1] in (1, -1):
            return self.implied(F, D['a'][0], not pol, depth + 1)
        if o in ('and', 'or') and D.get('t') == 'i1':
            x, y = (self.implied(F, z, pol, depth + 1) for z in D['a'])
            return x | y if (o == 'and') == pol else x & y
        if o == 'select':
            c0, x, y = D['a']
            if isinstance(y, list) and y[0] == 'i' and (y[1] != 0) != pol:
                return self.implied(F, c0, True, depth + 1) | self.implied(F, x, pol, depth + 1)
            if isinstance(x, list) and x[0] == 'i' and (x[1] != 0) != pol:
                return self.implied(F, c0, False, depth + 1) | self.implied(F, y, pol, depth + 1)
            return set()
        if o == 'icmp' and D['p'] in ('eq', 'ne'):
            a, b = D['a']
            if isinstance(b, list) and b[0] in ('i', 'n') and (b[0] == 'n' or b[1] == 0):
                r = self.implied(F, a, pol == (D['p'] == 'ne'), depth + 1)
                return r
            if isinstance(a, list) and a[:2] == cy.NONE or isinstance(b, list) and b[:2] == cy.NONE:
                v = b if isinstance(a, list) else a
                return {('is', self.key(F, v), '*')} if pol == (D['p'] == 'eq') and isinstance(v, int) else set()
            if pol == (D['p'] == 'eq'):
                for x, y in ((a, b), (b, a)):
                    t, v = self.ptype(F, y), self.typeof(F, x)
                    if t and v is not None:
                        return {('is', self.key(F, v), t)}
            return set()
        if o in ('call', 'invoke'):
            n = self.C.name(D)
            if not pol:
                return set()
            n = n or ''
            if re.search(r'IsTrue(AndDecref)?$', n):
                return self.implied(F, D['a'][0], True, depth + 1)
            if 'RichCompare' in n and len(D['a']) == 3 and D['a'][2][:2] == ['i', 2]:
                for x, y in ((0, 1), (1, 0)):
                    t, v = self.ptype(F, D['a'][y]), self.typeof(F, D['a'][x])
                    if t and v is not None:
                        return {('is', self.key(F, v), t)}
                return set()
            s = None
            for t in self.C.targets(F, D):
                x = self.truth(t)
                s = x if s is None else self.meet(s, x)
            if s:
                return {('is', self.key(F, D['a'][x[1][1]]), x[2]) for x in s if x[1][1] < len(D['a'])}
            if n in ('PyType_IsSubtype', '__Pyx_IsSubtype', 'PyObject_IsSubclass'):
                t, v = self.ptype(F, D['a'][1]), self.typeof(F, D['a'][0])
                return {('is', self.key(F, v), t)} if t and v is not None else set()
            if n in ('__Pyx_TypeTest', '__Pyx_ArgTypeTest', 'PyObject_IsInstance', '__Pyx_TypeCheck', 'PyObject_TypeCheck'):
                t = self.ptype(F, D['a'][1])
                return {('is', self.key(F, D['a'][0]), t)} if t else set()
            return set()
        if 'ph' in D and D.get('t') != 'ptr':
            out = None
            for p, x in D['ph']:
                if isinstance(x, list) and x[0] == 'i' and (x[1] != 0) != pol:
                    continue
                if isinstance(x, int) and self.V.settled(F, p, x) == (not pol):
                    continue
                s = self.implied(F, x, pol, depth + 1)
                s = s | self.edge(F, p, D['_b'], self.outs.get(p, frozenset()), depth + 5)
                out = s if out is None else self.meet(out, s)
            return out or set()
        return set()

    def truth(self, n):
        """what is known about its arguments when a function of the module says yes"""
        if n in self.true:
            return self.true[n]
        self.true[n] = set()
        F = self.C.funcs[n]
        if not (F.file or '').startswith('/repo/'):
            return set()
        outs = getattr(self, 'outs', None)
        self.state.pop(n, None)
        inn = self.solve(F)
        r = None
        for b, blk in enumerate(F.blocks):
            t = blk[-1]
            if t['o'] != 'ret' or b not in inn or not t.get('a'):
                continue
            v = t['a'][0]
            D = F.defs.get(v) if isinstance(v, int) else None
            ways = [(p, x) for p, x in D['ph']] if D is not None and 'ph' in D else [(None, v)]
            for p, x in ways:
                if isinstance(x, list) and x[0] == 'i' and x[1] <= 0 or isinstance(x, list) and x[0] in 'nup' or p is not None and p not in self.outs:
                    continue
                f = self.implied(F, x, True) if isinstance(x, int) else set()
                f = f | (self.edge(F, p, D['_b'], self.outs[p]) if p is not None else set(self.outs.get(b, ())))
                r = f if r is None else self.meet(r, f)
        if outs is not None:
            self.outs = outs
        self.true[n] = {x for x in r or () if x[1][0] == 'a'}
        return self.true[n]

    def meet(self, a, b):
        out = set(a & b)
        for x in a - out:
            for y in b:
                if x[1] == y[1]:
                    if y[2] == '*' or x[2] != '*' and self.isa(y[2], x[2]):
                        out.add(x)
                    elif x[2] == '*' or self.isa(x[2], y[2]):
                        out.add(y)
                    else:
                        for z in self.sub.get(x[2], ()):
                            if self.isa(y[2], z):
                                out.add(('is', x[1], z))
                                break
        return out

    def edge(self, F, b, s, facts, depth=0):
        t = F.blocks[b][-1]
        out = set(facts)
        if t['o'] == 'br' and t.get('a') and len(F.succs(b)) == 2:
            x, y = F.succs(b)
            if x != y:
                out |= self.implied(F, t['a'][0], s == x, depth)
        new = set()
        for I in F.blocks[s]:
            if 'ph' not in I:
                break
            k = self.key(F, I['i'])
            if k[0] != 'v':
                continue
            for p, v in I['ph']:
                if p == b and I.get('t') == 'ptr':
                    t2 = self.static(F, v)
                    if t2:
                        new.add(('is', k, t2))
                    if isinstance(v, int):
                        kv = self.key(F, v)
                        new |= {('is', k, x[2]) for x in out if x[1] == kv}
        return out | new

    def solve(self, F):
        if F.name in self.state:
            return self.state[F.name]
        inn = {0: frozenset()}
        self.outs = {}
        work = [0]
        n = 0
        again = False
        while n < 80 * len(F.blocks):
            if not work:        # what a phi implies depends on the state of its predecessors
                if not again:
                    break
                again = False
                work = sorted(inn)
            n += 1
            b = work.pop(0)
            f = set(inn[b])
            for I in F.blocks[b]:
                self.step(F, I, f)
            self.outs[b] = frozenset(f)
            for s in F.succs(b):
                x = frozenset(self.edge(F, b, s, f))
                y = x if s not in inn else frozenset(self.meet(inn[s], x))
                if s not in inn or y != inn[s]:
                    inn[s] = y
                    again = True
                    if s not in work:
                        work.append(s)
        self.state[F.name] = inn
        return inn

    def step(self, F, I, f):
        if I['o'] == 'store':
            p, v = I['a'][1], I['a'][0]
            if isinstance(p, int) and F.defs.get(p, {}).get('o') == 'alloca':
                for x in [x for x in f if x[1] == ('m', p)]:
                    f.discard(x)
                t = self.static(F, v)
                if t:
                    f.add(('is', ('m', p), t))
                if isinstance(v, int):
                    k = self.key(F, v)
                    f |= {('is', ('m', p), x[2]) for x in list(f) if x[1] == k}
                return
            x = core.field_of(F, p)
            if x:
                k = ('ld', self.key(F, x[2]), x[1].split('.')[-1])
                for y in [y for y in f if self.V.rebase(y[1], k, k)]:
                    f.discard(y)
        elif I['o'] == 'load' and isinstance(I['a'][0], int) and F.defs.get(I['a'][0], {}).get('o') == 'alloca':
            k = self.key(F, I['i'])
            if k[0] == 'v':
                for x in [x for x in f if x[1] == k]:
                    f.discard(x)
                f |= {('is', k, x[2]) for x in list(f) if x[1] == ('m', I['a'][0])}
        elif I['o'] in ('call', 'invoke'):
            k = ('v', I.get('i'))
            n = self.C.name(I) or ''
            for x in [x for x in f if x[1] == k or x[1][0] == 'g' and not re.match(r'PyType_IsSubtype|_Py_(Inc|Dec)Ref|llvm', n)]:
                f.discard(x)

    def known(self, F, I, o):
        """classes a value is known to have where it is used"""
        t = self.static(F, o)
        out = {t} if t else set()
        inn = self.solve(F)
        if I['_b'] not in inn:
            return None
        if isinstance(o, int):
            f = set(inn[I['_b']])
            for J in F.blocks[I['_b']]:
                if J is I:
                    break
                self.step(F, J, f)
            k = self.key(F, o)
            out |= {x[2] for x in f if x[1] == k}
            D = F.defs.get(o)
            if not out and D is not None and 'ph' in D:
                ts = [self.static(F, x) for p, x in D['ph']]
                if all(ts):
                    s = set(ts) - {'*'}
                    if len(s) <= 1:
                        out |= s or {'*'}
        return out

    def needs(self, F):
        """(instruction, value, class) for everything that must be an object of a class of the module"""
        C = self.C
        for I in F.insts():
            o = I['o']
            if o == 'getelementptr':
                t = cls(I.get('st'))
                if t:
                    yield I, I['a'][0], t, 'is used as'
            elif o == 'store':
                t = cls(C.fieldtype(F, I['a'][1])) if isinstance(I['a'][1], int) else None
                if t:
                    yield I, I['a'][0], t, 'is kept as'
            elif o in ('call', 'invoke'):
                for n in C.targets(F, I):
                    G = C.funcs[n]
                    if not (G.file or '').startswith('/repo/'):
                        continue
                    for k, x in enumerate(I.get('a', ())):
                        if k == 0 and isinstance(I.get('f'), int):
                            continue        # the object the method was looked up in
                        t = cls(G.dtypes[k + 1]) if k + 1 < len(G.dtypes) else None
                        if t:
                            yield I, x, t, 'is passed to %s as' % G.sname
            elif o == 'ret' and F.dtypes and I.get('a'):
                t = cls(F.dtypes[0])
                if t:
                    yield I, I['a'][0], t, 'is returned as'

    # constant NULL where the core wants one of its objects
    def nulls(self, F, I, o, seen=None):
        """sites where a constant NULL that may get here untested is written"""
        seen = seen if seen is not None else set()
        if isinstance(o, list):
            return [(F, I)] if o[0] == 'n' or o[:2] == ['i', 0] else []
        if (F.name, o) in seen or not isinstance(o, int):
            return []
        seen.add((F.name, o))
        k = self.V.key(F, o)
        f = self.V.before(F, I)
        if f is None or k in f:
            return []
        D = F.defs.get(o)
        out = []
        if o < len(F.args):
            for G in self.C.repo():
                for J in G.insts():
                    if J['o'] in ('call', 'invoke') and F.name in self.C.targets(G, J) and o < len(J.get('a', ())):
                        out += self.nulls(G, J, J['a'][o], seen)
        elif D is not None and 'ph' in D:
            self.V.solve(F)
            for b, x in D['ph']:
                if isinstance(x, int) and self.V.key(F, x) in self.V.edge(F, b, D['_b'], self.V.out.get(b, frozenset())):
                    continue
                if b in self.V.out:
                    out += self.nulls(F, F.blocks[b][-1], x, seen) if isinstance(x, int) else [(F, F.blocks[b][-1])] if x[0] == 'n' else []
        elif D is not None and D['o'] in ('bitcast', 'freeze', 'addrspacecast'):
            out = self.nulls(F, I, D['a'][0], seen)
        elif D is not None and D['o'] == 'select':
            c, x, y = D['a']
            for v, pol in ((x, True), (y, False)):
                if isinstance(v, list) and v[0] == 'n':
                    out.append((F, D))
                elif isinstance(v, int) and self.V.key(F, v) not in self.V.implied(F, c, pol):
                    out += self.nulls(F, D, v, seen)
        elif D is not None and D['o'] == 'load' and isinstance(D['a'][0], int) and F.defs.get(D['a'][0], {}).get('o') == 'alloca':
            for x in cyflow.reaching(F, D):
                if x is not None:
                    out += self.nulls(F, D, x, seen)
        return out

    def unguarded(self, F, k, seen=None):
        """first place an argument that may be None is looked into"""
        seen = seen if seen is not None else set()
        if (F.name, k) in seen:
            return None
        seen.add((F.name, k))
        for I in F.insts():
            if I['o'] == 'getelementptr' and cls(I.get('st')) and self.V.key(F, I['a'][0]) == ('a', k):
                f = self.V.before(F, I)
                if f is not None and ('a', k) not in f:
                    return F, I
            elif I['o'] in ('call', 'invoke'):
                for n in self.C.targets(F, I):
                    G = self.C.funcs[n]
                    for j, x in enumerate(I.get('a', ())):
                        if (G.file or '').startswith('/repo/') and self.V.key(F, x) == ('a', k) and j + 1 < len(G.dtypes) and cls(G.dtypes[j + 1]):
                            f = self.V.before(F, I)
                            r = self.unguarded(G, j, seen) if f is not None and ('a', k) not in f else None
                            if r:
                                return r
        return None

    def takes(self, F):
        """(argument, class, whether None is let through) of methods that scripts call"""
        C = self.C
        if '__pyx_pf_' not in F.name:
            return
        for k in range(1, len(F.args)):
            t = cls(F.dtypes[k + 1]) if k + 1 < len(F.dtypes) else None
            if not t:
                continue
            ok = None
            for G in C.funcs.values():
                if '__pyx_pw_' not in G.name:
                    continue
                for J in G.insts():
                    if J['o'] in ('call', 'invoke') and F.name in C.targets(G, J):
                        for T in G.insts():
                            if T['o'] in ('call', 'invoke') and (C.name(T) or '').endswith('ArgTypeTest') and len(T['a']) > 2 and self.same(G, T['a'][0], J['a'][k]):
                                ok = bool(ok) or T['a'][2][:2] != ['i', 0]
            yield k, t, ok

    def same(self, F, a, b):
        return a == b or self.V.key(F, a) == self.V.key(F, b) or bool(self.leaves(F, a) & self.leaves(F, b))
