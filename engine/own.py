"""What the Python module owns: resources of the core and memory, and what becomes of them on every path, those on which an operation fails included."""
import re
import core, cy, cyflow

# who makes what, and who ends it
MAKES = {'createMap': 'map', 'invoke': 'map', 'getFrame': 'frame', 'newVideoFrame': 'frame', 'newVideoFrame2': 'frame', 'newAudioFrame': 'frame', 'newAudioFrame2': 'frame', 'copyFrame': 'frame', 'addFrameRef': 'frame',
         'mapGetFrame': 'frame', 'addNodeRef': 'node', 'mapGetNode': 'node', 'createVideoFilter2': 'node', 'createAudioFilter2': 'node', 'setInternalFilterRelation': 'node', 'getOutput': 'node',
         'addFunctionRef': 'function', 'mapGetFunction': 'function', 'createFunction': 'function', 'createCore': 'core', 'malloc': 'memory', 'calloc': 'memory'}
ENDS = {'freeMap': (0, 'map'), 'freeFrame': (0, 'frame'), 'freeNode': (0, 'node'), 'freeFunction': (0, 'function'), 'freeCore': (0, 'core'), 'free': (0, 'memory'),
        'mapConsumeNode': (2, 'node'), 'mapConsumeFrame': (2, 'frame'), 'mapConsumeFunction': (2, 'function')}
# objects handed to the core: which argument, and which one is the function that will release it
GIVES = {'getFrameAsync': (3, 2), 'createFunction': (1, 2), 'addLogHandler': (2, 1)}
# what callbacks are given an object as, and whether they release it
CALLS = {'getFrameAsync': {2: (0, -1)}, 'createFunction': {0: (2, 0), 2: (0, -1)}, 'addLogHandler': {0: (2, 0), 1: (0, -1)}}
SLOTS = ('pyenvdict', 'errstr')
GIVEN = {'getFrameAsync': (2, 1, 'frame')}    # callbacks that own an argument


class Owner:
    def __init__(self, C, V, R):
        self.C, self.V, self.R = C, V, R
        self.taken = {}
        self.changes, self.handed = {}, {}

    def makes(self, F, I):
        a = self.C.api(F, I) or self.C.name(I)
        if a in MAKES:
            return MAKES[a]
        for t in self.C.targets(F, I):
            if t != F.name and self.gives(t):
                return self.gives(t)
        return None

    def gives(self, n, memo={}):
        """kind of what a function of the module hands to its caller"""
        if n not in memo:
            memo[n] = None
            F = self.C.funcs[n]
            if (F.file or '').startswith('/repo/') and F.dtypes and re.search(r'VS(Map|Frame|Node|Function|Core)\b|^void \*|uint8_t \*', F.dtypes[0] or ''):
                ks = {self.makes(F, F.defs[s]) for I in F.insts() if I['o'] == 'ret' and I.get('a') for s in self.origins(F, I['a'][0]) if isinstance(s, int) and s in F.defs}
                ks.discard(None)
                if len(ks) == 1:
                    memo[n] = ks.pop()
        return memo[n]

    def origins(self, F, o, seen=None):
        """calls and arguments a value may come from"""
        if not isinstance(o, int):
            return set()
        seen = seen if seen is not None else set()
        if o in seen:
            return set()
        seen.add(o)
        if o < len(F.args):
            return {o}
        D = F.defs.get(o)
        if D is None:
            return set()
        if D['o'] in ('call', 'invoke'):
            return {o}
        if 'ph' in D:
            return set().union(*[self.origins(F, x, seen) for p, x in D['ph']])
        if D['o'] == 'select':
            return self.origins(F, D['a'][1], seen) | self.origins(F, D['a'][2], seen)
        if D['o'] in ('bitcast', 'freeze'):
            return self.origins(F, D['a'][0], seen)
        if D['o'] == 'load' and isinstance(D['a'][0], int) and F.defs.get(D['a'][0], {}).get('o') == 'alloca':
            return set().union(*[self.origins(F, x, seen) for x in cyflow.reaching(F, D) if x is not None], set())
        return set()

    def values(self, F, o, seen=None):
        """what a value may be"""
        seen = seen if seen is not None else set()
        if not isinstance(o, int) or o in seen:
            return set()
        seen.add(o)
        D = F.defs.get(o)
        if D is not None and 'ph' in D:
            return set().union(*[self.values(F, x, seen) for p, x in D['ph']])
        if D is not None and D['o'] == 'load' and isinstance(D['a'][0], int) and F.defs.get(D['a'][0], {}).get('o') == 'alloca':
            return set().union(*[self.values(F, x, seen) for x in cyflow.reaching(F, D) if x is not None], set())
        return {o}

    def takes(self, n, k):
        """what a function of the module does with a resource it is given: 'always' ends or keeps it, 'never', or 'some' paths"""
        if (n, k) in self.taken:
            return self.taken[n, k]
        self.taken[n, k] = 'never'
        F = self.C.funcs[n]
        if (F.file or '').startswith('/repo/') and k < len(F.args):
            try:
                r = {('H' if (k, 'H') in s.ext else 'T') for s in self.follow(F, k)}
                if r:
                    self.taken[n, k] = 'always' if r == {'T'} else 'never' if r == {'H'} else 'some'
            except cyflow.TooMany:
                pass
        return self.taken[n, k]

    def change(self, n, k):
        """by how much a function changes the references of an object it is given when it succeeds and when it fails (None: differs from path to path)"""
        if (n, k) in self.changes:
            return self.changes[n, k]
        self.changes[n, k] = (0, 0)
        F = self.C.funcs[n]
        if (F.file or '').startswith('/repo/') and k < len(F.args):
            try:
                sts = [(bool(s.pending), c[2]) for s in self.follow(F, obj=k) for c in s.ext if c[:2] == ('#', k)]
            except cyflow.TooMany:
                return 0, 0
            r = [{n for p, n in sts if p == q} for q in (False, True)]
            if len(r[0]) <= 1 and len(r[1]) <= 1:
                self.changes[n, k] = (r[0].pop() if r[0] else 0, r[1].pop() if r[1] else 0)
            else:
                self.changes[n, k] = None
        return self.changes[n, k]

    def hands(self, F):
        """calls that hand an object to the core: (call, which argument, what releases it or None)"""
        if F.name not in self.handed:
            self.handed[F.name] = out = []
            for I in F.insts():
                if I['o'] in ('call', 'invoke'):
                    a = self.C.api(F, I)
                    if a in GIVES:
                        d, fr = GIVES[a]
                        out.append((I, d, I['a'][fr]))
                    else:
                        for t in self.C.targets(F, I):
                            if t != F.name and (self.C.funcs[t].file or '').startswith('/repo/'):
                                G = self.C.funcs[t]
                                for J, d, fr in self.hands(G):
                                    o = J['a'][d]
                                    if isinstance(o, int) and o < len(G.args):
                                        out.append((I, o, I['a'][fr] if isinstance(fr, int) and fr < len(G.args) else fr))
        return self.handed[F.name]

    def slot(self, F, p):
        x = core.field_of(F, p) if isinstance(p, int) else None
        if x and x[0].split('.')[-1] == 'VSScript' and x[1].split('.')[-1] in SLOTS:
            return x[1].split('.')[-1]
        if isinstance(p, int) and re.sub(r'^const |\*$', '', self.C.otype(F, p) or '').split('.')[-1] == 'VSScript':
            t = next((t for t in ('VSScript', 'struct.VSScript') if t in self.C.M.types), None)
            f = self.C.M.field(t, 0) if t else None
            if f and f[0].split('.')[-1] in SLOTS:
                return f[0].split('.')[-1]
        return None

    def lent(self, F, o, depth=0):
        """where a resource that belongs to somebody else comes from, if that is all it can be"""
        D = F.defs.get(o) if isinstance(o, int) and o >= len(F.args) else None
        if D is None or depth > 4:
            return None
        if D['o'] == 'load':
            x = core.field_of(F, D['a'][0])
            if x and self.resource(F, D['a'][0]):
                return '%s.%s' % (re.sub(r'^__pyx_obj_\d+vapoursynth_', '', x[0].split('.')[-1]), x[1].split('.')[-1])
            if x and D.get('i') is not None and x[0].split('.')[-1].startswith('VS') and not self.slot(F, D['a'][0]):
                return '%s.%s' % (x[0].split('.')[-1], x[1].split('.')[-1])
            B = F.defs.get(D['a'][0]) if isinstance(D['a'][0], int) else None
            if B is not None and B['o'] in ('call', 'invoke') and self.C.api(F, B):
                return self.C.api(F, B)
        if D['o'] in ('call', 'invoke') and self.C.api(F, D) and not self.makes(F, D):
            return self.C.api(F, D)
        if 'ph' in D:
            r = {self.lent(F, x, depth + 1) for p, x in D['ph'] if isinstance(x, int)}
            return r.pop() if len(r) == 1 else None
        return None

    def root(self, F, o):
        n = 0
        D = F.defs.get(o) if isinstance(o, int) else None
        while D is not None and D['o'] in ('getelementptr', 'bitcast') and n < 8:
            o = D['a'][0]
            D = F.defs.get(o) if isinstance(o, int) else None
            n += 1
        return o

    def local(self, F, p):
        r = self.root(F, p)
        return isinstance(r, int) and F.defs.get(r, {}).get('o') == 'alloca'

    def follow(self, F, given=None, tell=None, obj=None):
        """facts: (s, 'H') held, (s, 'F') freed, ('#', s, n) references owned beyond those something holds, ('=', place, s) what a place holds.
        A resource is named by the call that made it, or the number of the argument."""
        C = self.C
        refs = set()        # objects whose references are counted
        for I, d, fr in self.hands(F):
            refs |= self.origins(F, I['a'][d])
        stores = [I for I in F.insts() if I['o'] == 'store' and self.slot(F, I['a'][1])]
        for I in stores:
            refs |= self.origins(F, I['a'][0])
        refs = {s for s in refs if s >= len(F.args)}
        made = {}
        for I in F.insts():
            if I['o'] in ('call', 'invoke') and 'i' in I:
                m = self.makes(F, I)
                if m:
                    made[I['i']] = m
        init = set()
        if given is not None:
            init.add((given, 'H'))
        if obj is not None:
            init.add(('#', obj, 0))
        handed = {}
        for I, d, fr in self.hands(F):
            handed.setdefault((I['_b'], I['_n']), []).append((d, fr))
        tracked = set(made) | refs | {given, obj} - {None}

        def site(o, ext):
            """which resource this is"""
            if not isinstance(o, int):
                return None
            if o in tracked:
                return o
            D = F.defs.get(o)
            while D is not None and D['o'] in ('bitcast', 'freeze'):
                o = D['a'][0]
                if o in tracked:
                    return o
                D = F.defs.get(o) if isinstance(o, int) else None
            for x in ext:
                if x[0] == '=' and x[1] == ('v', o):
                    return x[2]
            return None

        def say(*a):
            if tell:
                tell(*a)

        def drop(ext, s, to=None):
            if s is None or (s, 'H') not in ext:
                return ext
            return frozenset((ext - {(s, 'H')}) | ({(s, to)} if to else set()))

        def count(ext, s, n):
            for x in ext:
                if x[0] == '#' and x[1] == s:
                    return frozenset((ext - {x}) | {('#', s, max(min(x[2] + n, 4), -4))})
            return ext

        def bind(ext, place, s):
            ext = {x for x in ext if not (x[0] == '=' and x[1] == place)}
            if s is not None:
                ext.add(('=', place, s))
            return frozenset(ext)

        def event(F, I, facts, ext, pend):
            a = C.api(F, I) or C.name(I)
            al = list(I.get('a', ()))
            ext = frozenset(x for x in ext if x[0] != '!' or x[1] != (I['_b'], I['_n']))
            if isinstance(a, str) and a.startswith('llvm.'):
                return ext
            for o in al:
                s = site(o, ext)
                if s is not None and (s, 'F') in ext:
                    say('freed twice' if a in ENDS else 'used after it was freed', I, s, a)
            if a in ENDS:
                k, kind = ENDS[a]
                ext = drop(ext, site(al[k], ext), 'F')
            elif a == 'realloc':
                ext = drop(ext, site(al[0], ext))
            elif a == '_Py_IncRef' or a == '_Py_DecRef':
                s = site(al[0], ext)
                if s is not None:
                    ext = count(ext, s, 1 if a == '_Py_IncRef' else -1)
            else:
                for t in C.targets(F, I):
                    if t == F.name:
                        continue
                    for k, o in enumerate(al):
                        s = site(o, ext)
                        if s is None:
                            continue
                        if (s, 'H') in ext and self.takes(t, k) != 'never':
                            ext = drop(ext, s)
                        if any(x[:2] == ('#', s) for x in ext):
                            n = self.change(t, k)
                            if n and n != (0, 0):
                                ext = count(ext, s, n[0])
                                if n[1] != n[0]:
                                    ext = frozenset(ext | {('!', (I['_b'], I['_n']), s, n[1] - n[0])})
                if not C.targets(F, I):
                    for d, fr in handed.get((I['_b'], I['_n']), ()):
                        s = site(al[d], ext)
                        if s is not None:
                            ext = count(ext, s, -1)
            # what a function of the module does to the fields of a script is not followed
            if C.targets(F, I) and any(isinstance(o, int) and (o < len(F.args)) for o in al):
                fs = {x[1][1] for x in ext if x[0] == '=' and x[1][0] == 'f'} | {x[1][1] for x in ext if x[0] == '#' and isinstance(x[1], tuple)}
                for f in fs:
                    ext = bind(ext, ('f', f), ('unknown', f))
            i = I.get('i')
            if i in made:
                if (i, 'H') in ext:
                    say('replaced', I, i, a)
                ext = frozenset({x for x in ext if x[0] != i} | {(i, 'H')})
            elif i in refs:
                ext = frozenset({x for x in ext if not (x[0] == '#' and x[1] == i)} | {('#', i, 1)})
            return ext

        def store(F, I, facts, ext):
            v, p = I['a'][:2]
            s = site(v, ext)
            f = self.slot(F, p)
            if f:
                cur = [x[2] for x in ext if x[0] == '=' and x[1] == ('f', f)]
                old = cur[0] if cur else ('slot', f)
                ext = count(ext, old, 1)
                ext = bind(ext, ('f', f), s if s is not None else ('none', f))
                if s is not None:
                    ext = count(ext, s, -1)
                return ext
            if self.local(F, p):
                if p in F.defs and F.defs[p]['o'] == 'alloca':
                    ext = bind(ext, ('m', p), s)
                return ext
            if s is not None:
                if (s, 'H') in ext:
                    ext = drop(ext, s)
                ext = count(ext, s, -1)
            return ext

        def load(F, I, facts, ext):
            p = I['a'][0]
            f = self.slot(F, p)
            if f:
                cur = [x[2] for x in ext if x[0] == '=' and x[1] == ('f', f)]
                s = cur[0] if cur else ('slot', f)
                if s == ('slot', f) and not any(x[:2] == ('#', s) for x in ext):
                    ext = frozenset(ext | {('#', s, 0)})
                return bind(ext, ('v', I['i']), s)
            if isinstance(p, int):
                for x in ext:
                    if x[0] == '=' and x[1] == ('m', p):
                        return bind(ext, ('v', I['i']), x[2])
                if any(x[0] == '=' and x[1] == ('v', I['i']) for x in ext):
                    return bind(ext, ('v', I['i']), None)
            return ext

        def null(F, a, ext):
            s = site(a, ext)
            if s is None:
                return ext
            return frozenset(x for x in ext if not (x == (s, 'H') or x[:2] == ('#', s)))

        def fail(F, D, ext):
            at = (E.pend[-2:] if E.pend else None) if C.name(D) == 'PyErr_Occurred' else (D['_b'], D['_n'])
            for x in [x for x in ext if x[0] == '!' and x[1] == at]:
                ext = count(ext - {x}, x[2], x[3])
            return ext

        def alias(p, b, ext):
            new = {}
            for I in F.blocks[b]:
                if 'ph' not in I:
                    break
                for q, x in I['ph']:
                    if q == p:
                        new[I['i']] = site(x, ext)
            live = E.live[b]
            out = {x for x in ext if not (x[0] == '=' and x[1][0] == 'v' and (x[1][1] in new or x[1][1] not in live))}
            out |= {('=', ('v', i), s) for i, s in new.items() if s is not None}
            return frozenset(out)
        E = cyflow.Explore(self.R, F, ext=frozenset(init), event=event, fail=fail)
        E.store, E.null, E.load, E.alias = store, null, load, alias
        out = []
        for st in E.run():
            s = site(st.ret, st.ext)
            if s is not None:
                st.ext = count(drop(st.ext, s), s, -1)
            out.append(st)
        return out

    def kind(self, F, s):
        D = F.defs.get(s)
        return self.makes(F, D) if D is not None else None

    def handle(self, F, t, k):
        d = self.C.funcs[t].dtypes
        return k + 1 < len(d) and re.match(r'(const )?(struct\.)?VS(Map|Frame|Node|Function)\b', d[k + 1] or '')

    def resource(self, F, p):
        """kind of the field stored to"""
        x = core.field_of(F, p) if isinstance(p, int) else None
        if not x or not x[0].split('.')[-1].startswith('__pyx_obj_'):
            return None
        t = self.C.fieldtype(F, p) or ''
        m = re.match(r'(?:struct\.)?VS(Map|Frame|Node|Function)$', t)
        return m.group(1).lower() if m else None

    def kept(self):
        """where something owned is put: [(fields, kind, where)], all fields hold the same resource"""
        out = {}
        for F in self.C.repo():
            by = {}
            for I in F.insts():
                if I['o'] == 'store':
                    kd = self.resource(F, I['a'][1])
                    x = core.field_of(F, I['a'][1]) if kd else None
                    if not x:
                        continue
                    for s in self.origins(F, I['a'][0]):
                        if s < len(F.args) and kd != 'core' and self.taken.get((F.name, s), 'never') != 'never' or s >= len(F.args) and self.kind(F, s):
                            by.setdefault(s, []).append(((x[0].split('.')[-1], x[1].split('.')[-1]), kd, F.loc(I)))
            for l in by.values():
                out.setdefault(frozenset(x[0] for x in l), (l[0][1], l[0][2]))
        return [(sorted(fs), k, w) for fs, (k, w) in out.items()]

    def released(self, t, f, kind):
        """does deallocating an object of this type release the field"""
        C = self.C
        names = [re.sub(r'^__pyx_obj_\d+vapoursynth_', '', b.split('.')[-1]) for b in C.bases('struct.' + t if 'struct.' + t in C.M.types else t)] or [re.sub(r'^__pyx_obj_\d+vapoursynth_', '', t)]
        todo = [F.name for F in C.repo() if F.sname in ['%s___dealloc__' % n for n in names]]
        seen = set(todo)
        while todo:
            F = C.funcs[todo.pop()]
            for I in F.insts():
                if I['o'] not in ('call', 'invoke'):
                    continue
                a = C.api(F, I) or C.name(I)
                if a in ENDS and ENDS[a][1] == kind:
                    k = self.V.key(F, I['a'][ENDS[a][0]])
                    D = F.defs.get(I['a'][ENDS[a][0]]) if isinstance(I['a'][ENDS[a][0]], int) else None
                    x = core.field_of(F, D['a'][0]) if D is not None and D['o'] == 'load' else None
                    if k[0] == 'ld' and k[2] == f or x and x[1].split('.')[-1] == f:
                        return True
                for n in C.targets(F, I):
                    if n not in seen and (C.funcs[n].file or '').startswith('/repo/'):
                        seen.add(n)
                        todo.append(n)
        return False
