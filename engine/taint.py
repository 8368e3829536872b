"""Where pointers of filter callbacks come from: for every store, and every API call that writes, the objects it may write
to, traced through helpers, local arrays and structs, and kernels in other units."""
import re
from refs import api_name

LIM = 20
DEEP = 3
# API functions that change a map: argument number
MAPW = {'clearMap': 0, 'mapSetError': 0, 'mapDeleteKey': 0, 'mapSetEmpty': 0, 'mapSetInt': 0, 'mapSetIntArray': 0, 'mapSetFloat': 0, 'mapSetFloatArray': 0, 'mapSetData': 0, 'mapSetNode': 0,
        'mapConsumeNode': 0, 'mapSetFrame': 0, 'mapConsumeFrame': 0, 'mapSetFunction': 0, 'mapConsumeFunction': 0, 'freeMap': 0, 'copyMap': 1, 'callFunction': 2}
RW = ('getWritePtr', 'getFramePropertiesRW')
CWRITES = {'memcpy': 0, 'memmove': 0, 'memset': 0, 'strcpy': 0, 'strncpy': 0, 'sprintf': 0, 'snprintf': 0, 'qsort': 0, 'vsnprintf': 0, 'strcat': 0}


def off_add(a, b):
    return '*' if a == '*' or b == '*' else a + b


def meet(a, b):
    return a == '*' or b == '*' or a == b


class Sum:
    __slots__ = ('w', 'st', 'ret', 'ver', 'F', 'r')

    def __init__(self, F):
        self.F = F
        self.w = {}      # (root, derefs, off, kind) -> [function, instruction, conditions it is under, mutexes held]: may write there
        self.r = {}      # (root, derefs, off) -> the same: may read there
        self.st = {}     # (root, derefs, off) -> set of values stored there
        self.ret = set()
        self.ver = 0


class Taint:
    def __init__(self, P, modules):
        self.P = P
        self.mods = modules
        self.sums = {}
        self.busy = set()
        self.dirty = False
        self.taken = None
        self.indirect = 0

    def lookup(self, F, name):
        G = F.m.funcs.get(name)
        if G is None:
            name = F.m.aliases.get(name, name)
            G = F.m.funcs.get(name) or self.P.funcs.get(name)
        return G

    def targets(self, F, I):
        """functions a call through a pointer may reach: those whose address is taken, of the same shape"""
        if self.taken is None:
            self.taken = {}
        M = F.m
        if id(M) not in self.taken:
            T = self.taken[id(M)] = {}
            seen = set()

            def walk(x):
                if isinstance(x, list):
                    if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str):
                        G = M.funcs.get(x[1]) or self.P.funcs.get(x[1])
                        if G is not None and id(G) not in seen and (G.file or '').startswith('/repo/') and 'VSCore*' not in G.dtypes and 'VSAPI*' not in G.dtypes:
                            seen.add(id(G))
                            T.setdefault(len(G.args), []).append(G)
                        return
                    for y in x:
                        walk(y)
            for n, g in M.globals.items():
                if not n.startswith('_ZTV'):
                    walk(g.get('init'))
            for G in M.funcs.values():
                for J in G.insts():
                    for o in list(J.get('a', ())) + [o for _, o in J.get('ph', ())]:
                        if isinstance(o, list):
                            walk(o)
        return self.taken[id(M)].get(len(I.get('a', ())), ())

    # ---- summaries

    def summary(self, F, depth=0):
        k = (id(F.m), F.name)
        S = self.sums.get(k)
        if S is None:
            S = self.sums[k] = Sum(F)
            self.work(F, S, k)
        return S

    def fix(self, F):
        """iterate until the summaries of a recursive group are stable"""
        S = self.summary(F)
        for _ in range(4):
            n = sum(len(s.w) + sum(map(len, s.st.values())) + len(s.ret) for s in self.sums.values())
            if not self.recursive:
                break
            for k in list(self.recursive):
                self.work(self.sums[k].F, self.sums[k], k)
            if n == sum(len(s.w) + sum(map(len, s.st.values())) + len(s.ret) for s in self.sums.values()):
                break
        return S
    recursive = frozenset()

    def work(self, F, S, key):
        if key in self.busy:
            self.recursive = self.recursive | {key}
            return
        self.busy.add(key)
        try:
            Fn(self, F, S).run()
        finally:
            self.busy.discard(key)


def is_cb(F):
    return len(F.dtypes) == 8 and F.dtypes[0] == 'VSFrame*' and F.dtypes[5] == 'VSFrameContext*' and F.dtypes[2] == 'int'


def name_of(F, I):
    f = I.get('f')
    return f[1] if isinstance(f, list) and f[0] == 'g' else None


def canon(F, o, depth=0):
    """the expression behind an operand, in terms of the parameters"""
    if isinstance(o, int):
        if o < len(F.args):
            return ('p', o)
        I = F.defs.get(o)
        if I is None or depth > 12 or 'ph' in I:
            return ('id', F.name, o)
        k, a = I['o'], I.get('a', ())
        if k == 'load':
            return ('ld', canon(F, a[0], depth + 1))
        if k == 'getelementptr':
            if I.get('var') or 'off' not in I:
                return ('id', F.name, o)
            b = canon(F, a[0], depth + 1)
            if b[0] == '+':
                return ('+', b[1], b[2] + I['off'])
            return ('+', b, I['off']) if I['off'] else b
        if k in ('trunc', 'zext', 'sext', 'freeze', 'bitcast'):
            return canon(F, a[0], depth + 1)
        if k in ('call', 'invoke'):
            n = name_of(F, I)
            if n is None:
                return ('id', F.name, o)
            return ('call', n) + tuple(canon(F, x, depth + 1) for x in a)
        if k == 'icmp':
            return ('icmp', I['p'], canon(F, a[0], depth + 1), canon(F, a[1], depth + 1))
        if k in ('xor', 'and', 'or', 'add', 'sub', 'ashr', 'sdiv'):
            return (k, canon(F, a[0], depth + 1), canon(F, a[1], depth + 1))
        if k == 'alloca':
            return ('loc', F.name, o)
        return ('id', F.name, o)
    if isinstance(o, list):
        if o[0] == 'i':
            return ('c', o[1])
        if o[0] == 'n':
            return ('c', 0)
        if o[0] == 'g':
            return ('g', o[1])
    return ('?',)


NEG = {'ne': 'eq', 'sge': 'slt', 'sle': 'sgt', 'uge': 'ult', 'ule': 'ugt'}


def truth(e, pol=True):
    """a condition as (expression, polarity)"""
    while True:
        if e[0] == 'icmp':
            _, p, x, y = e
            if x[0] == 'c' and y[0] != 'c':
                x, y = y, x
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            if p in NEG:
                p, pol = NEG[p], not pol
            if y == ('c', 0) and p == 'eq':
                e, pol = x, not pol
                continue
            if y == ('c', 0) and p == 'ugt':
                e = x
                continue
            if y == ('c', 1) and p == 'ult':
                e, pol = x, not pol
                continue
            if p == 'sgt' and y[0] == 'c':
                p, y, pol = 'slt', ('c', y[1] + 1), not pol
            if x[0] == 'call' and p == 'eq':
                pass
            return ('icmp', p, x, y), pol
        if e[0] == 'xor' and e[2] in (('c', 1), ('c', -1), ('c', True)):
            e, pol = e[1], not pol
            continue
        if e[0] == 'call' and '5emptyEv' in e[1]:
            # not empty() is size()
            return ('call', e[1].replace('5emptyEv', '4sizeEv')) + e[2:], not pol
        return e, pol


def subst_canon(e, a, F):
    if not isinstance(e, tuple):
        return e
    if e[0] == 'p' and len(e) == 2:
        return canon(F, a[e[1]]) if e[1] < len(a) else ('?',)
    r = tuple(subst_canon(x, a, F) for x in e)
    if r[0] == '+' and isinstance(r[1], tuple) and r[1][0] == '+':
        r = ('+', r[1][1], r[1][2] + r[2])
    return r


class Guards:
    """for every block, the conditions that hold whenever it is entered"""

    def __init__(self, F):
        n = len(F.blocks)
        self.F = F
        full = set(range(n))
        dom = [full] * n
        dom[0] = {0}
        order = list(range(n))
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in F.preds(b)]
                d = set.intersection(*ps) | {b} if ps else {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        self.dom = dom
        self.cond = [None] * n

    def edge(self, p, b):
        """the condition of the edge p -> b"""
        F = self.F
        t = F.blocks[p][-1]
        if t['o'] == 'br' and len(t['s']) == 2 and t['s'][0] != t['s'][1]:
            return truth(canon(F, t['a'][0]), t['s'][0] == b)
        if t['o'] == 'switch' and b != t['d']:
            vs = [v for v, x in t['cs'] if x == b]
            if len(vs) == 1:
                return truth(('icmp', 'eq', canon(F, t['a'][0]), ('c', vs[0])))
        return None

    def of(self, b):
        if self.cond[b] is None:
            s = set()
            F = self.F
            for x in self.dom[b]:
                ps = F.preds(x)
                if len(ps) == 1:
                    c = self.edge(ps[0], x)
                    if c and c[0][0] != '?':
                        s.add(c)
            self.cond[b] = frozenset(s)
        return self.cond[b]


REFCOUNT = re.compile('__shared_count|_Sp_counted|__exchange_and_add|__atomic_add')
LOCK = re.compile(r'std::(mutex::lock\(|recursive_mutex::lock\(|(lock_guard|unique_lock|scoped_lock)<.*>::(lock_guard|unique_lock|scoped_lock)\()')
UNLOCK = re.compile(r'std::(mutex::unlock\(|recursive_mutex::unlock\(|(unique_lock)<.*>::unlock\(|(lock_guard|unique_lock|scoped_lock)<.*>::~)')


def unconst(e):
    """written through const in the standard library is internal to it"""
    return re.search(r'const ?[&*]', e) is not None


def params(dem):
    """parameter types of a demangled name"""
    if not dem.rstrip().endswith((')', ') const')):
        return []
    s = dem.rstrip()
    if s.endswith(' const'):
        s = s[:-6]
    d = 0
    for i in range(len(s) - 1, -1, -1):
        d += s[i] == ')'
        d -= s[i] == '('
        if d == 0:
            break
    out, d, cur = [], 0, ''
    for c in s[i + 1:-1]:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Fn:
    def __init__(self, T, F, S):
        self.T, self.F, self.S = T, F, S
        self.G = Guards(F)
        self.locks = None
        self.v = {}          # ssa -> set of values
        self.mem = {}        # local root -> {off: set}
        self.copies = {}     # local root -> [(off, source value, n)]
        self.esc = False

    def vals(self, o):
        if isinstance(o, int):
            if o < len(self.F.args):
                return {(('p', o), (), 0)}
            return self.v.get(o, set())
        if isinstance(o, list):
            if o[0] == 'g':
                return {(('g', o[1]), (), 0)}
            if o[0] == '@' or o[0] == 'gep':
                # address within a global
                for x in o:
                    if isinstance(x, list) and x[0] == 'g':
                        return {(('g', x[1]), (), o[1] if isinstance(o[1], int) else '*')}
        return set()

    def put(self, i, vs):
        old = self.v.setdefault(i, set())
        n = len(old)
        old |= vs
        if len(old) > LIM:
            roots = {(r, d if len(d) == 0 else ('*',) if r[0] != 'l' else d, '*') for r, d, o in old}
            old.clear()
            old |= roots
            if len(old) > LIM * 3:
                # keep what matters: anything but locals
                for x in [x for x in old if x[0][0] == 'l'][LIM:]:
                    old.discard(x)
        if len(old) != n:
            self.ch = True

    def deref(self, val, n=None):
        """values loaded through a pointer"""
        r, d, o = val
        out = set()
        if r[0] == 'l' and not d:
            for oo, vs in self.mem.get(r, {}).items():
                if meet(o, oo):
                    out |= vs
            for co, src, ln in self.copies.get(r, ()):
                sr, sd, so = src
                if o == '*' or co == '*' or so == '*' or ln is None:
                    nv = (sr, sd, '*')
                elif co <= o < co + ln:
                    nv = (sr, sd, so + o - co)
                else:
                    continue
                if nv[0] == r:
                    continue
                if nv[0][0] == 'l' and not nv[1]:
                    if nv not in self.guard:
                        self.guard.add(nv)
                        out |= self.deref(nv)
                        self.guard.discard(nv)
                else:
                    out.add((nv[0], (nv[1] + (nv[2],))[:DEEP], 0 if len(nv[1]) < DEEP else '*'))
            return out
        if len(d) >= DEEP:
            return {(r, d, '*')}
        return {(r, d + (o,), 0)}

    def store(self, val, vs):
        r, d, o = val
        if r[0] == 'l' and not d:
            if vs:
                m = self.mem.setdefault(r, {}).setdefault(o, set())
                n = len(m)
                m |= vs
                if len(m) > LIM:
                    z = {(a, b, '*') for a, b, c in m}
                    m.clear()
                    m |= z
                if len(m) != n:
                    self.ch = True
        elif vs and r[0] == 'p':
            m = self.S.st.setdefault((r, d, o), set())
            n = len(m)
            m |= {x for x in vs if x[0][0] != 'l'} | {((('new', self.F.name[:30])), (), 0) for x in vs if x[0][0] == 'l'}
            if len(m) > LIM:
                z = {(a, b, '*') for a, b, c in m}
                m.clear()
                m |= z
            if len(m) != n:
                self.ch = True

    def write(self, val, I, kind='store', at=None):
        r, d, o = val
        if r[0] == 'l':
            if d:
                # through a pointer kept in a local that is not known
                pass
            return
        if not at and REFCOUNT.search(self.F.dem or '') and (d or '_Sp_counted' in self.F.dem):
            kind = 'atomic'
        self.note(self.S.w, (r, d, o, kind), I, at)

    def note(self, D, k, I, at=None):
        F = self.F
        g, m = self.G.of(I['_b']), self.held(I)
        if at:
            g = g | at[2]
            m = m | at[3]
            at = [at[0], at[1], g, m]
        else:
            at = [F, I, g, m]
        old = D.get(k)
        if old is None:
            D[k] = at
            self.ch = True
        elif not (old[2] <= g and old[3] <= m):
            old[2] = old[2] & g
            old[3] = old[3] & m
            self.ch = True

    def held(self, I):
        """mutexes held at an instruction (places of the mutexes)"""
        if self.locks is None:
            self.find_locks()
        return self.locks.get((I['_b'], I['_n']), frozenset()) if self.locks else frozenset()

    def find_locks(self):
        F = self.F
        L = {}
        for I in F.insts():
            n = name_of(F, I)
            if n and (n.startswith('_ZNSt') or 'mutex' in n or 'lock' in n):
                dm = F.m.dem(n)
                if LOCK.search(dm):
                    L[(I['_b'], I['_n'])] = (1, dm)
                elif UNLOCK.search(dm):
                    L[(I['_b'], I['_n'])] = (0, dm)
        self.locks = {}
        if not L:
            return
        places = {}
        guards = {}
        for (b, n), (up, dm) in L.items():
            a = F.blocks[b][n].get('a', ())
            if up:
                m = a[1] if '_lock' in dm.split('(')[0].split('::')[-1] or 'lock_guard' in dm.split('(')[0].split('::')[-1] else a[0]
                m = self.place(m)
                if m and len(a) > 1:
                    guards.setdefault(a[0], set()).add(m)
                places[(b, n)] = m
        n = len(F.blocks)
        IN = [None] * n
        IN[0] = frozenset()
        work = [0]
        while work:
            b = work.pop()
            cur = IN[b]
            for k, I in enumerate(F.blocks[b]):
                if (b, k) in L:
                    up, dm = L[(b, k)]
                    a = I.get('a', ())
                    if up and places[(b, k)]:
                        cur = cur | {places[(b, k)]}
                    elif not up:
                        ms = guards.get(a[0]) or ({self.place(a[0])} if self.place(a[0]) else set())
                        cur = cur - ms
                if cur:
                    self.locks[(b, k)] = cur if (b, k) not in self.locks else self.locks[(b, k)] & cur
                else:
                    self.locks.pop((b, k), None)
            for t in F.succs(b):
                x = cur if IN[t] is None else IN[t] & cur
                if x != IN[t]:
                    IN[t] = x
                    work.append(t)

    def place(self, o):
        vs = {v for v in self.vals(o) if v[0][0] in ('p', 'g')}
        if not vs:
            e = canon(self.F, o)
            off = 0
            if e[0] == '+':
                e, off = e[1], e[2]
            if e[0] == 'p':
                return (e, (), off)
            if e[0] == 'g':
                return (e, (), off)
            return None
        return sorted(vs, key=repr)[0] if len(vs) == 1 else None

    def run(self):
        F = self.F
        self.guard = set()
        for rnd in range(8):
            self.ch = False
            for I in F.insts():
                self.inst(I)
            if not self.ch:
                break

    def inst(self, I):
        F, o = self.F, I['o']
        i = I.get('i')
        if 'ph' in I:
            vs = set()
            for _, x in I['ph']:
                vs |= self.vals(x)
            if vs:
                self.put(i, vs)
            return
        a = I.get('a', ())
        if o == 'alloca':
            self.put(i, {(('l', i), (), 0)})
        elif o == 'getelementptr':
            vs = self.vals(a[0])
            if not vs:
                return
            off = '*' if I.get('var') or 'off' not in I else I['off']
            self.put(i, {(r, d, off_add(x, off)) for r, d, x in vs})
        elif o == 'load':
            for v in list(self.vals(a[0])):
                if v[0][0] in ('p', 'g') and not I.get('at') and not (REFCOUNT.search(F.dem or '') and (v[1] or '_Sp_counted' in F.dem)):
                    self.note(self.S.r, v, I)
            if I.get('t') != 'ptr':
                return
            out = set()
            for v in self.vals(a[0]):
                out |= self.deref(v)
            if out:
                self.put(i, out)
        elif o == 'store':
            vs = self.vals(a[0]) if I.get('t') == 'ptr' else set()
            for v in list(self.vals(a[1])):
                self.store(v, vs)
                self.write(v, I, 'atomic' if I.get('at') else 'store')
        elif o in ('atomicrmw', 'cmpxchg'):
            for v in list(self.vals(a[0])):
                self.write(v, I, 'atomic')
        elif o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.put(i, set(self.vals(a[0]))) if self.vals(a[0]) else None
        elif o in ('add', 'sub', 'and') and I.get('t') == 'i64':
            vs = self.vals(a[0]) if isinstance(a[0], int) and a[0] in self.v else set()
            if vs:
                self.put(i, {(r, d, '*') for r, d, x in vs})
        elif o == 'select':
            vs = self.vals(a[1]) | self.vals(a[2])
            if vs:
                self.put(i, vs)
        elif o == 'ret':
            if a:
                vs = self.vals(a[0])
                n = len(self.S.ret)
                for r, d, x in vs:
                    if r[0] != 'l':
                        self.S.ret.add((r, d, x))
                    else:
                        self.S.ret.add((('new', self.F.name[:30]), (), 0))
                if len(self.S.ret) != n:
                    self.ch = True
        elif o in ('insertvalue',):
            vs = set()
            for x in a:
                vs |= self.vals(x)
            if vs:
                self.put(i, vs)
        elif o == 'extractvalue':
            vs = self.vals(a[0])
            if vs:
                self.put(i, set(vs))
        elif o in ('call', 'invoke'):
            self.call(I)

    def call(self, I):
        F, T = self.F, self.T
        f, a, i = I.get('f'), I.get('a', ()), I.get('i')
        if isinstance(f, int):
            nm = api_name(F, F.defs.get(f))
            if nm:
                return self.api(I, nm, a)
            for G in T.targets(F, I):
                self.apply(I, G, a)
            return
        if not isinstance(f, list) or f[0] != 'g':
            return
        name = f[1]
        if name.startswith('llvm.'):
            b = name.split('.')[1]
            if b in ('memcpy', 'memmove', 'memset'):
                ln = a[2][1] if isinstance(a[2], list) and a[2][0] == 'i' else None
                for v in list(self.vals(a[0])):
                    self.write(v, I)
                    if b != 'memset' and v[0][0] == 'l' and not v[1]:
                        for s in self.vals(a[1]):
                            c = (v[2], s, ln)
                            L = self.copies.setdefault(v[0], [])
                            if c not in L and s[0] != v[0] and len(L) < 40:
                                L.append(c)
                                self.ch = True
            elif 'masked' in name and 'store' in name or b == 'masked':
                if 'store' in name or 'scatter' in name:
                    for v in list(self.vals(a[1])):
                        self.write(v, I)
            elif name.startswith('llvm.x86') and ('store' in name or 'stream' in name or 'storeu' in name):
                for v in list(self.vals(a[0])):
                    self.write(v, I)
            elif name.startswith('llvm.threadlocal') and i is not None:
                self.put(i, {(('tls',), (), 0)})
            return
        G = T.lookup(F, name)
        if G is not None and G.blocks:
            return self.apply(I, G, a)
        dem = F.m.dem(name)
        sn = dem.split('(')[0]
        if name in ('_Znwm', '_Znam', 'malloc', 'calloc', 'aligned_alloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t') and i is not None:
            self.put(i, {(('l', i), (), 0)})
            return
        if name in CWRITES:
            for v in list(self.vals(a[CWRITES[name]])):
                self.write(v, I)
            if i is not None:
                self.put(i, set(self.vals(a[0])))
            return
        if re.match(r'(.* )?std::', dem) and '::' in sn and not re.search(r'\) const(\[abi:\w+\])?$', dem) and a and not re.match(r'(.* )?std::(mutex|atomic|__throw|operator)', dem):
            short = sn.split('::')[-1]
            if short not in ('data', 'c_str', 'begin', 'end', 'size', 'operator[]', 'at', 'lock', 'unlock', 'front', 'back'):
                for v in list(self.vals(a[0])):
                    self.write(v, I)
            if i is not None and I.get('t') == 'ptr':
                # references into the object
                self.put(i, {(r, d, '*') for r, d, x in self.vals(a[0])})
            return
        if i is not None and I.get('t') == 'ptr':
            self.put(i, {(('ext', sn or name), (), 0)})

    def api(self, I, nm, a):
        i = I.get('i')
        if nm in MAPW and len(a) > MAPW[nm]:
            for v in list(self.vals(a[MAPW[nm]])):
                self.write(v, I, 'map:' + nm)
        if nm in RW:
            for v in list(self.vals(a[0])):
                self.write(v, I, 'rw:' + nm)
        if nm == 'addFrameRef' and i is not None:
            self.put(i, {(('api', nm), (), 0)} | {x for x in self.vals(a[0]) if x[0] == ('api', 'getFrameFilter')})
            return
        if nm.startswith('mapGet') and len(a) >= 3 and nm not in ('mapGetKey', 'mapGetError'):
            for v in list(self.vals(a[-1])):
                self.write(v, I)
        for x in a:
            # outputs of API functions
            for v in self.vals(x) if isinstance(x, int) else ():
                if v[0][0] == 'l' and not v[1]:
                    pass
                elif nm in ('getVideoFormatByID', 'queryVideoFormat', 'queryAudioFormat', 'getCoreInfo') and x is a[0 if nm != 'getCoreInfo' else 1]:
                    self.write(v, I)
        if i is not None and I.get('t') == 'ptr':
            self.put(i, {(('api', nm), (), 0)})

    def subst(self, val, a, S):
        """a value of the callee's terms in ours"""
        r, d, o = val
        if r[0] != 'p':
            return {val}
        if r[1] >= len(a):
            return set()
        cur = set(self.vals(a[r[1]]))
        for step in d:
            nxt = set()
            for (rr, dd, oo) in cur:
                nxt |= self.deref((rr, dd, off_add(oo, step)))
            cur = nxt
        return {(rr, dd, off_add(oo, o)) for rr, dd, oo in cur}

    def apply(self, I, G, a):
        T, F = self.T, self.F
        S = T.summary(G)
        own = T.sums.get((id(self.F.m), self.F.name))
        if (id(G.m), G.name) in T.busy and S is not own:
            T.recursive = T.recursive | {(id(self.F.m), self.F.name), (id(G.m), G.name)}
        lib = not (G.file or '').startswith('/repo/')
        skip = set()
        if lib and G.dem:
            ps = params(G.dem)
            meth = len(G.args) - len(ps)
            if G.dem.endswith(' const') and meth > 0:
                skip.add(meth - 1)
            skip |= {k + meth for k, x in enumerate(ps) if unconst(x)}
        memo = {}
        for D, W in ((S.w, True), (S.r, False)):
            for k, at in list(D.items()):
                r, d, o = k[:3]
                if r[0] == 'l' or lib and r[0] == 'p' and r[1] in skip and W or r[0] == 'p' and r[1] >= len(a):
                    continue
                if (r, d, o) not in memo:
                    memo[(r, d, o)] = [v for v in self.subst((r, d, o), a, S) if v[0][0] != 'l']
                vs = memo[(r, d, o)]
                if not vs:
                    continue
                g = frozenset((subst_canon(e, a, F), p) for e, p in at[2]) if at[2] else at[2]
                m = frozenset(x for y in at[3] for x in self.subst(y, a, S)) if at[3] else at[3]
                who = at[:2] if (at[0].file or '').startswith('/repo/') else [F, I]
                for v in vs:
                    if W:
                        self.write(v, I, k[3], who + [g, m])
                    else:
                        self.note(self.S.r, v, I, who + [g, m])
        for (r, d, o), vs in list(S.st.items()):
            tv = set()
            for x in list(vs):
                tv |= self.subst(x, a, S)
            for v in self.subst((r, d, o), a, S):
                self.store(v, tv)
        if I.get('i') is not None:
            vs = set()
            for x in list(S.ret):
                vs |= self.subst(x, a, S)
            if vs:
                self.put(I['i'], vs)


def program():
    import build, core, glob
    us = build.filter_units() + [p for p in sorted(glob.glob(build.REPO + '/src/core/kernel/*.cpp') + glob.glob(build.REPO + '/src/core/kernel/x86/*.cpp') + glob.glob(build.REPO + '/src/core/expr/*.cpp'))
                                 if not p.endswith('/main.cpp')]
    return core.Program(us, 'flat')


# ---- filter creation sites

SITE = {'createVideoFilter': (3, 5, 8), 'createAudioFilter': (3, 5, 8), 'createVideoFilter2': (2, 4, 7), 'createAudioFilter2': (2, 4, 7)}
MODES = ['fmParallel', 'fmParallelRequests', 'fmUnordered', 'fmFrameState']
SMART = re.compile(r'(unique_ptr|shared_ptr)<.*>::(get|operator->|operator\*|release)\(')


class Sites:
    """where filters are made: the frame callback, the mode and what is known about the instance"""

    def __init__(self, T, F):
        self.T, self.F = T, F
        self.G = Guards(F)

    def inst(self, e):
        """canonical form in which the instance is ('inst',)"""
        if not isinstance(e, tuple):
            return e
        if e[0] == 'call' and isinstance(e[1], str) and len(e) == 3 and SMART.search(self.F.m.dem(e[1])):
            return self.inst(e[2])
        if e == self.data:
            return ('inst',)
        r = tuple(self.inst(x) for x in e)
        if r[0] == '+' and isinstance(r[1], tuple) and r[1][0] == '+':
            r = ('+', r[1][1], r[1][2] + r[2])
        return r

    def strip(self, e):
        while e[0] == 'call' and len(e) == 3 and SMART.search(self.F.m.dem(e[1])):
            e = e[2]
        return e

    def conds(self, cs):
        out = set()
        for e, p in cs:
            x = self.inst(e)
            out.add((x, p))
            for a in self.fields.get(x, ()):
                out.add((('ld', a), p))
        return out

    def values(self, o, depth=0):
        """[(constant, conditions)] an operand may have; None in place of what is not known"""
        F = self.F
        if isinstance(o, list):
            return [(o, set())]
        I = F.defs.get(o)
        if I is None or depth > 4:
            return [(None, set())]
        if I['o'] == 'select':
            e, p = truth(canon(F, I['a'][0]))
            return [(v, c | {(e, p if k == 0 else not p)}) for k in (0, 1) for v, c in self.values(I['a'][1 + k], depth + 1)]
        if 'ph' in I:
            out = []
            for p, x in I['ph']:
                cs = set(self.G.of(p))
                ed = self.G.edge(p, I['_b'])
                if ed:
                    cs.add(ed)
                out += [(v, c | cs) for v, c in self.values(x, depth + 1)]
            return out
        if I['o'] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            return self.values(I['a'][0], depth + 1)
        return [(None, set())]

    def run(self):
        F, out = self.F, []
        for I in F.insts():
            if I['o'] not in ('call', 'invoke') or not isinstance(I['f'], int):
                continue
            nm = api_name(F, F.defs.get(I['f']))
            if nm not in SITE:
                continue
            gf, md, da = SITE[nm]
            a = I['a']
            self.data = self.strip(canon(F, a[da]))
            self.fields = {}
            for J in F.insts():
                if J['o'] == 'store':
                    ad = self.inst(canon(F, J['a'][1]))
                    if ad[0] == '+' and ad[1] == ('inst',):
                        v = self.inst(truth(canon(F, J['a'][0]))[0])
                        if v[0] not in ('c', '?', 'ld'):
                            self.fields.setdefault(v, set()).add(ad)
            base = set(self.G.of(I['_b']))
            for g, gc in self.values(a[gf]):
                for m, mc in self.values(a[md]):
                    cs = self.conds(base | gc | mc)
                    if any((e, not p) in cs for e, p in cs):
                        continue
                    out.append((I, g[1] if g and g[0] == 'g' else None, m[1] if m and m[0] == 'i' else None, cs))
        return out


def callback_view(e):
    """a condition of a callback with the instance as ('inst',)"""
    if e == ('p', 2):
        return ('inst',)
    if not isinstance(e, tuple):
        return e
    return tuple(callback_view(x) for x in e)


def reasons(gs):
    """activation reasons compatible with the conditions"""
    out = []
    for r in (-1, 0, 1):
        ok = True
        for e, p in gs:
            if e == ('p', 1):
                ok &= (r != 0) == p
            elif e[0] == 'icmp' and e[2] == ('p', 1) and e[3][0] == 'c':
                v = e[3][1]
                if e[1] == 'eq':
                    ok &= (r == v) == p
                elif e[1] == 'slt':
                    ok &= (r < v) == p
        if ok:
            out.append(r)
    return out
