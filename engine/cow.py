"""Copy on write: what several owners can hold is only written by one that is known to be alone.

Objects: map storages, property arrays, frame planes. An object may be written when the function made it, when its
unique() was tested true, or when a helper that establishes one of these was called; helpers are followed."""
import re
from flow import *
from objs import Obj, is_field, is_fieldname, STOP

STORAGE, ARRAY, PLANE = 'VSMapStorage', 'VSArrayBase', 'VSPlaneData'
MAPREAD = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'size', 'empty', 'count', 'at', 'lower_bound', 'upper_bound', 'equal_range', 'contains', 'key_comp', 'value_comp', 'max_size',
           'get_allocator', 'map')
ARRREAD = ('add_ref', 'release', 'unique', 'type', 'size', 'copy', 'at', 'getDataPointer')


def storage_in(t):
    """the storage whose entries a place or iterator term belongs to"""
    out = []

    def w(x):
        if is_field(x, STORAGE, 'data') or is_field(x, STORAGE, 'error'):
            out.append(x[1])
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    w(y)
    w(t)
    return out[0] if out else None


def arr_method(sn):
    p = sn.split('::')
    return p[0] in ('VSArray', 'VSArrayBase') and p[1] or None


class Cow(Obj):
    def __init__(self, rep, root, judge):
        super().__init__(rep, root)
        self.judge = judge          # functions whose own writes are judged in this run (None: all)
        self.viol = []

    def event(self, F, I, dem, sn):
        if dem is None:
            return False
        return bool(mutation(sn, dem)) or sn in ('VSMap::detach', 'VSMap::clear') or sn.endswith('::unique') or sn == 'VSFrame::getWritePtr'

    def event_store(self, c, f):
        return (c, f) in ((STORAGE, 'error'), ('VSFrame', 'data'))

    def follows(self, G, sn):
        return sn.startswith('VSMap::') and not sn.endswith(('::VSMap', '::~VSMap'))

    def note(self, fl, st, rule, msg, I):
        F, b, n = st.stack[-1]
        if self.judge is not None and F.name not in self.judge:
            return
        self.viol.append((F, rule, F.loc(I), msg, ' '.join('%s=%d' % h for h in st.hist)))

    def alone(self, fl, st, x):
        return x[:2] == ('o', 'new') or x == C0 or fl.known(st, ('call', 'uniq', x)) == 1 or fl.known(st, x) == 0

    def wrote(self, fl, st, I, x, what):
        self.did('writes judged')
        if not self.alone(fl, st, x):
            self.note(fl, st, 'shared', '%s is changed although other maps or frames may still share it' % what, I)

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            # virtual copy()
            if len(args) == 2 and I.get('t') == 'ptr' and args[0][0] == 'ld' and mentions(args[0], args[1]):
                return self.new(fl, st, I)
            return None
        if self.stop(sn):
            return 'stop'
        if sn == 'operator new':
            return self.new(fl, st, I)
        p = sn.split('::')
        if p[-1] == 'unique' and p[0] in (STORAGE, ARRAY, PLANE, 'VSArray'):
            return ('call', 'uniq', args[0])
        if p[0] == PLANE and p[-1] == PLANE or p[0] == STORAGE and p[-1] == STORAGE or p[0] == 'VSArray' and p[-1] == 'VSArray':
            return ('u0',)
        if p[-1] in ('add_ref', 'release') and p[0] in (STORAGE, ARRAY, PLANE, 'VSArray'):
            if p[-1] == 'add_ref' and args:
                self.share(fl, st, args[0])
            return ('u0',)
        if sn.startswith('vs_intrusive_ptr::') and args:
            x = storage_in(args[0])
            if x is not None and p[-1] in ('operator=', 'reset', 'swap'):
                self.wrote(fl, st, I, x, 'an entry of a property map')
            if p[-1] in ('operator=', 'vs_intrusive_ptr') and len(args) > 1 and re.search(r'vs_intrusive_ptr<(VSMapStorage|VSArrayBase)> const&\)|vs_intrusive_ptr const&\)', dem):
                self.share(fl, st, fl.load(st, args[1]))
            return None
        m = mutation(sn, dem)
        if m == 'array':
            self.wrote(fl, st, I, args[0], 'a property value array')
            return ('u',) if 'i' in I else ('u0',)
        if m == 'storage':
            self.wrote(fl, st, I, args[0], 'a property map')
            return ('u',) if 'i' in I else ('u0',)
        if m == 'map':
            x = storage_in(args[0]) if args else None
            if x is not None:
                self.wrote(fl, st, I, x, 'a property map')
                for a in args[1:]:
                    y = storage_in(fl.byval(st, a))
                    if y is not None and y != x and 'erase' in sn:
                        self.note(fl, st, 'iterator', 'an entry is removed from a property map through an iterator of another one', I)
                if 'i' in I:
                    return fl.opq(st, I['i'], 'it')
                return ('u0',)
        return None

    def share(self, fl, st, x):
        """somebody else holds x from now on"""
        st.facts.pop(('call', 'uniq', x), None)

    def prestore(self, fl, st, I, p, v, old):
        if is_field(p, STORAGE, 'error') and I['o'] == 'store':
            self.wrote(fl, st, I, p[1], 'the error state of a property map')

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        if self.root == 'write':
            v = fl.val(st, I['a'][0])
            if v == C0:
                return
            self.did('write pointers judged')
            xs = []

            def w(t):
                if is_field(t, PLANE, 'data'):
                    xs.append(t[1])
                elif isinstance(t, tuple):
                    for y in t:
                        if isinstance(y, tuple):
                            w(y)
            w(v)
            if not xs:
                self.rep.cannot(F.dem.split('(')[0], 'the returned pointer cannot be related to a plane')
            for x in xs[:1]:
                if not self.alone(fl, st, x):
                    self.note(fl, st, 'shared', 'a pointer for writing is handed out for a plane other frames may still share', I)
                y = x
                d = None
                if x[:2] == ('o', 'new'):
                    d = [pl for pl, val in st.mem.items() if val == x and data_slot(pl)]
                    if not d:
                        self.note(fl, st, 'lost', 'the copy made for writing is not kept by the frame', I)


class Unique(Obj):
    """unique() is true for exactly one reference"""
    def call(self, fl, st, I, dem, sn, args):
        return 'stop' if dem and self.stop(sn) else None

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        v = fl.val(st, I['a'][0])
        if v[0] == 'c':
            # decided by branches
            ok = any(isinstance(t, tuple) and t[0] == 'ld' and f == ('eq', 1) for t, f in st.facts.items())
            if v[1] and not ok:
                self.bad(fl, st, 'unique', 'an object is taken to be held once although its count is not known to be 1', I)
            return
        a, k, eq = cond(v)
        if a[0] == 'ld' and k == 1 and eq:
            return
        if a[0] == 'slt' and a[2] == ('c', 2) and a[1][0] == 'ld' and (k == 0) != eq:
            return
        self.bad(fl, st, 'unique', 'unique() is not the test whether the reference count is 1', I)


def of(t, a):
    """does the pointer lie in the object a"""
    while isinstance(t, tuple) and t[0] in ('f', 'off', 'idx'):
        t = t[1]
    return t == a


class Copy(Obj):
    """the copies made before writing hold what the original held"""
    this, other = ('arg', 0), ('arg', 1)

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return None
        if self.stop(sn):
            return 'stop'
        m = sn.split('::')[-1]
        if len(args) > 1 and of(args[0], self.this) and of(args[1], self.other) and (m == 'operator=' or '::' in sn and m == sn.split('::')[-2]):
            st.set('copied', 2 if sn.startswith('std::') else max(1, st.get('copied', 0)))
        if sn == 'memcpy' or sn == 'memmove':
            self.block(fl, st, I, sn, args)
        if sn.endswith('MemoryUse::allocate'):
            fl.forget(st, fl.opq(st, I['i']))
            st.set('room', args[1])
            return fl.opq(st, I['i'])
        return None

    def block(self, fl, st, I, what, args):
        if self.root == PLANE and what.startswith('mem') and what != 'memset':
            f = lambda o: ('f', o, PLANE, 'data')
            src = fl.load(st, f(self.other))
            n = args[2]
            sizes = [fl.load(st, ('f', o, PLANE, 'size')) for o in (self.this, self.other)]
            if args[0] == fl.load(st, f(self.this)) and args[1] == src and n in sizes:
                st.set('copied', 2)

    def prestore(self, fl, st, I, p, v, old):
        if of(p, self.this) and p != self.this:
            x = v
            while x[0] in ('zext', 'trunc', 'sext'):
                x = x[1]
            if x[0] == 'ld' and of(x[1], self.other):
                if is_fieldname(p, 'fsize') or is_fieldname(p, 'ftype') or is_fieldname(p, 'error') or is_fieldname(p, 'size') or is_fieldname(p, 'mem'):
                    st.set(p[3], 1)
                else:
                    st.set('copied', max(1, st.get('copied', 0)))

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        self.did('copies judged')
        c = st.get('copied', 0)
        if self.root == PLANE:
            if c != 2:
                self.bad(fl, st, 'copy', 'the copy of a plane does not receive all of its bytes', I)
            if not st.get('size'):
                self.bad(fl, st, 'copy', 'the copy of a plane does not have its size', I)
        elif self.root == STORAGE:
            if c != 2:
                self.bad(fl, st, 'copy', 'the copy of a property map does not receive its entries', I)
            if not st.get('error'):
                self.bad(fl, st, 'copy', 'the copy of a property map does not receive its error state', I)
        else:
            sz = fl.load(st, ('f', self.other, ARRAY, 'fsize'))
            if not st.get('fsize'):
                self.bad(fl, st, 'copy', 'the copy of a property array does not receive its length', I)
            zero = fl.known(st, sz) == 0
            one = fl.known(st, ('icmp', 'eq', sz, ('c', 1))) == 1
            atmost1 = fl.known(st, ('icmp', 'ugt', sz, ('c', 1))) == 0
            not1 = fl.known(st, ('icmp', 'eq', sz, ('c', 1))) == 0
            if zero or atmost1 and not1:
                return
            if one and not c or not one and c != 2:
                self.bad(fl, st, 'copy', 'the copy of a property array does not receive its elements', I)


def data_slot(p):
    while isinstance(p, tuple) and p[0] in ('off', 'idx'):
        p = p[1]
    return is_field(p, 'VSFrame', 'data')


def mutation(sn, dem):
    p = sn.split('::')
    if p[0] == 'VSArray' or p[0] == 'VSArrayBase':
        m = p[-1].lstrip('~')
        if m in ('VSArray', 'VSArrayBase') or m in ARRREAD or dem.endswith(' const'):
            return None
        return 'array'
    if p[0] == STORAGE and p[-1] not in ('unique', 'add_ref', 'release', STORAGE, '~' + STORAGE) and not dem.endswith(' const'):
        return 'storage'
    if re.search(r'\bstd::map<.*vs_intrusive_ptr<VSArrayBase>', dem) and re.search(r'std::map::(\w+(\[abi:\w+\])?|operator\[\]|operator=)$', sn) or \
       sn.endswith('::insert') and 'vs_intrusive_ptr<VSArrayBase>' in dem:
        m = p[-1].split('[abi')[0]
        if m in MAPREAD or m.startswith('~'):
            return None
        return 'map'
    return None


def run(P, rep, c, F, limit=20000):
    fl = Flow(P, c, limit=limit)
    fl.root = F
    fl._wants, fl._mods, fl._api = P.__dict__.get('_cw', (None, None, None))
    try:
        n = fl.run(F)
    except TooBig:
        rep.cannot(F.dem.split('(')[0], 'too many abstract states')
        n = 0
    fl.wants()
    fl.mods()
    P._cw = (fl._wants, fl._mods, fl._api)
    return n


def writers(P):
    """functions that write shared objects themselves"""
    out = []
    fl = Flow(P, Client())
    for F in P.repo_funcs():
        cl = F.dem.split('::')[0].split('<')[0]
        if cl.split(' ')[-1] in (STORAGE, 'VSArray', 'VSArrayBase', 'VSPlaneData', 'vs_intrusive_ptr'):
            continue
        hit = False
        for I in F.insts():
            if I['o'] in ('call', 'invoke'):
                n, dem = fl.callee(F, I)
                if dem:
                    sn = short_name(dem)
                    if mutation(sn, dem) or sn in ('vs_intrusive_ptr::operator=',) and 'VSArrayBase' in dem:
                        hit = True
            elif I['o'] == 'store':
                f = fl.fieldof(F, I['a'][1])
                if f == (STORAGE, 'error'):
                    hit = True
        if hit:
            out.append(F)
    return out


def callers(P):
    r = {}
    for F in P.repo_funcs():
        for I in F.insts():
            if I['o'] in ('call', 'invoke'):
                f = I.get('f')
                if isinstance(f, list) and f[0] == 'g':
                    r.setdefault(f[1], []).append(F)
    return r


def analyse(P, rep):
    tot = {}
    C = callers(P)

    def go(F, judge, root=None):
        c = Cow(rep, root, judge)
        tot['abstract states'] = tot.get('abstract states', 0) + run(P, rep, c, F)
        for k, v in c.seen.items():
            tot[k] = tot.get(k, 0) + v
        return c.viol

    def judged(F, judge, depth):
        v = go(F, judge)
        if not v:
            return []
        # what a helper relies on can be its callers' doing
        cs = [G for G in {id(g): g for g in C.get(F.name, ())}.values() if G.name != F.name]
        if not cs or depth == 0 or F.name in P.in_tables:
            return v
        out = []
        for G in cs:
            w = judged(G, judge, depth - 1)
            out += w
        return out
    for F in writers(P):
        tot['functions writing shared objects'] = tot.get('functions writing shared objects', 0) + 1
        for G, rule, loc, msg, path in judged(F, {F.name}, 2):
            rep.violation(rule, loc, G.dem.split('(')[0], msg, path=path)
    for F in P.repo_funcs():
        m = re.match(r'(VSMapStorage|VSArrayBase|VSPlaneData)::unique\(\)', F.dem)
        if m:
            c = Unique(rep, F)
            run(P, rep, c, F)
            tot['uniqueness tests'] = tot.get('uniqueness tests', 0) + 1
    for F in P.repo_funcs():
        m = re.match(r'(VSMapStorage|VSPlaneData|VSArray<.*>)::(VSMapStorage|VSPlaneData|VSArray)\((VSMapStorage|VSPlaneData|VSArray<.*>) const&\)$', F.dem)
        if m:
            c = Copy(rep, m.group(2))
            run(P, rep, c, F)
            tot['copies judged'] = tot.get('copies judged', 0) + c.seen.get('copies judged', 0)
    for F in P.by_dem('VSFrame::getWritePtr'):
        for G, rule, loc, msg, path in go(F, None, 'write'):
            rep.violation(rule, loc, G.dem.split('(')[0], msg, path=path)
    return tot
