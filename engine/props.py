"""The property map contract: what reading and writing a typed value through the API may do.

Terms: ('call','find',map,key) is the array stored under a key, its type and size are fields of VSArrayBase,
('elem',array,index,type) an element read as a type."""
import re
from flow import *
from objs import Obj, is_field, is_fieldname, slots
import cow

ARR = 'VSArrayBase'
TYPES = {'Int': (1,), 'Float': (2,), 'Data': (3,), 'Function': (4,), 'Func': (4,), 'Node': (5, 6), 'Frame': (7, 8)}
NAMES = {0: 'unset', 1: 'int', 2: 'float', 3: 'data', 4: 'function', 5: 'video node', 6: 'audio node', 7: 'video frame', 8: 'audio frame'}
MTYPE = {5: ('VSNode', 1), 6: ('VSNode', 2), 7: ('VSFrame', 1), 8: ('VSFrame', 2)}
GET = re.compile(r'^(?:map|prop)Get(Int|Float|Data|Node|Frame|Function|Func)(Array|Saturated|Size|TypeHint)?$')
SET = re.compile(r'^(?:map(?:Set|Consume)|propSet)(Int|Float|Data|Node|Frame|Function|Func)(Array)?$')


def ptype(dem):
    m = re.search(r'\(VSPropertyType\)(\d+)>', dem)
    return int(m.group(1)) if m else None


def strip(t):
    while t[0] in ('zext', 'sext', 'trunc', 'freeze'):
        t = t[1]
    return t


class Props(Obj):
    def __init__(self, rep, root, kind, types, slot):
        super().__init__(rep, root)
        self.kind, self.types, self.slot = kind, types, slot
        self.nargs = 0
        self.visited = set()

    def event(self, F, I, dem, sn):
        return bool(dem) and (sn.startswith('VSArray::') or sn.startswith('VSMap::'))

    def event_store(self, c, f):
        return (c, f) == ('VSMapStorage', 'error')

    def key(self, fl, st):
        k = super().key(fl, st)
        if self.kind == 'get':
            e = self.err
            k = k, st.mem.get(e), fl.known(st, e)
        ix = ('arg', self.index) if self.kind == 'get' and self.index else None
        return k, fl.known(st, ('arg', 2)), frozenset((t, f) for t, f in st.facts.items() if anyterm(t, lambda x: isinstance(x, tuple) and (x[:2] == ('call', 'find') or x == ix)))

    def follow_args(self, args):
        return self.kind == 'get' and self.err in args

    def branch(self, fl, st, I, c, outcome):
        a, k, eq = cond(c)
        if a[0] == 'al' and k == 0:
            return bool(outcome) != eq

    # ---- facts

    def size(self, fl, st, a):
        return fl.load(st, ('f', a, ARR, 'fsize'))

    def type(self, fl, st, a):
        return fl.load(st, ('f', a, ARR, 'ftype'))

    def typeis(self, fl, st, a, n):
        t = self.type(fl, st, a)
        if t[0] == 'c':
            return int(t[1] == n)
        return fl.known(st, ('icmp', 'eq', t, ('c', n)))

    def any(self, fl, st, forms):
        for t, want in forms:
            k = fl.known(st, t)
            if k is not None:
                return bool(k) == bool(want)
        return None

    def inside(self, fl, st, a, i):
        """is i a valid index of a"""
        s = self.size(fl, st, a)
        b = strip(i)
        lo = b[1] >= 0 if b[0] == 'c' else self.any(fl, st, [(('icmp', 'sge', b, C0), 1), (('icmp', 'sge', i, C0), 1), (('icmp', 'sgt', b, ('c', -1)), 1)])
        un = self.any(fl, st, [(('icmp', 'ult', x, y), 1) for x in {i, b, ('sext', b), ('zext', b)} for y in {s, ('trunc', s)}])
        if un:
            return True
        hi = self.any(fl, st, [(('icmp', 'slt', x, y), 1) for x in {b, i} for y in {s, ('trunc', s)}])
        if b == C0 and hi is None:
            hi = self.any(fl, st, [(('icmp', 'ne', s, C0), 1), (('icmp', 'ne', ('trunc', s), C0), 1)])
        if b[0] == 'c' and hi is None:
            k = fl.known(st, ('icmp', 'eq', s, ('c', b[1] + 1)))
            hi = True if k else None
        if lo is False or hi is False or un is False:
            return False
        return True if lo and hi else None

    def errstate(self, fl, st):
        """is the map known to carry an error"""
        for t, f in st.facts.items():
            if t[0] == 'ld' and is_field(t[1], 'VSMapStorage', 'error'):
                return f == ('eq', 1) or f[0] == 'ne' and 0 in f[1]
        return None

    def finds(self, st):
        out = set()

        def w(t):
            if t[:2] == ('call', 'find'):
                out.add(t)
            for x in t:
                if isinstance(x, tuple):
                    w(x)
        for t in st.facts:
            w(t)
        return out

    # ---- events

    def access(self, fl, st, I, a, i, n):
        self.did('typed element accesses')
        self.visited.add(st.stack[-1][0].name)
        if a[:2] == ('o', 'new') and self.typeis(fl, st, a, n):
            return
        if self.atkey(a) == '_Error':
            if self.errstate(fl, st) is not True:
                self.bad(fl, st, 'error', 'the error message of a property map is read although the map is not known to carry an error', I)
            if n != 3:
                self.bad(fl, st, 'type', 'the error message of a property map is read as %s' % NAMES.get(n, n), I)
            return
        if fl.known(st, a) != 1:
            self.bad(fl, st, 'unset', 'an element is read from a value array that may not exist', I)
        elif not self.typeis(fl, st, a, n):
            self.bad(fl, st, 'type', 'a value array is read as %s without having been tested to be one' % NAMES.get(n, n), I)
        elif not self.inside(fl, st, a, i):
            self.bad(fl, st, 'index', 'an element is read at an index that may lie outside the value array', I)

    def atkey(self, a):
        r = []

        def w(t):
            if t[:1] == ('str',):
                r.append(t[1])
            for x in t:
                if isinstance(x, tuple):
                    w(x)
        if a[:2] == ('call', 'find'):
            return None
        w(a)
        return r[0] if len(r) == 1 else None

    def keyok(self, fl, st, k):
        """the caller's key, or the name it is an alias of"""
        if k == ('arg', 1):
            return True
        if k == ('str', '_Range'):
            return fl.known(st, ('call', 'strcmp', ('arg', 1), ('str', '_ColorRange'))) == 0 or fl.known(st, ('call', 'strcmp', ('str', '_ColorRange'), ('arg', 1))) == 0
        return False

    def judgekey(self, fl, st, I, k):
        if self.kind and self.types == (1,) and k == ('arg', 1):
            s = ('str', '_ColorRange')
            if not fl.known(st, ('call', 'strcmp', ('arg', 1), s)) and not fl.known(st, ('call', 'strcmp', s, ('arg', 1))):
                self.bad(fl, st, 'alias', 'the property _ColorRange is not taken as another name of _Range', I)
        if self.kind and self.kind != 'query' and not self.keyok(fl, st, k):
            self.bad(fl, st, 'key', 'a property other than the one asked for is %s' % ('read' if self.kind == 'get' else 'changed'), I)

    def mutated(self, st, what):
        st.set('mut', tuple(sorted(set(st.get('mut', ())) | {what})))

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return None
        if self.stop(sn):
            return 'stop'
        if sn == 'operator new':
            return self.new(fl, st, I)
        if sn == 'strcmp':
            return ('call', 'strcmp', args[0], args[1])
        m = sn.split('::')
        if sn.endswith('basic_string::basic_string') and len(args) >= 2:
            if re.search(r'\(char const\*, std::allocator<char> const&\)$', dem):
                fl.do_store(st, I, args[0], args[1])
            elif re.search(r'const&\)$|&&\)$', dem):
                fl.do_store(st, I, args[0], fl.load(st, args[1]))
            else:
                return None
            return ('u0',)
        if sn.endswith('basic_string::~basic_string'):
            st.mem.pop(args[0], None)
            return ('u0',)
        if sn.endswith('basic_string::operator=') and len(args) == 2:
            fl.do_store(st, I, args[0], fl.load(st, args[1]) if '&)' in dem else args[1])
            return args[0]
        if m[0] == 'VSArray':
            n = ptype(dem)
            x = m[-1]
            if x == 'VSArray':
                st.mem[('f', args[0], ARR, 'ftype')] = ('c', n)
                if len(args) == 1:
                    st.mem[('f', args[0], ARR, 'fsize')] = C0
                elif len(args) == 3:
                    st.set('filled', (args[0], args[1], args[2]))
                return ('u0',)
            if x == 'at':
                self.access(fl, st, I, args[0], args[1], n)
                return ('elem', args[0], args[1], ('c', n))
            if x == 'getDataPointer':
                self.access(fl, st, I, args[0], C0, n)
                return ('elem', args[0], C0, ('c', n))
            if x == 'push_back':
                self.push(fl, st, I, args[0], args[1], n)
                return ('u0',)
            return None
        if m[0] == ARR and m[-1] in ('size', 'type', 'unique', 'add_ref', 'release'):
            if m[-1] == 'size':
                return self.size(fl, st, args[0])
            if m[-1] == 'type':
                return self.type(fl, st, args[0])
            return ('u',) if 'i' in I else ('u0',)
        if m[0] == 'VSMap' and self.root.name != fl.callee(st.stack[-1][0], I)[0]:
            x = m[-1]
            if x == 'find' and len(args) == 2:
                k = fl.load(st, args[1])
                self.judgekey(fl, st, I, k)
                return ('call', 'find', args[0], k)
            if x == 'detach':
                if len(args) == 2:
                    k = fl.load(st, args[1])
                    self.judgekey(fl, st, I, k)
                    return ('call', 'find', args[0], k)
                return ('u',) if 'i' in I else ('u0',)
            if x == 'insert' and len(args) == 3:
                self.insert(fl, st, I, args[0], fl.load(st, args[1]), args[2])
                return ('u0',)
            if x in ('erase', 'clear', 'copy', 'setError', 'operator='):
                if self.kind == 'set':
                    self.bad(fl, st, 'other', 'setting a property also changes other contents of the map', I)
                return ('u',) if 'i' in I else ('u0',)
        if m[-1] in ('getNodeType', 'getFrameType') and args:
            return fl.load(st, ('f', args[0], m[0], 'mtype'))
        G = fl.P.funcs.get(fl.callee(st.stack[-1][0], I)[0])
        if G is not None and (G.file or '').startswith('/repo/') and I.get('t') in ('i1', 'i8', 'i32') and len(args) == 1 and any(x == ('arg', 1) or x[0] == 'str' for x in [self.text(fl, st, a) for a in args]) and \
                not fl.mods().get(G.name) and not fl.wants() & {G.name}:
            return ('call', 'pred:' + sn, self.text(fl, st, args[0]))
        return None

    def text(self, fl, st, a):
        if a[0] == 'al' and a in st.mem:
            return st.mem[a]
        if a[0] == 'call' and a[1].endswith(('c_str', 'data')) and len(a) > 2:
            return a[2][1] if a[2][0] == 'at' else a[2]
        return a

    def models(self, sn):
        return True

    def push(self, fl, st, I, a, v, n):
        self.did('elements stored')
        self.visited.add(st.stack[-1][0].name)
        if not self.typeis(fl, st, a, n):
            self.bad(fl, st, 'type', 'a value array is written as %s without having been tested to be one' % NAMES.get(n, n), I)
        if a[:2] == ('o', 'new'):
            k = 'pushed:' + repr(a)
            st.set(k, st.get(k, 0) + 1)
        else:
            if fl.known(st, a) != 1:
                self.bad(fl, st, 'unset', 'an element is appended to a value array that may not exist', I)
            self.mutated(st, ('append', n))
            self.settype(fl, st, I, n)
            self.mode(fl, st, I, 'append', a)
        if self.kind == 'set' and n in (1, 2, 4, 5, 6, 7, 8):
            w = fl.load(st, v)
            ok = mentions(w, ('arg', 2)) or w[0] == 'c' and any(mentions(t, ('arg', 2)) for t in st.facts)
            if not ok:
                self.bad(fl, st, 'value', 'the value stored in the property is not the one given', I)
            elif n == 1:
                self.integer(fl, st, I, w, ('arg', 2), False, 'stored')

    def settype(self, fl, st, I, n):
        if self.kind != 'set':
            return
        if self.types is None:
            if fl.known(st, ('icmp', 'eq', ('arg', 2), ('c', n))) != 1:
                self.bad(fl, st, 'type', 'a value array of type %s is made although another type was asked for' % NAMES.get(n, n), I)
            return
        if n not in self.types:
            self.bad(fl, st, 'type', 'a value array of type %s is stored by %s' % (NAMES.get(n, n), self.slot), I)
        elif n in MTYPE:
            c, want = MTYPE[n]
            f = [t for t in st.facts if t[0] == 'ld' and t[1] == ('f', ('arg', 2), c, 'mtype')]
            null = fl.known(st, ('arg', 2)) == 0
            if null and want == 1:
                return
            t = ('ld', ('f', ('arg', 2), c, 'mtype'))
            k = fl.known(st, ('icmp', 'eq', t, ('c', want)))
            k2 = fl.known(st, ('icmp', 'eq', t, ('c', 3 - want)))
            if not (k == 1 or k2 == 0):
                self.bad(fl, st, 'type', 'a value array of type %s is stored without knowing that the value is one' % NAMES[n], I)

    def mode(self, fl, st, I, what, a=None):
        """does the append argument ask for this"""
        if self.kind != 'set' or not self.append:
            return
        ap = ('arg', self.append)
        isv = lambda k: fl.known(st, ('icmp', 'eq', ap, ('c', k)))
        replace, append, touch = isv(0), isv(1), isv(2)
        absent = any(fl.known(st, t) == 0 for t in self.finds(st))
        if what == 'append' and append != 1 and not (replace == 0 and touch == 0):
            self.bad(fl, st, 'mode', 'a value is appended although appending was not asked for', I)
        if what == 'insert1' and replace != 1 and not absent:
            self.bad(fl, st, 'mode', 'an existing property is overwritten although replacing it was not asked for', I)
        if what == 'insert1' and touch == 1:
            self.bad(fl, st, 'mode', 'a value is stored although only an empty property was asked for', I)
        if what == 'insert0' and (replace == 1 or append == 1 or not absent):
            self.bad(fl, st, 'mode', 'an empty property is stored although %s' % ('it may exist' if touch == 1 else 'a value was given'), I)

    def insert(self, fl, st, I, m, k, a):
        self.did('value arrays put into maps')
        self.visited.add(st.stack[-1][0].name)
        t = self.type(fl, st, a)
        n = t[1] if t[0] == 'c' else None
        self.judgekey(fl, st, I, k)
        self.mutated(st, ('insert', n if n is not None else -1))
        if self.kind != 'set':
            return
        if n is None:
            self.bad(fl, st, 'type', 'a value array of unknown type is put into the map', I)
            return
        self.settype(fl, st, I, n)
        pushed = st.get('pushed:' + repr(a), 0)
        filled = st.get('filled')
        if self.types is None:
            absent = any(fl.known(st, t) == 0 for t in self.finds(st))
            if pushed:
                self.bad(fl, st, 'value', 'a property that is to be empty is given a value', I)
            if not absent:
                self.bad(fl, st, 'mode', 'an existing property may be replaced by an empty one', I)
        elif self.append:
            if pushed > 1:
                self.bad(fl, st, 'value', 'the value is stored more than once', I)
            self.mode(fl, st, I, 'insert%d' % min(pushed, 1))
        elif filled is None or filled[0] != a:
            self.bad(fl, st, 'value', 'the array stored in the property is not filled', I)
        else:
            if strip(filled[2]) != ('arg', 3):
                self.bad(fl, st, 'value', 'the number of values stored is not the one given', I)
            if not mentions(filled[1], ('arg', 2)) and k == ('arg', 1):
                self.bad(fl, st, 'value', 'the values stored are not the ones given', I)
        valid = [t for t, f in st.facts.items() if t[0] == 'call' and t[1].startswith('pred:') and fl.known(st, t) == 1]
        if k == ('arg', 1) and not valid:
            self.bad(fl, st, 'name', 'a property is stored under a key that was not tested to be a valid name', I)

    # ---- ends

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        if self.kind == 'get':
            self.getret(fl, st, I, v)
        elif self.kind == 'set':
            self.setret(fl, st, I, v)
        elif self.kind == 'query':
            self.did('results of queries judged')
            fs = [t for t in terms(v) if t[:2] == ('call', 'find')] or list(self.finds(st))
            if not fs:
                self.bad(fl, st, 'query', 'the answer does not depend on the property asked for', I)
                return
            t = fs[0]
            if v[0] == 'c':
                if fl.known(st, t) != 0 or v[1] != self.absent:
                    self.bad(fl, st, 'query', '%d is the answer for a property that %s' % (v[1], 'does not exist' if fl.known(st, t) == 0 else 'may exist'), I)
            elif fl.known(st, t) != 1:
                self.bad(fl, st, 'query', 'a property that may not exist is asked for its contents', I)
            elif strip(v) != (self.size(fl, st, t) if self.absent else self.type(fl, st, t)):
                self.bad(fl, st, 'query', 'the answer is not the %s of the property' % ('number of values' if self.absent else 'type'), I)

    def setret(self, fl, st, I, v):
        self.did('results of setters judged')
        mut = st.get('mut', ())
        k = fl.known(st, v)
        if k is None:
            if any(t[:1] in (('o',), ('u',)) for t in terms(v)):
                self.rep.cannot(self.root.dem.split('(')[0], 'result not understood')
            else:
                self.bad(fl, st, 'result', 'the result does not say whether the property was changed', I)
            return
        if k == 0 and not mut:
            self.bad(fl, st, 'result', 'success is reported although nothing was stored', I)
        if k and mut:
            self.bad(fl, st, 'result', 'failure is reported although the property was changed', I)
        if k and not mut and self.append:
            # refused: the key is no name, or there is a value of another type, or touching what exists
            ap = ('arg', self.append)
            isv = lambda x: fl.known(st, ('icmp', 'eq', ap, ('c', x)))
            named = [t for t in st.facts if t[0] == 'call' and t[1].startswith('pred:')]
            if any(fl.known(st, t) == 0 for t in named):
                return
            exists = [t for t in self.finds(st) if fl.known(st, t) == 1]
            if isv(0) == 1:
                self.bad(fl, st, 'mode', 'a valid property is not replaced', I)
            elif not exists:
                self.bad(fl, st, 'mode', 'a property that does not exist is not made', I)
            elif isv(1) == 1 and not any(any(self.typeis(fl, st, t, n) == 0 for n in self.types) for t in exists):
                self.bad(fl, st, 'mode', 'a value of the right type is not appended', I)

    def getret(self, fl, st, I, v):
        self.did('results of getters judged')
        e = self.err
        elem = []

        def w(t):
            if t[:1] == ('elem',):
                elem.append(t)
            for x in t:
                if isinstance(x, tuple):
                    w(x)
        w(v)
        if not elem:
            for t in st.facts:
                w(t)
        got = elem[0] if elem else None
        if fl.known(st, e) == 0:
            if got is None:
                self.bad(fl, st, 'fatal', 'a failed read without an error output returns instead of ending the program', I)
        else:
            c = st.mem.get(e)
            if c is None:
                if fl.known(st, e) is None:
                    # nothing was decided about the output: it was never written
                    pass
                self.bad(fl, st, 'noerror', 'the error output is not set', I)
            elif c[0] != 'c':
                self.rep.cannot(self.root.dem.split('(')[0], 'error code not understood')
            elif got is not None and c[1] != 0:
                self.bad(fl, st, 'code', 'a successful read reports the error code %d' % c[1], I)
            elif got is None and c[1] == 0:
                self.bad(fl, st, 'code', 'a failed read reports success', I)
            elif got is None:
                self.why(fl, st, I, c[1])
        if got is not None:
            n = got[3][1]
            if self.types and n not in self.types:
                self.bad(fl, st, 'type', '%s reads a value of type %s' % (self.slot, NAMES.get(n, n)), I)
            i = strip(got[2])
            if self.index and i != ('arg', self.index):
                self.bad(fl, st, 'index', 'the element read is not the one asked for', I)
            if self.errstate(fl, st) is not False:
                self.bad(fl, st, 'error', 'a value is read from a map without knowing that it carries no error', I)
            self.narrow(fl, st, I, v, got)
        elif v[0] not in ('c', 'k', 'str', 'u'):
            if any(t[:2] == ('call', 'find') for t in terms(v)):
                self.bad(fl, st, 'value', 'a failed read returns something of the map', I)

    def why(self, fl, st, I, code):
        fs = self.finds(st)
        if code == 3:
            ok = self.errstate(fl, st) is True
        elif self.errstate(fl, st) is not False:
            ok = False
        elif code == 1:
            ok = any(fl.known(st, t) == 0 for t in fs)
        elif code == 4:
            i = ('arg', self.index) if self.index else C0
            ok = any(fl.known(st, t) == 1 and self.inside(fl, st, t, i) is False for t in fs)
        elif code == 2:
            ok = any(fl.known(st, t) == 1 and all(self.typeis(fl, st, t, n) == 0 for n in self.types) for t in fs)
        else:
            ok = False
        if not ok:
            self.bad(fl, st, 'code', 'a failed read reports the error code %d, which is not what went wrong' % code, I)

    def narrow(self, fl, st, I, v, got):
        if got[3][1] == 1 and self.root.dtypes[0] in ('int', 'long', 'int64_t'):
            self.integer(fl, st, I, v, ('ld', got), self.root.dtypes[0] == 'int', 'handed out')

    def integer(self, fl, st, I, v, x, small, what):
        """how integers come through, followed for the values that matter: 32 bit results are saturated, _ColorRange is _Range with 0 and 1 swapped"""
        self.did('integer conversions judged')
        LO, HI = -2**31, 2**31 - 1

        def ev(t, X):
            if t == x:
                return X
            k = t[0]
            if k == 'c':
                return t[1] - 2**64 if t[1] >= 2**63 else t[1]
            if k in ('slt', 'ult', 'same', 'add', 'sub') and len(t) == 3:
                a, b = ev(t[1], X), ev(t[2], X)
                if a is None or b is None:
                    return None
                return a + b if k == 'add' else a - b if k == 'sub' else int(a < b) if k == 'slt' else int(a % 2**64 < b % 2**64) if k == 'ult' else int(a == b)
            if k == 'trunc':
                a = ev(t[1], X)
                return None if a is None else (a + 2**31) % 2**32 - 2**31
            if k in ('sext', 'zext', 'freeze'):
                return ev(t[1], X)
            if k == 'select':
                c = cond(t[1])
                a = ev(c[0], X)
                return None if a is None else ev(t[2] if (a == c[1]) == c[2] else t[3], X)
            if k == 'call' and len(t) == 4 and t[1] in ('std::min', 'std::max', 'smin', 'smax'):
                a, b = ev(t[2], X), ev(t[3], X)
                return None if a is None or b is None else (min if 'min' in t[1] else max)(a, b)
            return None
        s = ('str', '_ColorRange')
        alias = fl.known(st, ('call', 'strcmp', ('arg', 1), s)) == 0 or fl.known(st, ('call', 'strcmp', s, ('arg', 1))) == 0
        for X in (-2**63, -2**32, LO - 1, LO, LO + 1, -1, 0, 1, 2, HI - 1, HI, HI + 1, 2**32, 2**63 - 1):
            ok = True
            for t, f in st.facts.items():
                y = ev(t, X) if anyterm(t, lambda z: z == x) else None
                if y is not None and (f[0] == 'eq' and y != (f[1] - 2**64 if f[1] >= 2**63 else f[1]) or f[0] == 'ne' and y in f[1]):
                    ok = False
            if not ok:
                continue
            r = ev(v, X)
            if r is None:
                self.rep.cannot(self.root.dem.split('(')[0], 'integer conversion not understood')
                return
            want = 1 - X if alias and X in (0, 1) else X
            if small:
                r = (r + 2**31) % 2**32 - 2**31
                want = max(LO, min(HI, want))
            if r != want:
                self.bad(fl, st, 'integer', 'the integer %d is %s as %d' % (X, what, r), I)
                return


def terms(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from terms(x)


class Rep(Obj):
    """VSArray keeps one value in place and several in the vector: reading, adding and making follow that"""
    def event(self, F, I, dem, sn):
        return False

    def part(self, p):
        """which storage of the object the place belongs to"""
        while isinstance(p, tuple) and p[0] in ('f', 'off', 'idx'):
            if p[0] == 'off' and p[1][0] == 'arg':
                return p[1], 'data' if p[2] in self.vec else 'singleData'
            p = p[1]
        return None

    def count(self, fl, st, o):
        """0, 1, '>1' or '!=1' or None"""
        s = ('ld', ('f', o, ARR, 'fsize'))
        z = fl.known(st, s)
        one = fl.known(st, ('icmp', 'eq', s, ('c', 1)))
        gt = fl.known(st, ('icmp', 'ugt', s, ('c', 1)))
        if z == 0:
            return 0
        if one == 1 or gt == 0 and z == 1:
            return 1
        if gt == 1 or z == 1 and one == 0:
            return 2
        if one == 0:
            return -1
        return None

    def use(self, fl, st, I, o, part, what):
        c = self.count(fl, st, o) if o == ('arg', 0) or o == ('arg', 1) else None
        st.set('use', tuple(sorted(set(st.get('use', ())) | {(o, part, what)})))

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return None
        if self.stop(sn):
            return 'stop'
        m = sn.split('::')[-1]
        ps = [self.part(a) for a in args]
        if ps and ps[0] and ps[0][1] == 'data':
            if m in ('push_back', 'emplace_back'):
                src = self.part(args[1]) if len(args) > 1 else None
                what = 'own' if src and src[1] == 'singleData' else 'new'
                st.set('push', st.get('push', ()) + (what,))
                return ('u0',)
            if m in ('at', 'operator[]', 'data'):
                self.use(fl, st, I, ps[0][0], 'data', 'read')
                return ('call', 'vec', args[0])
            if m in ('resize', 'assign', 'operator='):
                st.set('push', st.get('push', ()) + (m,))
                return ('u',) if 'i' in I else ('u0',)
            return ('u',) if 'i' in I else ('u0',)
        if ps and ps[0] and ps[0][1] == 'singleData' and m in ('operator=',):
            st.set('one', True)
            return args[0]
        return None

    def prestore(self, fl, st, I, p, v, old):
        q = self.part(p)
        if q and q[1] == 'singleData':
            st.set('one', True)

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        o = ('arg', 0)
        was = self.count0(fl, st)
        if self.root in ('at', 'getDataPointer'):
            self.did('element reads judged')
            one = (self.part(v) or (0, 0))[1] == 'singleData'
            if one and was != 1:
                self.bad(fl, st, 'layout', 'the single value is returned although the array may hold another number of values', I)
            if not one and was in (1, None):
                self.bad(fl, st, 'layout', 'the list of values is used although the array may hold a single one', I)
        elif self.root == 'push_back':
            self.did('element writes judged')
            new = fl.load(st, ('f', o, ARR, 'fsize'))
            if new != ('add', ('ld', ('f', o, ARR, 'fsize')), ('c', 1)) and not (new[0] == 'add' and new[2] == ('c', 1)):
                if not (new[0] == 'c' and was in (0, 1) and new[1] == was + 1):
                    self.bad(fl, st, 'layout', 'adding a value does not make the array one longer', I)
            pushed = st.get('push', ())
            if was == 0 and (pushed or not st.get('one')):
                self.bad(fl, st, 'layout', 'the first value is not kept as the single one', I)
            elif was == 1 and pushed != ('own', 'new'):
                self.bad(fl, st, 'layout', 'the second value is not added behind the first', I)
            elif was in (2,) and pushed != ('new',):
                self.bad(fl, st, 'layout', 'a value is not added to the list exactly once', I)
            elif was in (None, -1):
                self.bad(fl, st, 'layout', 'a value is added without regard to how many there are', I)

    def count0(self, fl, st):
        """number of elements at entry"""
        out = None
        for t, f in st.facts.items():
            x = t
            for y in terms(t):
                if y[:1] == ('ld',) and is_fieldname(y[1], 'fsize') or y[:1] == ('snap',) and 'fsize' in repr(y[1]):
                    s = y
                    z, one = fl.known(st, s), fl.known(st, ('icmp', 'eq', s, ('c', 1)))
                    gt = fl.known(st, ('icmp', 'ugt', s, ('c', 1)))
                    c = 0 if z == 0 else 1 if one == 1 or gt == 0 and z == 1 else 2 if gt == 1 or z == 1 and one == 0 else -1 if one == 0 else None
                    if c is not None and (out is None or out == -1):
                        out = c
        return out


def vectors(P, F):
    """offsets at which the class keeps its vector"""
    out = set()
    pre = F.dem[:re.match(r'VSArray<.*>::(?=at|getD|push)', F.dem).end()]
    for G in P.repo_funcs():
        if G.dem.startswith(pre):
            for I in G.insts():
                if I['o'] in ('call', 'invoke'):
                    f = I.get('f')
                    d = G.m.dem(f[1]) if isinstance(f, list) and f[0] == 'g' else ''
                    if d.startswith('std::vector<') and isinstance((I.get('a') or [None])[0], int):
                        J = G.defs.get(I['a'][0])
                        if J and J['o'] == 'getelementptr' and J['a'][0] == 0:
                            out.add(J.get('off'))
    return out


def run(P, rep, c, F, limit=20000):
    fl = Flow(P, c, limit=limit)
    fl.root = F
    key = '_pw' + type(c).__name__
    fl._wants, fl._mods, fl._api = P.__dict__.get(key, (None, None, None))
    fl.wants()
    fl.mods()
    P.__dict__[key] = (fl._wants, fl._mods, fl._api)
    try:
        return fl.run(F)
    except TooBig:
        rep.cannot(F.dem.split('(')[0], 'too many abstract states')
        return 0


def analyse(P, rep):
    tot = {}

    def add(c, n):
        tot['abstract states'] = tot.get('abstract states', 0) + n
        for k, v in c.seen.items():
            tot[k] = tot.get(k, 0) + v
    S = slots(P)
    visited = set()
    for name, sl in sorted(S.items()):
        F = P.funcs.get(name)
        if F is None:
            continue
        for s in sorted(sl)[:1]:
            g, t = GET.match(s), SET.match(s)
            na = len(F.dtypes) - 1
            if g:
                c = Props(rep, F, 'get', TYPES[g.group(1)], s)
                c.err = ('arg', na - 1)
                c.index = None if g.group(2) == 'Array' else 2
                tot['getters'] = tot.get('getters', 0) + 1
            elif t:
                c = Props(rep, F, 'set', TYPES[t.group(1)], s)
                c.append = None if t.group(2) else na - 1
                tot['setters'] = tot.get('setters', 0) + 1
            elif s == 'mapSetEmpty':
                c = Props(rep, F, 'set', None, s)
                c.append = None
                tot['setters'] = tot.get('setters', 0) + 1
            elif s in ('mapNumElements', 'mapGetType'):
                c = Props(rep, F, 'query', None, s)
                c.absent = -1 if s == 'mapNumElements' else 0
                tot['queries'] = tot.get('queries', 0) + 1
            else:
                continue
            add(c, run(P, rep, c, F))
            visited |= c.visited
    fl = Flow(P, Client())
    for F in P.repo_funcs():
        if F.name in visited or F.dem.startswith('VSArray'):
            continue
        hit = False
        for I in F.insts():
            if I['o'] in ('call', 'invoke'):
                n, dem = fl.callee(F, I)
                if dem and re.match(r'VSArray<.*>::(at|getDataPointer|push_back)\(', dem):
                    hit = True
        if hit:
            c = Props(rep, F, None, None, '')
            add(c, run(P, rep, c, F))
            tot['other functions accessing elements'] = tot.get('other functions accessing elements', 0) + 1
    for F in P.repo_funcs():
        m = re.match(r'VSArray<.*>::(at|getDataPointer|push_back)\(', F.dem)
        if m:
            if m.group(1) == 'push_back' and re.match(r'VSArray<(long|double),', F.dem):
                continue        # the same template; here the vector's own code is expanded into it
            c = Rep(rep, m.group(1))
            c.vec = vectors(P, F)
            add(c, run(P, rep, c, F))
    return tot
