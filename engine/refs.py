"""Reference ownership rules for code written against the public API (filters): acquire / release / hand-over typestate."""
from path import *

# name -> (kind, index of error out-argument or None)
ACQUIRE = {
    'getFrameFilter': ('frame', None), 'newVideoFrame': ('frame', None), 'newVideoFrame2': ('frame', None), 'newAudioFrame': ('frame', None),
    'newAudioFrame2': ('frame', None), 'copyFrame': ('frame', None), 'mapGetFrame': ('frame', 3),
    'mapGetNode': ('node', 3), 'createVideoFilter2': ('node', None), 'createAudioFilter2': ('node', None),
    'mapGetFunction': ('func', 3), 'createFunction': ('func', None), 'createMap': ('map', None), 'invoke': ('map', None),
}
MAYNULL = {'getFrame': 'frame'}
ADDREF = {'addFrameRef': 'frame', 'addNodeRef': 'node', 'addFunctionRef': 'func'}
RELEASE = {'freeFrame': 'frame', 'freeNode': 'node', 'freeFunction': 'func', 'freeMap': 'map'}
CONSUME = {'mapConsumeNode': (2, 'node'), 'mapConsumeFrame': (2, 'frame'), 'mapConsumeFunction': (2, 'func')}
# API calls whose result points into the frame / map they were given
DERIVED = {'getReadPtr': 0, 'getWritePtr': 0, 'getVideoFrameFormat': 0, 'getAudioFrameFormat': 0, 'getFramePropertiesRO': 0, 'getFramePropertiesRW': 0}
INSTANCE = {'createVideoFilter': (8, 3, 4, 6, 7, 5), 'createAudioFilter': (8, 3, 4, 6, 7, 5), 'createVideoFilter2': (7, 2, 3, 5, 6, 4), 'createAudioFilter2': (7, 2, 3, 5, 6, 4)}
NEWFNS = ('operator new(unsigned long)', 'operator new(unsigned long, std::align_val_t)')
DELFNS = ('operator delete(void*, unsigned long)', 'operator delete(void*)', 'operator delete(void*, unsigned long, std::align_val_t)', 'operator delete(void*, std::align_val_t)')


class RefClient(Client):
    """res: term -> (kind, count, loc)"""

    def __init__(self, F, report, want=('frame', 'node', 'func', 'map', 'heap')):
        self.F = F
        self.report = report
        self.want = want
        self.sites = set()
        self.exits = 0
        self.transfers = []
        self.resloops = None
        self.bytesfields = set()

    def droppable(self, v):
        return v[1] == 0

    # -- loops that work on collections of tracked references run at least once
    def loop_at_least_once(self, k):
        if self.resloops is None:
            self.resloops = {}
        if k not in self.resloops:
            F = self.F
            hit = False
            for b in F.loops[k]['b']:
                for I in F.blocks[b]:
                    if I['o'] in ('call', 'invoke'):
                        f = I['f']
                        if isinstance(f, int):
                            D = F.defs.get(f)
                            nm = api_name(F, D)
                            if nm in ACQUIRE or nm in ADDREF or nm in RELEASE or nm in CONSUME or nm in ('requestFrameFilter',):
                                hit = True
            self.resloops[k] = hit
        return self.resloops[k]

    # -- "for (...) if (found) { request / fetch ...; break; }": the search is assumed to succeed
    def search_loop(self, k):
        if not hasattr(self, '_sl'):
            self._sl = {}
        if k not in self._sl:
            F = self.F
            L = set(F.loops[k]['b'])
            r = False
            if not self.has_calls(L, None):
                stop = self.eng.ipdom.get(F.loops[k]['h'])
                for b in L - {F.loops[k]['h']}:
                    for s in self.eng.norm_succs(b):
                        if s not in L and not self.eng.dead[s]:
                            seen = set()
                            w = [s]
                            while w:
                                x = w.pop()
                                if x in seen or x == stop or x in L:
                                    continue
                                seen.add(x)
                                w.extend(self.eng.norm_succs(x))
                            if self.has_calls(seen, ('requestFrameFilter', 'getFrameFilter')):
                                r = True
            self._sl[k] = r
        return self._sl[k]

    def has_calls(self, blocks, names):
        F = self.F
        for b in blocks:
            for I in F.blocks[b]:
                if I['o'] in ('call', 'invoke') and isinstance(I['f'], int):
                    nm = api_name(F, F.defs.get(I['f']))
                    if nm is not None and (nm in names if names else nm in self.RELEVANT - set(DERIVED)):
                        return True
        return False

    # -- which instructions matter: API calls that acquire/release/..., anything that gets a pointer from those
    RELEVANT = set(ACQUIRE) | set(MAYNULL) | set(ADDREF) | set(RELEASE) | set(CONSUME) | set(INSTANCE) | set(DERIVED) | {'requestFrameFilter', 'setFilterError', 'releaseFrameEarly', 'mapSetError', 'callFunction'}

    def relevant_call(self, F, I, eng):
        f = I['f']
        if isinstance(f, int):
            nm = api_name(F, F.defs.get(f))
            if nm is None:
                D = F.defs.get(f)
                return not (D and D['o'] == 'load')
            return nm in self.RELEVANT
        nm = f[1]
        dem = F.m.dem(nm)
        if dem in DELFNS or dem in NEWFNS:
            return self.newdel_relevant(F, I)
        if nm in ('__cxa_throw', '__cxa_rethrow', '__cxa_begin_catch'):
            return True
        if STRING(dem):
            return F.m is not None and self.uses_string_empty(F)
        v = VECTOR(dem)
        if v:
            return v.group(1) in ('push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'operator=')
        return False

    def newdel_relevant(self, F, I):
        return 'heap' in self.want and self.is_instance_new(I)

    def relevant_store(self, F, I, eng):
        return I.get('t') == 'ptr' and isinstance(I['a'][0], int) and self.maybe_ref(F, I['a'][0], set())

    def maybe_ref(self, F, o, seen):
        """may SSA value o hold a tracked reference?"""
        if not isinstance(o, int) or o in seen:
            return False
        seen.add(o)
        D = F.defs.get(o)
        if D is None:
            return False
        if D['o'] in ('call', 'invoke'):
            f = D['f']
            if isinstance(f, int):
                nm = api_name(F, F.defs.get(f))
                return nm is None or nm in ACQUIRE or nm in ADDREF or nm in MAYNULL
            return False
        if D['o'] == 'phi':
            return any(self.maybe_ref(F, x, seen) for q, x in D['ph'])
        if D['o'] == 'select':
            return any(self.maybe_ref(F, x, seen) for x in D['a'][1:])
        return False

    def interesting_phi(self, F, I):
        return self.maybe_ref(F, I['i'], set())

    def skipped_access(self, st, I, t):
        self.owner_use(st, I, t, 'memory access through a pointer into a frame')

    def where(self, I):
        return self.F.loc(I)

    def acquire(self, st, I, term, kind):
        self.sites.add((kind, I['_b'], I['_n']))
        if kind not in self.want:
            return
        st.res[term] = (kind, 1, I.get('l', -1))

    def members(self, st, base):
        ms = set(st.mem.get((base, '*'), ()))
        if base[0] in ('al', 'vp', 'sym', 'fld'):
            for (b, o), t in st.mem.items():
                if b == base and o != '*' and t in st.res:
                    ms.add(t)
        return {m for m in ms if m in st.res}

    def elem(self, st, I, addr):
        b, o, v = split(addr)
        ms = self.members(st, b)
        if ms and v and (b, '*') not in st.mem:
            rng = self.eng.array_range(I['a'][0], o)
            if rng and not any(bb == b and oo != '*' and rng[0] <= oo < rng[1] and t in st.res for (bb, oo), t in st.mem.items()):
                ms = None
        if ms:
            t = ('elem', b)
            st.facts[t] = (None, None, frozenset([0]))
            return t
        return None

    def release(self, st, I, t, kind, what):
        """one reference of kind is given up"""
        if kind not in self.want:
            return
        if t[0] == 'elem':
            ms = self.members(st, t[1])
            site = (I['_b'], I['_n'])
            live = [m for m in ms if st.res[m][1] > 0]
            fl = ('drain', t[1])
            if not live:
                if st.flags.get(fl) not in (None, site) or not self.F.loops_of(I['_b']):
                    self.report('double-release', I, st, '%s of a %s held in an array whose elements were already released' % (what, kind))
                return
            for m in live:
                k, c, l = st.res[m]
                st.res[m] = (k, c - 1, l)
            st.flags[fl] = site
            return
        if t in st.res:
            k, c, l = st.res[t]
            if k != kind:
                self.report('wrong-kind', I, st, '%s used on a %s reference acquired at %s' % (what, k, self.F.m.loc(l)))
                return
            if c <= 0:
                self.report('double-release', I, st, '%s of the %s acquired at %s which was already released or handed on' % (what, kind, self.F.m.loc(l)))
                return
            st.res[t] = (k, c - 1, l)
            return
        if t == ('c', 0) or st.isnull(t):
            return
        self.unowned_release(st, I, t, kind, what)

    def unowned_release(self, st, I, t, kind, what):
        if t[0] in ('arg',):
            self.report('unowned', I, st, '%s of a %s the function does not own (parameter)' % (what, kind))
        elif t[0] == 'fld' or t[0] == 'ldv':
            r = self.external_release(st, I, t, kind, what)
        # other symbols: unknown provenance, not judged

    def external_release(self, st, I, t, kind, what):
        pass

    def use(self, st, I, t, what):
        if t[0] == 'elem':
            ms = self.members(st, t[1])
            if ms and all(st.res[m][1] == 0 for m in ms):
                self.report('use-after-release', I, st, '%s on an element of an array whose references were released' % what)
            return
        if t in st.res:
            k, c, l = st.res[t]
            if c == 0 and k != 'heap':   # c == -1: held by the instance or the request
                self.report('use-after-release', I, st, '%s uses the %s acquired at %s after its reference was released or handed on' % (what, k, self.F.m.loc(l)))

    def owner_use(self, st, I, t, what):
        """t is an address: complain when it points into a released frame"""
        b, o, v = split(t)
        if b[0] == 'sym' and len(b) > 4:
            self.use(st, I, b[4], what)

    def load(self, st, I, addr):
        self.owner_use(st, I, addr, 'memory read through a pointer into a frame')
        # a format always has 1, 2 or 4 bytes per sample
        a = I['a'][0]
        D = self.F.defs.get(a) if isinstance(a, int) else None
        if D is not None and D['o'] == 'getelementptr' and 'off' in D and I.get('t') == 'i32':
            fl = self.F.m.field(D['st'], D['off'])
            if fl and fl[0].split('.')[-1] == 'bytesPerSample':
                t = self.eng.load(st, addr, I)
                if t[0] == 'fld':
                    if st.facts.get(t) is None:
                        st.facts[t] = (1, 4, frozenset([3]))
                    self.bytesfields.add(t)
                return t
        return None

    def infeasible(self, st):
        """bytes per sample excluded although at most 16 bits"""
        for t in self.bytesfields:
            f = st.facts.get(t)
            if f is None:
                continue
            b = st.fact(('fld', t[1], t[2] - 4, t[3]))
            if b[1] is not None and b[1] <= 16 and not inside(f, 1) and not inside(f, 2):
                return True
            if b[1] is not None and b[1] <= 8 and not inside(f, 1):
                return True
        return False

    def store(self, st, I, addr, val):
        self.owner_use(st, I, addr, 'memory write through a pointer into a frame')
        if val[0] == 'elem':
            b, o, v = split(addr)
            if v:
                # copying array elements: the target now holds the same references
                key = (b, '*')
                st.mem[key] = st.mem.get(key, frozenset()) | self.members(st, val[1])
                return True
        return None

    def api(self, st, I, name, args):
        if name in RELEASE:
            kind = RELEASE[name]
            if kind == 'node' or kind == 'frame' or kind == 'func' or kind == 'map':
                self.release(st, I, args[0], kind, name)
            return [(st, None)]
        if name in CONSUME:
            k, kind = CONSUME[name]
            self.release(st, I, args[k], kind, name)
            return self.eng.default_api(st, I, name, args)
        if name in ADDREF:
            t = args[0]
            kind = ADDREF[name]
            self.sites.add((kind, I['_b'], I['_n']))
            if kind in self.want:
                if t in st.res and st.res[t][0] == kind and st.res[t][1] >= 0:
                    k, c, l = st.res[t]
                    if c == 0:
                        self.report('use-after-release', I, st, '%s on a released %s' % (name, kind))
                    if c < 4:
                        st.res[t] = (k, c + 1, l)
                    return [(st, t)]
                v = self.eng.newsym(st, I, 0)
                st.facts[v] = (None, None, frozenset([0]))
                self.acquire(st, I, v, kind)
                return [(st, v)]
            return [(st, t)]
        for n, a in enumerate(args):
            self.use(st, I, a, name)
            self.owner_use(st, I, a, name)
        if name in INSTANCE:
            self.instance(st, I, name, args)
        if name in ACQUIRE:
            kind, ei = ACQUIRE[name]
            if ei is not None and args[ei] != ('c', 0):
                self.eng.havoc(st, args[ei], I, 4)
                s2 = st.copy()
                v = self.eng.newsym(st, I)
                st.facts[v] = (None, None, frozenset([0]))
                self.acquire(st, I, v, kind)
                self.eng.store(st, args[ei], ('c', 0), 4)
                # failure: null result, non-zero error
                self.eng.newsym(s2, I)
                e = self.eng.newsym(s2, I, 'err')
                s2.facts[e] = (None, None, frozenset([0]))
                self.eng.store(s2, args[ei], e, 4)
                return [(st, v), (s2, ('c', 0))]
            v = self.eng.newsym(st, I)
            st.facts[v] = (None, None, frozenset([0]))
            self.acquire(st, I, v, kind)
            return [(st, v)]
        if name in MAYNULL:
            self.eng.default_api(st, I, name, args)
            s2 = st.copy()
            v = self.eng.newsym(st, I)
            st.facts[v] = (None, None, frozenset([0]))
            self.acquire(st, I, v, MAYNULL[name])
            return [(st, v), (s2, ('c', 0))]
        if name in DERIVED and 'i' in I:
            a = args[DERIVED[name]]
            if a in st.res:
                v = self.eng.newsym(st, I, 0, a)
                st.facts[v] = (None, None, frozenset([0]))
                return [(st, v)]
            v = self.eng.newsym(st, I)
            st.facts[v] = (None, None, frozenset([0]))
            return [(st, v)]
        return None

    def is_instance_new(self, I):
        """a new-expression written in the repository (not inside a container)"""
        for f, l, fn in self.F.m.locchain(I.get('l', -1)):
            if f.startswith('/repo/'):
                return True
            if fn.startswith('make_unique'):
                return True
            return False
        return False

    def call(self, st, I, name, dem, args):
        if dem in NEWFNS and self.is_instance_new(I) and 'heap' in self.want:
            v = self.eng.newsym(st, I)
            st.facts[v] = (None, None, frozenset([0]))
            self.acquire(st, I, v, 'heap')
            return [(st, v)]
        if dem in DELFNS:
            t = args[0]
            if t in st.res and st.res[t][0] == 'heap':
                self.release(st, I, t, 'heap', 'delete')
                self.heap_deleted(st, I, t)
            return [(st, None)]
        r = self.string_call(st, dem, args)
        if r is not None:
            return r
        return None

    def uses_string_empty(self, F):
        if not hasattr(self, '_use'):
            self._use = any(I['o'] in ('call', 'invoke') and isinstance(I['f'], list) and STRING(F.m.dem(I['f'][1])) == 'empty' for I in F.insts())
        return self._use

    # std::string objects: only "known empty / known non-empty" is tracked
    def string_call(self, st, dem, args):
        m = STRING(dem)
        def key(t):
            b, o, v = split(t)
            return (('str', b, o), 0) if not v else None
        if m is None or m == 'other':
            if not dem.endswith(' const'):
                for a in args:
                    st.mem.pop(key(a), None)
            return None
        k = key(args[0]) if args else None
        if m == 'empty':
            x = st.mem.get(k)
            if x is not None:
                return [(st, ('c', 0) if x == ('c', 1) else ('c', 1))]
            return None
        if k is None:
            return None
        val = None
        if m == 'ctor()':
            val = ('c', 0)
        elif m == 'ctor':
            src = args[1]
            lit = self.F.m.string(['g', src[1]]) if src[0] == 'g' else None
            val = ('c', 1 if lit else 0) if lit is not None else st.mem.get(key(src) or k)
        elif m == '+':
            for a in args[1:]:
                lit = self.F.m.string(['g', a[1]]) if a[0] == 'g' else None
                if lit or st.mem.get(key(a)) == ('c', 1):
                    val = ('c', 1)
        if val is None:
            st.mem.pop(k, None)
        else:
            st.mem[k] = val
        return None

    def heap_deleted(self, st, I, t):
        pass

    def instance(self, st, I, name, args):
        ii, gf, ff, di, nd, md = INSTANCE[name]
        inst = args[ii]
        base, off, v = split(inst)
        owned = set()
        seen = set()
        stack = [(base, ())]
        while stack:
            bs, pth = stack.pop()
            if bs in seen:
                continue
            seen.add(bs)
            for (b, o), t in list(st.mem.items()):
                nb = b
                vo = ()
                if b[0] == 'vp' and b[1] == bs:
                    vo = ('vec', b[2])
                elif b != bs:
                    continue
                for x in (t if o == '*' else (t,)):
                    if x in st.res and st.res[x][0] != 'heap':
                        k, c, l = st.res[x]
                        if c <= 0:
                            self.report('double-release', I, st, 'instance passed to %s holds a %s acquired at %s that was already released' % (name, k, self.F.m.loc(l)))
                            continue
                        st.res[x] = (k, c - 1, l)
                        owned.add((pth, vo or o, k))
                    elif x in st.res and st.res[x][0] == 'heap' and x != bs:
                        k, c, l = st.res[x]
                        if c > 0:
                            st.res[x] = (k, c - 1, l)
                        stack.append((x, pth + (o,)))
        if base in st.res and st.res[base][0] == 'heap':
            k, c, l = st.res[base]
            if c <= 0:
                self.report('double-release', I, st, 'instance data passed to %s was already deleted or handed over' % name)
            else:
                st.res[base] = (k, c - 1, l)
        self.transfers.append({'I': I, 'inst': base, 'off': off, 'owned': frozenset(owned), 'getFrame': args[gf], 'free': args[ff], 'deps': args[di], 'ndeps': args[nd], 'mode': args[md], 'st': st.copy(), 'api': name, 'vi': args[gf - 1]})

    def leak_check(self, st, I, except_=()):
        for t, (k, c, l) in sorted(st.res.items(), key=repr):
            if c > 0 and t not in except_:
                self.report('leak', I, st, '%s acquired at %s is neither released nor handed on when the function exits here' % ({'frame': 'frame reference', 'node': 'node reference', 'func': 'function reference', 'map': 'map', 'heap': 'instance data'}[k], self.F.m.loc(l)), l)


def api_name(F, D):
    """name of the API function loaded by instruction D (a load of a VSAPI slot)"""
    if not D or D['o'] != 'load':
        return None
    a = D['a'][0]
    if isinstance(a, int):
        G = F.defs.get(a)
        if G is not None and G['o'] == 'getelementptr' and G['st'] in ('struct.VSAPI', 'struct.VSPLUGINAPI') and 'off' in G:
            fl = F.m.field(G['st'], G['off'])
            return fl[0] if fl else None
        if G is None and a < len(F.args) and a + 1 < len(F.dtypes) and F.dtypes[a + 1] == 'VSAPI*':
            return 'createVideoFilter'
    return None


@lru_cache(maxsize=None)
def STRING(dem):
    """which modelled std::string operation a demangled name is"""
    if ' std::operator+<char' in dem and 'basic_string' in dem:
        return '+'
    if dem.startswith('std::__cxx11::basic_string<char'):
        m = re.match(r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::(~?\w+)(?:<.*>)?\((.*)\)( const)?$', dem)
        if not m:
            return None if dem.endswith(' const') else 'other'
        if m.group(1) == 'basic_string':
            return 'ctor()' if m.group(2) == '' else 'ctor'
        if m.group(1) == 'empty':
            return 'empty'
        if m.group(3) or m.group(1).startswith('~'):
            return None
        return 'other'
    return None
