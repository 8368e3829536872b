"""Ownership in the core: reference counts, smart pointers, what API functions do to references."""
import re, sys
from flow import *
from core import cls

COUNTED = ('VSNode', 'VSFrame', 'VSFunction', 'VSPlaneData', 'VSMapStorage', 'VSArrayBase', 'VSFrameContext')
# API slots (version 4 and 3) handing the caller a reference / taking one from it
GIVES = {'addFrameRef', 'addNodeRef', 'addFunctionRef', 'getFrame', 'getFrameFilter', 'mapGetNode', 'mapGetFrame', 'mapGetFunction', 'newVideoFrame', 'newVideoFrame2', 'newAudioFrame',
         'newAudioFrame2', 'copyFrame', 'createFunction', 'createVideoFilter2', 'createAudioFilter2',
         'cloneFrameRef', 'cloneNodeRef', 'cloneFuncRef', 'propGetNode', 'propGetFrame', 'propGetFunc', 'createFunc'}
TAKES = {'freeFrame': 0, 'freeNode': 0, 'freeFunction': 0, 'freeFunc': 0, 'mapConsumeNode': 2, 'mapConsumeFrame': 2, 'mapConsumeFunction': 2}
STOP = ('VSCore::logFatal', '__assert_fail', 'std::terminate', '__cxa_throw', 'abort', 'exit', '__clang_call_terminate', 'std::__throw_out_of_range_fmt', 'std::__throw_logic_error')


def is_field(t, c, f):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 'f' and t[2] == c and t[3] == f


def is_fieldname(t, f):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 'f' and t[3] == f


def has_field(t, c, f):
    return anyterm(t, lambda x: is_field(x, c, f))


def slots(P):
    """{function name: set of slot names} of the API tables"""
    out = {}
    for M in P.modules:
        for g in M.globals.values():
            m = re.match(r'(const )?(VSAPI3?)$', g.get('ty') or '')
            ini = g.get('init')
            if not m or not isinstance(ini, list):
                continue
            for e in ini[1:]:
                if isinstance(e, list) and e[0] == '@' and isinstance(e[2], list) and e[2][0] == 'g':
                    f = M.field(m.group(2), e[1])
                    if f:
                        out.setdefault(P.alias.get(e[2][1], e[2][1]), set()).add(f[0])
    return out


class Obj(Client):
    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.seen = {}

    tagterms = True

    def key(self, fl, st):
        """branches taken last at each place: small functions, so nearly one state per path"""
        return tuple(sorted(dict(st.hist).items(), key=repr))

    def bad(self, fl, st, rule, msg, I=None):
        F, b, n = st.stack[-1]
        J = I or F.blocks[b][min(n, len(F.blocks[b]) - 1)]
        self.rep.violation(rule, F.loc(J), fl.root.dem.split('(')[0], msg, path=' '.join('%s=%d' % h for h in st.hist))

    def did(self, what, n=1):
        self.seen[what] = self.seen.get(what, 0) + n

    def drop(self, st, k):
        st.tag = tuple(x for x in st.tag if x[0] != k)

    def stop(self, sn):
        return sn in STOP or sn.startswith('std::__throw')

    def new(self, fl, st, I):
        F, b, n = st.stack[-1]
        t = ('o', 'new', fl.site(st.stack), F.name[:40], I['i'])
        fl.forget(st, t)
        return t


# ------------------------------------------------------------------ counting methods

class Counter(Obj):
    """X::add_ref and X::release"""
    zero = False          # the count is the first member

    def iscount(self, p):
        return is_fieldname(p, 'refcount') or self.zero and p == ('arg', 0)

    def prestore(self, fl, st, I, p, v, old):
        if self.iscount(p):
            d = delta(old, v)
            if I['o'] == 'store':
                self.bad(fl, st, 'atomic', 'the reference count is changed by a plain store', I)
            if d is None:
                self.bad(fl, st, 'count', 'the reference count is overwritten', I)
                return
            st.set('d', max(-3, min(3, st.get('d', 0) + d)))
            st.set('val', v)

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            if len(args) > 1 and args[1] == ('arg', 0):
                self.deleted(fl, st, I)
            return ('u',)
        if self.stop(sn):
            return 'stop'
        if sn.startswith('operator delete') or sn.split('::')[-1].startswith('~'):
            if args and args[0] == ('arg', 0):
                self.deleted(fl, st, I)
            return ('u0',)
        return None

    def left(self, fl, st):
        """counts (0 to 4 stand for all) that can remain here"""
        v = st.get('val')
        if v is None:
            return set(range(5))
        base, off = v, 0
        while base[0] == 'add' and base[2][0] == 'c':
            base, off = base[1], off + base[2][1]
        out = set()
        for k in range(5):
            def ev(t):
                if t == base:
                    return k - off
                if t[0] == 'c':
                    return t[1] if t[1] < 2**63 else t[1] - 2**64
                if t[0] in ('add', 'sub', 'slt', 'ult', 'same') and len(t) == 3:
                    a, b = ev(t[1]), ev(t[2])
                    if a is None or b is None:
                        return None
                    return a + b if t[0] == 'add' else a - b if t[0] == 'sub' else int(a < b) if t[0] in ('slt', 'ult') else int(a == b)
                if t[0] in ('trunc', 'zext', 'sext'):
                    return ev(t[1])
                return None
            ok = True
            for t, f in st.facts.items():
                x = ev(t)
                if x is None:
                    continue
                if f[0] == 'eq' and x != f[1] or f[0] == 'ne' and x in f[1]:
                    ok = False
            if ok:
                out.add(k)
        return out

    def deleted(self, fl, st, I):
        if st.get('d') != -1 or self.left(fl, st) != {0}:
            self.bad(fl, st, 'delete', 'the object is destroyed although its reference count is not known to have become 0', I)
        st.set('del', 1)

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        d = st.get('d', 0)
        self.did('counting paths')
        if self.root == 'add_ref':
            if d != 1:
                self.bad(fl, st, 'count', 'add_ref changes the reference count by %+d' % d, I)
        else:
            if d != -1:
                self.bad(fl, st, 'count', 'release changes the reference count by %+d' % d, I)
            if not st.get('del') and 0 in self.left(fl, st):
                self.bad(fl, st, 'delete', 'an object whose reference count became 0 is not destroyed', I)


def delta(old, v):
    if v == old:
        return 0
    if v[0] == 'add' and v[2][0] == 'c' and v[1] == old:
        d = v[2][1]
        return d - 2**64 if d >= 2**63 else d
    if v[0] == 'sub' and v[2][0] == 'c' and v[1] == old:
        return -v[2][1]
    if old[0] == 'add' and old[2][0] == 'c' and v == old[1]:
        return -old[2][1]
    return None


# ------------------------------------------------------------------ smart pointer members

class Holder(Obj):
    """vs_intrusive_ptr<T>: references change exactly as the set of holders does"""

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',)
        if self.stop(sn):
            return 'stop'
        m = sn.split('::')[-1]
        if m in ('add_ref', 'release') and sn.split('::')[0] in COUNTED:
            n = dict(st.get('n', ()))
            n[args[0]] = n.get(args[0], 0) + (1 if m == 'add_ref' else -1)
            if m == 'release':
                st.set('rel', 1)
            elif st.get('rel') and self.alias:
                self.bad(fl, st, 'self', 'assigning a smart pointer to itself can destroy the object it still holds', I)
            st.set('n', tuple(sorted(n.items(), key=repr)))
            fl.kill(st, lambda x: False, None)
            return ('u0',)
        if sn == 'std::swap' and len(args) == 2:
            a, b = fl.load(st, args[0]), fl.load(st, args[1])
            st.mem[args[0]], st.mem[args[1]] = b, a
            return ('u0',)
        return None

    def follows(self, G, sn):
        return True

    def models(self, sn):
        return not sn.startswith('vs_intrusive_ptr::')

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        self.did('smart pointer paths')
        net = dict(st.get('n', ()))
        this, oth = ('arg', 0), ('arg', 0) if self.alias else ('arg', 1)
        pre, post = {}, {}

        def hold(d, t):
            if t != C0 and fl.known(st, t) != 0:
                d[t] = d.get(t, 0) + 1
        m = self.root
        if m != 'ctor':
            hold(pre, H0)
        if self.other and not self.alias:
            hold(pre, H1)
        if m != 'dtor':
            hold(post, fl.load(st, this))
        if self.other and not self.alias:
            hold(post, fl.load(st, oth))
        if m == 'ctor' and self.raw and fl.known(st, ('arg', 2)) != 1:
            # the reference is taken over from the caller
            hold(pre, oth)
        for t in set(net) | set(pre) | set(post):
            w = post.get(t, 0) - pre.get(t, 0)
            if net.get(t, 0) != w and fl.known(st, t) != 0:
                self.bad(fl, st, 'holder', 'the object %s: references change by %+d while the pointers holding it change by %+d' % (
                    'previously held' if t == H0 else 'taken over', net.get(t, 0), w), I)


H0, H1 = ('o', 'held', 0), ('o', 'held', 1)


# ------------------------------------------------------------------ functions

class Owner(Obj):
    """credits: references the function holds and still has to hand on or release"""
    def __init__(self, rep, root, gives=False, takes=None, kind=None, sl=None):
        super().__init__(rep, root)
        self.gives, self.takes, self.kind, self.sl = gives, takes, kind, sl or {}
        self.pend = []

    def credit(self, st, t, d):
        if t == C0:
            return
        c = self.credits(st)
        c[t] = max(-3, min(3, c.get(t, 0) + d))
        if not c[t]:
            del c[t]
        st.set('cr', tuple(sorted(c.items(), key=repr)))

    def credits(self, st):
        c = {}
        for t, k in st.get('cr', ()):
            c[t] = c.get(t, 0) + k
        return c

    def event(self, F, I, dem, sn):
        if dem is None:
            return False
        if re.match(r'(%s)::(add_ref|release)$' % '|'.join(COUNTED), sn):
            return True
        if sn == 'vs_intrusive_ptr::vs_intrusive_ptr' and len(I['a']) == 3:
            return True
        p = sn.split('::')
        return len(p) == 2 and p[0] == p[1] and p[0] in COUNTED

    def event_store(self, c, f):
        return (c, f) == ('VSFrame', 'data')

    named = ('VSThreadPool::startExternal', 'VSMap::insert', 'VSNode::getFrame', 'VSCore::filterInstanceCreated', 'VSNode::addConsumer', 'VSNode::removeConsumer', 'VSNode::registerCache',
             'VSNode::updateCacheState', 'VSCore::destroyFilterInstance', 'VSNode::setLinear', 'VSCore::logMessage', 'VSPlugin::invoke', 'VSPluginFunction::invoke', 'VSCore::loadPlugin',
             'VSMap::setError', 'VSMap::copy', 'VSMap::clear', 'VSMap::detach', 'VSMap::erase', 'VSFrame::setAllocationInfo', 'VSCore::VSCore', 'VSCore::freeCore', 'VSFunction::call',
             'VSNode::setCacheMode', 'VSNode::setCacheOptions')

    def canon(self, base, c):
        return base

    def slot(self, st, ft):
        """API slot a function pointer was loaded from"""
        if ft[0] != 'ld' or not isinstance(ft[1], tuple):
            return None
        p = ft[1]
        if p[0] == 'f' and len(p) == 4 and p[2] in ('VSAPI', 'VSAPI3', 'vs3::VSAPI3'):
            return p[3]
        off = 0
        if p[0] == 'off':
            p, off = p[1], p[2]
        if p[0] == 'g' and p[1] in ('vs_internal_vsapi', 'vs_internal_vsapi3'):
            f = st.stack[-1][0].m.field('VSAPI' if p[1] == 'vs_internal_vsapi' else 'VSAPI3', off)
            return f[0] if f else None
        return None

    def api(self, fl, st, I, s, args):
        if s in TAKES and TAKES[s] < len(args):
            self.credit(st, args[TAKES[s]], -1)
            self.did('references handed over')
        if s in GIVES and 'i' in I:
            t = fl.opq(st, I['i'])
            fl.forget(st, t)
            self.credit(st, t, 1)
            return t
        return ('u',) if 'i' in I else ('u0',)

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            ft, a = args[0], args[1:]
            s = self.slot(st, ft)
            if s:
                return self.api(fl, st, I, s, a)
            if has_field(ft, 'VSFrameContext', 'frameDone') and len(a) > 1:
                self.credit(st, a[1], -1)
                self.did('frames handed to callbacks')
                return ('u0',)
            if (has_field(ft, 'VSNode', 'filterGetFrame') or self.kind == 'wrapper') and 'i' in I and I.get('t') == 'ptr':
                t = fl.opq(st, I['i'])
                fl.forget(st, t)
                self.credit(st, t, 1)
                self.did('frames obtained from filters')
                return t
            return None
        if self.stop(sn):
            return 'stop'
        p = sn.split('::')
        if p[-1] in ('add_ref', 'release') and p[0] in COUNTED:
            if self.kind == 'framedtor' and args[0][0] == 'ld' and args[0][1][0] == 'idx':
                # planes released in a loop: how often is a matter of values
                self.skip = True
                self.rep.cannot(fl.root.dem.split('(')[0], 'planes are released through a variable index')
            self.credit(st, args[0], 1 if p[-1] == 'add_ref' else -1)
            self.did('explicit reference changes')
            if self.root != p[0]:
                return ('u0',)
        if sn == 'operator new':
            return self.new(fl, st, I)
        if len(p) == 2 and p[0] == p[1] and p[0] in COUNTED and args[0][:2] == ('o', 'new'):
            self.credit(st, args[0], 1)
            self.did('objects created')
            return ('u0',)
        if sn == 'VSArray::VSArray' and args[0][:2] == ('o', 'new'):
            self.credit(st, args[0], 1)
            return ('u0',)
        if sn == 'VSMap::insert' and len(args) > 2:
            self.credit(st, args[2], -1)
            return ('u0',)
        if sn == 'vs_intrusive_ptr::vs_intrusive_ptr' and len(args) == 3 and not re.search(r'\(vs_intrusive_ptr<', dem):
            k = fl.known(st, args[2])
            if k is None:
                self.rep.cannot(fl.root.dem.split('(')[0], 'a smart pointer takes or adds a reference depending on a runtime value')
            elif k == 0:
                self.credit(st, args[1], -1)
            self.did('references put into smart pointers')
            return None
        if p[0] == 'vs_intrusive_ptr':
            return None
        if sn == 'std::vector::push_back' and args and is_field(args[0], 'VSNode', 'dependencies'):
            self.credit(st, fl.load(st, args[1]), -1)
            self.did('dependencies recorded')
            return ('u0',)
        if self.kind == 'nodedtor' and sn == 'VSNode::removeConsumer':
            # a dependency is about to be given up
            if self.credits(st).get(args[0], 0) < 0:
                self.bad(fl, st, 'reference', 'a dependency is used after its reference was released', I)
            self.credit(st, args[0], 1)
            self.did('dependencies released')
            return ('u0',)
        if sn in self.named or 'VSCache' in p or sn == 'VSFrame::getWritePtr' and self.kind != 'write':
            return ('u',) if 'i' in I else ('u0',)
        return None

    def data_slot(self, p):
        while isinstance(p, tuple) and p[0] in ('off', 'idx'):
            p = p[1]
        return is_field(p, 'VSFrame', 'data')

    def prestore(self, fl, st, I, p, v, old):
        if self.data_slot(p):
            self.did('plane pointers set')
            if self.kind != 'framector':
                self.credit(st, old, 1)
            self.credit(st, v, -1)

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        self.did('function exits judged')
        c = self.credits(st)
        if self.kind == 'framedtor' and (self.skip or any(t[0] in ('ld', 'snap') and anyterm(t, lambda x: x[0] == 'idx') for t in c)):
            return
        if self.gives:
            v = fl.val(st, I['a'][0]) if I.get('a') else C0
            if v != C0 and fl.known(st, v) != 0:
                if v[0] == 'ld' and v[1][0] in ('al', 'f') and v not in c:
                    return
                if v not in c and v[0] == 'o' and v[1] != 'new' and not c and self.sl.get('loose'):
                    return
                c[v] = c.get(v, 0) - 1
        for t, k in c.items():
            if not k or fl.known(st, t) == 0:
                continue
            if self.twin(fl, st, t):
                continue
            if t[0] == 'o' and t[1] in ('stale', 'v') and k < 0 and self.gives and len(c) > 1:
                self.rep.cannot(fl.root.dem.split('(')[0], 'a returned reference cannot be related to where it came from')
                return
            self.late(fl, st, 'reference', '%s reference to %s' % ('keeps or leaks a' if k > 0 else 'gives away or drops a', self.what(t)) + (' it does not own' if k < 0 else ''), I)

    skip = False

    def late(self, fl, st, *a):
        if self.kind == 'framedtor':
            self.pend.append(lambda s=st.copy(): self.bad(fl, s, *a))
        else:
            self.bad(fl, st, *a)

    def what(self, t):
        if t[0] == 'arg':
            return 'its argument %d' % t[1]
        if t[:2] == ('o', 'new'):
            return 'an object it created'
        if t[0] == 'ld' and t[1][0] == 'f':
            return '%s::%s' % (t[1][2], t[1][3])
        return 'an object'

    def twin(self, fl, st, t):
        """chroma planes come in pairs"""
        if t[0] in ('ld', 'snap'):
            b = t
            while b[0] == 'snap':
                b = b[1]
            if b[0] == 'ld' and self.data_slot(b[1]):
                for f, v in st.facts.items():
                    g = f
                    while g[0] == 'snap':
                        g = g[1]
                    if g[0] == 'ld' and self.data_slot(g[1]) and v == ('eq', 0) and g != b:
                        return True
        return False


def run(P, rep, client, F, tag=(), mem=(), args=None, limit=20000):
    fl = Flow(P, client, limit=limit)
    fl.root = F
    try:
        n = fl.run(F, tag=tag, mem=mem, args=args)
    except TooBig:
        rep.cannot(F.dem.split('(')[0], 'too many abstract states')
        return 0
    return n


def analyse(P, rep):
    tot = {}

    def go(c, F, tag=(), mem=(), args=None):
        n = run(P, rep, c, F, tag, mem, args)
        for f in getattr(c, 'pend', ()) if not getattr(c, 'skip', False) else ():
            f()
        tot['abstract states'] = tot.get('abstract states', 0) + n
        for k, v in c.seen.items():
            tot[k] = tot.get(k, 0) + v
    for F in list(P.repo_funcs()):
        m = re.match(r'(\w+)::(add_ref|release)\(\)', F.dem)
        if m and m.group(1) in COUNTED:
            c = Counter(rep, m.group(2))
            f = F.m.field(m.group(1), 0)
            c.zero = bool(f) and f[0].split('.')[0].split('+')[0] == 'refcount'
            go(c, F)
        m = re.match(r'vs_intrusive_ptr<(.*)>::(operator=|reset|swap|~?vs_intrusive_ptr)\((.*)\)$', F.dem)
        if m:
            k = {'vs_intrusive_ptr': 'ctor', '~vs_intrusive_ptr': 'dtor'}.get(m.group(2), m.group(2))
            c = Holder(rep, k)
            c.other = 'vs_intrusive_ptr' in m.group(3)
            c.moves = '&&' in m.group(3)
            c.raw = k == 'ctor' and not c.other and m.group(3)
            for c.alias in (False, True) if c.other and k != 'ctor' else (False,):
                mem = {('arg', 0): H0} if k != 'ctor' else {}
                if c.other and not c.alias:
                    mem[('arg', 1)] = H1
                go(c, F, mem=mem, args=[('arg', 0), ('arg', 0)] if c.alias else None)
    sl = slots(P)
    rep.count('API functions in the tables', len(sl))
    for n in sorted(sl):
        F = P.funcs.get(n)
        if F is None:
            continue
        g = bool(sl[n] & GIVES)
        t = [TAKES[s] for s in sl[n] if s in TAKES]
        c = Owner(rep, None, g, None, None, {'loose': 1})
        tag = (('cr', ((('arg', t[0]), 1),)),) if t else ()
        go(c, F, tag)
    for F in list(P.repo_funcs()):
        d = F.dem.split('(')[0]
        kind = None
        if d == 'VSFrame::VSFrame':
            kind = 'framector'
        elif d == 'VSFrame::~VSFrame':
            kind = 'framedtor'
        elif d == 'VSFrame::getWritePtr':
            kind = 'write'
        elif d == 'VSNode::~VSNode':
            kind = 'nodedtor'
        elif d in ('VSNode::VSNode', 'VSNode::getFrameInternal', 'VSNode::cacheFrame', 'VSThreadPool::returnFrame'):
            kind = 'method'
        elif d == 'MakeLinearWrapper::getFrame':
            kind = 'wrapper'
        if kind is None:
            continue
        tag = ()
        if kind == 'framedtor':
            tag = (('cr', tuple((('ld', x), 1) for x in planes())),)
        go(Owner(rep, None, d == 'MakeLinearWrapper::getFrame', None, kind), F, tag)
    return tot


def planes():
    b = ('f', ('arg', 0), 'VSFrame', 'data')
    return (b, ('off', b, 8), ('off', b, 16))
