"""What frames are made of and which frames leave a node: the memory behind a plane covers its dimensions, a plane
pointer is that of the plane asked for, and a frame that is handed on is the one the node declared.

Conditions and addresses along a path are closed-form terms over the fields of frame, node and arguments; they are
compared on a grid of formats that has every order of the fields to one another that the rules distinguish."""
import re, itertools
from flow import *
from flow import ICMP, C0
from objs import Obj, is_field, is_fieldname, STOP
from props import run, terms

M32 = 2**32


def s32(x):
    return (x + 2**31) % M32 - 2**31


def s64(x):
    return (x + 2**63) % 2**64 - 2**63


def ev(t, leaf):
    """value of a term, None if it cannot be told"""
    v = leaf(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'c':
        return s64(t[1])
    if k in ('zext', 'sext', 'freeze', 'bool'):
        return ev(t[1], leaf)
    if k == 'trunc':
        a = ev(t[1], leaf)
        return None if a is None else s32(a)
    if k == 'select':
        a, c, eq = cond(t[1])
        a = ev(a, leaf)
        return None if a is None else ev(t[2] if (a == c) == eq else t[3], leaf)
    if k == 'icmp':
        a, c, eq = cond(t)
        if a == t:
            x, y = ev(t[2], leaf), ev(t[3], leaf)
            return None if x is None or y is None or t[1] not in ICMP else int(ICMP[t[1]](x, y))
        a = ev(a, leaf)
        return None if a is None else int((a == c) == eq)
    if k == 'off' and len(t) == 3 and isinstance(t[2], int):
        a = ev(t[1], leaf)
        return None if a is None else a + t[2]
    if k == 'idx':
        a = ev(t[1], leaf)
        vs = [ev(x, leaf) for x in t[2]]
        return None if a is None or None in vs or len(vs) != 1 or t[3] is None else a + vs[0] + t[3]
    if k == 'call' and len(t) == 4 and t[1] in ('std::min', 'std::max', 'smin', 'smax', 'umin', 'umax'):
        a, b = ev(t[2], leaf), ev(t[3], leaf)
        return None if a is None or b is None else (min if 'min' in t[1] else max)(a, b)
    if len(t) == 3 and k in ('slt', 'ult', 'same', 'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
        a, b = ev(t[1], leaf), ev(t[2], leaf)
        if a is None or b is None:
            if k == 'mul' and 0 in (a, b) or k == 'and' and 0 in (a, b):
                return 0
            return None
        if k in ('sdiv', 'udiv', 'srem', 'urem'):
            if b == 0:
                return None
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if 'div' in k else a - q * b
        return {'slt': lambda: int(a < b), 'ult': lambda: int(a % 2**64 < b % 2**64), 'same': lambda: int(a == b), 'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << (b & 63), 'lshr': lambda: (a % 2**64) >> (b & 63), 'ashr': lambda: a >> (b & 63)}[k]()
    return None


def holds(st, leaf, about=None):
    """(no fact contradicts, every fact about these terms could be judged)"""
    full = True
    for t, f in st.facts.items():
        x = ev(t, leaf)
        if x is None:
            if about is None or anyterm(t, about):
                full = False
            continue
        if f[0] == 'eq' and x != s64(f[1]) or f[0] == 'ne' and x in {s64(y) for y in f[1]}:
            return False, full
    return True, full


def path(p):
    """(root, names) of a place"""
    names = []
    while isinstance(p, tuple) and p[0] in ('f', 'off'):
        if p[0] == 'f':
            names.append(p[3])
        elif p[2]:
            names.append('+%d' % p[2])
        p = p[1]
    return p, tuple(reversed(names))


VF = ('colorFamily', 'sampleType', 'bitsPerSample', 'bytesPerSample', 'subSamplingW', 'subSamplingH', 'numPlanes')
AF = ('sampleType', 'bitsPerSample', 'bytesPerSample', 'numChannels', 'channelLayout')
FRAME = ('frame',)


class Deliver(Obj):
    """VSNode::getFrameInternal"""

    def __init__(self, rep, root):
        super().__init__(rep, root)
        self.ends = []

    def key(self, fl, st):
        return frozenset(t for t in st.facts.items() if anyterm(t[0], lambda x: x == FRAME or x == ('arg', 2) or isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and x[2:] in
                         (('VSNode', 'vi'), ('VSNode', 'ai'), ('VSNode', 'nodeType'))))

    def follow_args(self, args):
        return any(anyterm(a, lambda x: x == FRAME) for a in args if isinstance(a, tuple))

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            if I.get('t') == 'ptr' and len(args) >= 6:
                if st.get('asked'):
                    self.bad(fl, st, 'twice', 'the filter is asked for the same frame twice', I)
                st.set('asked', True)
                return FRAME
            return ('u',) if 'i' in I else ('u0',)
        if self.stop(sn):
            return 'stop'
        if sn.endswith(('::insert', '::setObject')) and any(a == FRAME or fl.load(st, a) == FRAME for a in args):
            self.arrive(fl, st, I, 'cached')
            return ('u0',)
        return None

    def arrive(self, fl, st, I, what):
        self.ends.append((what, st.copy(), I))

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        got = v == FRAME or fl.load(st, ('arg', 0)) == FRAME
        if got and fl.known(st, FRAME) != 0:
            self.arrive(fl, st, I, 'returned')
        elif fl.known(st, FRAME) != 0 and st.get('asked'):
            self.bad(fl, st, 'lost', 'a frame the filter made is not handed on', I)


def node_leaf(V, this):
    def leaf(t):
        if t == FRAME:
            return 1000
        if t[0] == 'arg' and t[1] == this + 1:
            return V['n']
        if t[0] != 'ld':
            return None
        r, names = path(t[1])
        if not names:
            return None
        a = names[-1]
        if r == FRAME:
            if a == 'contentType':
                return V['type']
            if a == 'format':
                return V['f.colorFamily' if V['type'] == 1 else 'f.a.sampleType']
            if a in ('width', 'height'):
                return V['f.' + a]
            if 'format' in names or a in VF or a in AF:
                return V.get(('f.' if V['type'] == 1 else 'f.a.') + a)
            return None
        if r == ('arg', this):
            if a == 'nodeType':
                return V['nodeType']
            if names[0] == 'vi':
                return V.get('vi.' + ('colorFamily' if a in ('vi', 'format') else a))
            if names[0] == 'ai':
                return V.get('ai.' + ('sampleType' if a in ('ai', 'format') else a))
        return None
    return leaf


def valuations():
    """(name, valuation, is the frame as declared)"""
    v = {'nodeType': 1, 'type': 1, 'n': 5}
    base = dict(colorFamily=3, sampleType=0, bitsPerSample=10, bytesPerSample=2, subSamplingW=1, subSamplingH=1, numPlanes=3)
    abase = dict(sampleType=0, bitsPerSample=16, bytesPerSample=2, numChannels=2, channelLayout=3)
    for k, x in base.items():
        v['vi.' + k] = v['f.' + k] = x
    for k, x in abase.items():
        v['ai.' + k] = v['f.a.' + k] = x
    v.update({'vi.width': 640, 'vi.height': 480, 'f.width': 640, 'f.height': 480, 'vi.numFrames': 11, 'ai.numFrames': 11, 'ai.numSamples': 11 * 3072, 'ai.sampleRate': 48000})
    out = [('as declared', dict(v), True)]

    def var(name, ok, **kw):
        w = dict(v)
        w.update({k.replace('__', '.'): x for k, x in kw.items()})
        out.append((name, w, ok))
    var('another colour family', False, f__colorFamily=2)
    var('another sample type', False, f__sampleType=1)
    var('another number of bits', False, f__bitsPerSample=12)
    var('another horizontal subsampling', False, f__subSamplingW=0)
    var('another vertical subsampling', False, f__subSamplingH=0)
    var('another width', False, f__width=642)
    var('another height', False, f__height=482)
    var('another width and height', False, f__width=320, f__height=240)
    var('any format where it is variable', True, vi__colorFamily=0, vi__sampleType=0, vi__bitsPerSample=0, vi__bytesPerSample=0, vi__subSamplingW=0, vi__subSamplingH=0, vi__numPlanes=0)
    var('another size where only the format is variable', False, vi__colorFamily=0, vi__sampleType=0, vi__bitsPerSample=0, vi__bytesPerSample=0, vi__subSamplingW=0, vi__subSamplingH=0, vi__numPlanes=0, f__height=482)
    var('any size where it is variable', True, vi__width=0, vi__height=0, f__width=322)
    var('another format where only the size is variable', False, vi__width=0, vi__height=0, f__width=322, f__bitsPerSample=8)
    var('an audio frame from a video node', False, type=2, f__width=3072, f__height=0)
    A = dict(nodeType=2, type=2, f__height=0)
    var('audio as declared', True, f__width=3072, **A)
    var('the last full audio frame', True, f__width=3072, **dict(A, n=10))
    var('the last partial audio frame', True, f__width=1000, ai__numSamples=10 * 3072 + 1000, **dict(A, n=10))
    var('a full last audio frame where it should be partial', False, f__width=3072, ai__numSamples=10 * 3072 + 1000, **dict(A, n=10))
    var('a partial last audio frame where it should be full', False, f__width=1000, **dict(A, n=10))
    var('a partial audio frame before the last', False, f__width=1000, ai__numSamples=10 * 3072 + 1000, **A)
    var('a partial audio frame just before the last', False, f__width=1000, ai__numSamples=10 * 3072 + 1000, **dict(A, n=9))
    var('the audio frame just before the last', True, f__width=3072, ai__numSamples=10 * 3072 + 1000, **dict(A, n=9))
    var('the only, partial audio frame', True, f__width=7, ai__numSamples=7, ai__numFrames=1, **dict(A, n=0))
    var('an empty audio frame', False, f__width=0, **A)
    var('another audio sample type', False, f__width=3072, f__a__sampleType=1, **A)
    var('another audio sample size', False, f__width=3072, f__a__bitsPerSample=24, **A)
    var('another channel layout', False, f__width=3072, f__a__channelLayout=12, **A)
    Z = {('vi__' + k): 0 for k in list(VF) + ['width', 'height', 'numFrames']}
    var('a video frame from an audio node', False, **dict(Z, nodeType=2, type=1))
    var('a video frame of a declared size from an audio node', False, **dict(nodeType=2, type=1))
    return out


def deliver(P, rep, F, tot):
    this = 1 if F.dtypes and F.dtypes[0] != 'void' and 'sret' in repr(F.args[:1]) else None
    if this is None:
        # a class returned through memory: node comes second
        this = 1 if len(F.args) == 5 else 0
    c = Deliver(rep, F)
    run(P, rep, c, F)
    about = lambda x: x == FRAME
    seen = {}
    for name, V, good in valuations():
        leaf = node_leaf(V, this)
        any_ = False
        for what, st, I in c.ends:
            ok, full = holds(st, leaf, about)
            if not ok:
                continue
            any_ = any_ or what == 'returned'
            if not good:
                if full:
                    rep.violation('declared', F.loc(I), F.dem.split('(')[0], 'a frame that is not as declared (%s) is %s' % (name, what), path=' '.join('%s=%d' % h for h in st.hist))
                else:
                    rep.cannot(F.dem.split('(')[0], 'a test of the frame is not understood')
                break
        if good and not any_:
            rep.violation('declared', F.loc(F.blocks[0][0]), F.dem.split('(')[0], 'a frame that is as declared (%s) is not handed on' % name, path='')
        seen[name] = any_
    tot['places where a frame is handed on'] = len(c.ends)
    tot['kinds of frames judged against the declaration'] = len(seen)


# ------------------------------------------------------------------ plane access

class Access(Obj):
    """what an accessor returns on each path"""
    def __init__(self, rep, root):
        super().__init__(rep, root)
        self.ends = []

    def key(self, fl, st):
        return super().key(fl, st), frozenset(st.facts.items())

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',)
        if self.stop(sn):
            return 'stop'
        if sn == 'operator new':
            return self.new(fl, st, I)
        if sn.startswith('VSPlaneData::'):
            m = sn.split('::')[1]
            if m == 'unique':
                return ('call', 'unique', args[0])
            return ('u0',) if 'i' not in I else ('u',)
        return None

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        self.ends.append((st.copy(), v, F.blocks[b][n]))


def frame_leaf(V, st, fl, this=('arg', 0)):
    """fields of one frame, base addresses of its planes"""
    def planeno(p):
        """index of an element of data[]"""
        off = 0
        if p[0] == 'off':
            off, p = p[2], p[1]
        elif p[0] == 'idx':
            x = [ev(y, leaf) for y in p[2]]
            if None in x or len(x) != 1:
                return None
            off, p = p[3] + 8 * x[0], p[1]
        if p == ('f', this, 'VSFrame', 'data') or p == ('f', this, 'VSFrame', 'stride'):
            return off // 8
        return None

    def leaf(t):
        if t in V:
            return V[t]
        if t[0] == 'idx' and isinstance(t[1], tuple) and t[1][0] == 'ld' and is_fieldname(t[1][1], 'data'):
            pass
        if t[0] == 'call' and t[1] == 'unique':
            return None
        if t[0] != 'ld':
            return None
        p = t[1]
        if is_field(p, 'VSPlaneData', 'data'):
            o = p[1]
            if o[0] == 'ld':
                k = planeno(o[1])
                return None if k is None else 10**9 * (k + 1)
            for q, w in st.mem.items():
                if w == o:
                    k = planeno(q)
                    if k is not None:
                        return 10**9 * (k + 1)
            return None
        r, names = path(p)
        if r == this and names:
            if names[-1] == 'contentType':
                return V['type']
            if names[-1] in V and names[-1] != 'stride':
                return V[names[-1]]
            if names[0] == 'format' and names[-1] == 'format':
                return V.get('colorFamily')
        k = planeno(p)
        if k is not None:
            q = p
            while q[0] in ('off', 'idx'):
                q = q[1]
            if q[3] == 'stride':
                return V['stride'][k] if 0 <= k < 3 else -77777
        return None
    return leaf


def formats():
    for ssw, ssh, np in ((0, 0, 1), (0, 0, 3), (1, 1, 3), (1, 0, 3), (0, 1, 3), (2, 0, 3), (2, 2, 3)):
        for bps in (1, 2, 4):
            for w, h in ((640, 480), (644, 12), (32, 4), (1920, 1088)):
                yield dict(type=1, numPlanes=np, subSamplingW=ssw, subSamplingH=ssh, bytesPerSample=bps, width=w, height=h)


def accessor(P, rep, F, tot):
    m = F.dem.split('(')[0].split('::')[-1]
    c = Access(rep, F)
    run(P, rep, c, F)
    bad = set()
    ni = 0
    for V in itertools.chain(formats(), (dict(type=2, numPlanes=ch, width=w, height=0, bytesPerSample=b, subSamplingW=0, subSamplingH=0) for ch in (1, 2, 8) for b in (2, 4) for w in (1000, 3072))):
        if V['type'] == 2 and m not in ('getReadPtr', 'getWritePtr'):
            continue
        np = V['numPlanes']
        V['stride'] = ((7000, 8000, 9000) if np == 3 else (7000, 0, 0)) if V['type'] == 1 else (V['bytesPerSample'] * 3072, 0, 0)
        for pl in (-2**31, -1, 0, 1, 2, 3, 4, 7, 8, 2**31 - 1):
            V[('arg', 1)] = pl
            inside = 0 <= pl < np
            if m in ('getWidth', 'getHeight'):
                if not inside:
                    continue
                d = 'W' if m == 'getWidth' else 'H'
                want = V['width' if d == 'W' else 'height'] >> (V['subSampling' + d] if pl else 0)
            elif m == 'getStride':
                want = V['stride'][pl] if inside else 0
            elif not inside:
                want = 0
            elif V['type'] == 1:
                want = 10**9 * (pl + 1)
            else:
                want = 10**9 + pl * V['stride'][0]
            got = False
            for st, v, I in c.ends:
                leaf = frame_leaf(V, st, None)
                ok, full = holds(st, leaf, lambda x: x == ('arg', 1))
                if not ok:
                    continue
                got = True
                ni += 1
                r = address(v, leaf)
                if r is None:
                    rep.cannot(F.dem.split('(')[0], 'the value returned is not understood')
                    continue
                if r != want and full and (m, I['_n'] if '_n' in I else 0) not in bad:
                    bad.add((m, I['_n'] if '_n' in I else 0))
                    what = 'plane %d of %s frame with %d %s' % (pl, 'a video' if V['type'] == 1 else 'an audio', np, 'planes' if V['type'] == 1 else 'channels')
                    rep.violation('access', F.loc(I), F.dem.split('(')[0], '%s, %s: %s' % (m, what, 'something is handed out although there is no such plane' if not inside else 'the value does not belong to that plane'),
                                  path=' '.join('%s=%d' % h for h in st.hist))
            if not got and inside and (m, 'none') not in bad:
                bad.add((m, 'none'))
                rep.violation('access', F.loc(F.blocks[0][0]), F.dem.split('(')[0], '%s returns nothing for plane %d of a frame with %d' % (m, pl, np), path='')
    tot['plane accesses judged'] = tot.get('plane accesses judged', 0) + ni


def address(v, leaf):
    """value or byte address"""
    if v[0] == 'idx':
        a = address(v[1], leaf)
        x = [ev(y, leaf) for y in v[2]]
        return None if a is None or None in x or len(x) != 1 else a + x[0] + v[3]
    if v[0] == 'off':
        a = address(v[1], leaf)
        return None if a is None else a + v[2]
    return ev(v, leaf)



# ------------------------------------------------------------------ construction

ALIGN = '_ZN7VSFrame9alignmentE'
THIS = ('arg', 0)


def isplane(p, f='data'):
    while p[0] in ('off', 'idx'):
        p = p[1]
    return p == ('f', THIS, 'VSFrame', f)


class Make(Obj):
    """a constructor of frames"""

    def __init__(self, rep, root, audio, src, len0):
        super().__init__(rep, root)
        self.audio, self.src, self.len0 = audio, src, len0
        self.shares, self.ends, self.done, self.looped, self.later = 0, 0, set(), False, []

    def key(self, fl, st):
        skip = lambda x: isinstance(x, tuple) and (len(x) == 4 and x[0] == 'f' and x[2] == 'VSCore' or x[:1] in (('al',), ('call',)))
        return frozenset(t for t in st.facts.items() if not anyterm(t[0], skip))

    def follow_args(self, args):
        return False

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',)
        if self.stop(sn):
            return 'stop'
        if sn == 'operator new':
            return self.new(fl, st, I)
        m = sn.split('::')[-1]
        if sn == 'VSPlaneData::VSPlaneData' and len(args) == 3:
            st.mem[('f', args[0], 'VSPlaneData', 'size')] = args[1]
            return ('u0',)
        if sn.startswith('VSPlaneData::'):
            return ('u0',) if 'i' not in I else ('u',)
        if sn in ('VSFrame::getReadPtr', 'VSFrame::getWritePtr'):
            return ('call', m, args[0], args[1])
        if sn == 'VSFrame::setAllocationInfo':
            return ('u0',)
        if sn.startswith(('VSMap::', 'std::')) or 'basic_string' in sn:
            if sn == 'VSMap::operator=' or sn == 'VSMap::VSMap':
                st.set('props', args[1] if len(args) > 1 else C0)
            return ('u',) if 'i' in I else ('u0',)
        return None

    def block(self, fl, st, I, what, args):
        if what == 'memcpy' and args[0] == ('f', THIS, 'VSFrame', 'format'):
            st.set('fmt', args[1])
        elif what in ('memcpy', 'memmove') and args[0][:2] == ('call', 'getWritePtr'):
            self.copied(fl, st, I, args)

    def store(self, fl, st, I, p, v):
        if v != C0 and isplane(p):
            self.plane(fl, st, I, p, v)

    # ---- valuations

    def leaf(self, V, st, loop):
        def index(p):
            off = 0
            if p[0] == 'off':
                off, p = p[2], p[1]
            elif p[0] == 'idx':
                x = [ev(y, leaf) for y in p[2]]
                if None in x or len(x) != 1:
                    return None, p[1]
                off, p = (p[3] or 0) + 8 * x[0], p[1]
            return off // 8, p

        def leaf(t):
            if t[0] == 'arg':
                return V.get(t)
            if t in loop:
                return V.get('i')
            if t[0] != 'ld':
                return None
            p = t[1]
            if p == ('g', ALIGN):
                return V['align']
            k, q = index(p)
            if q == ('arg', self.src):
                return V.get('srcptr', 5000)
            if q == ('arg', (self.src or 0) + 1) and self.src:
                return V.get('k')
            r, names = path(q)
            if not names:
                return None
            a = names[-1]
            if r == ('arg', 1) and not names[0] == 'properties':
                return V.get(a)
            if r == THIS:
                if a == 'stride' and k is not None:
                    for c in (('off', q, 8 * k) if k else q, ):
                        w = st.mem.get(c)
                        return None if w is None or w == t else ev(w, leaf)
                if names[0] == 'format' and st.get('fmt') == ('arg', 1):
                    return V.get('colorFamily' if a == 'format' else a)
                return None
            if anyterm(r, lambda x: x == ('arg', self.src)):
                if a == 'contentType':
                    return V.get('s.type')
                return V.get('s.' + a)
            return None
        return leaf

    def loopvars(self, p):
        out = set()
        if p[0] == 'idx':
            for y in p[2]:
                while y[0] in ('sext', 'zext', 'trunc'):
                    y = y[1]
                if y[0] != 'c':
                    out.add(y)
        return out

    def grid(self):
        for al in (32, 64):
            if self.audio:
                for ch in (1, 2, 8):
                    for b in (2, 4):
                        for n in (1, 1000, 3072):
                            yield dict({('arg', 2): n}, numChannels=ch, bytesPerSample=b, align=al, width=n, height=0, numPlanes=ch)
            else:
                for V in formats():
                    V.update({('arg', 2): V['width'], ('arg', 3): V['height'], 'align': al})
                    yield V

    def source(self, V, i, k):
        """the source frame that fits plane i, plane k of it"""
        W = dict(V, i=i, k=k)
        W['s.type'] = 2 if self.audio else 1
        W['s.bytesPerSample'] = V['bytesPerSample']
        if self.audio:
            W['s.numPlanes'] = W['s.numChannels'] = max(k + 1, 2)
            W['s.width'] = V['width']
            return W
        w, h = V['width'] >> (V['subSamplingW'] if i else 0), V['height'] >> (V['subSamplingH'] if i else 0)
        W['s.numPlanes'] = 3 if k else 1
        W['s.subSamplingW'], W['s.subSamplingH'] = (1, 1) if k else (0, 0)
        W['s.width'], W['s.height'] = (w * 2, h * 2) if k else (w, h)
        return W

    def once(self, rule, fl, st, msg, I):
        F = st.stack[-1][0]
        if (rule, F.loc(I), msg) not in self.done:
            self.done.add((rule, F.loc(I), msg))
            self.bad(fl, st, rule, msg, I)

    def judge(self, fl, st, I, loop, k_known, what, extra):
        """facts must reject every source plane that does not fit"""
        n = 0
        for V in self.grid():
            if V['align'] != 64 or not self.audio and (V['width'], V['height']) not in ((640, 480), (32, 4)):
                continue
            for i in range(V['numPlanes'] if loop else 1):
                for k in (0, 1, 2):
                    good = self.source(V, i, k)
                    devs = [('', good, True), ('a negative plane number', dict(good, k=-1), False), ('a plane number past the last', dict(good, k=good['s.numPlanes']), False),
                            ('a plane of more bytes per sample', dict(good, **{'s.bytesPerSample': 8}), False), ('a plane of fewer bytes per sample', dict(good, **{'s.bytesPerSample': 0.5}), False)]
                    if self.audio:
                        devs += [('a shorter channel', dict(good, **{'s.width': good['s.width'] - 1}), False)]
                    else:
                        devs += [('a narrower plane', dict(good, **{'s.width': good['s.width'] // 2}), False), ('a lower plane', dict(good, **{'s.height': good['s.height'] // 2}), False),
                                 ('a plane of half the width and twice the height', dict(good, **{'s.width': good['s.width'] // 2, 's.height': good['s.height'] * 2}), False)]
                    for name, W, ok in devs:
                        leaf = self.leaf(W, st, loop)
                        yes, full = holds(st, leaf, lambda x: x == ('arg', self.src) or x == ('arg', self.src + 1))
                        if not yes:
                            continue
                        n += 1
                        if not ok:
                            if full:
                                self.once('source', fl, st, '%s %s' % (name, what), I)
                            else:
                                self.rep.cannot(fl.root.dem.split('(')[0], 'a test of the source plane is not understood')
                            return n
                        m = extra(W, leaf)
                        if m:
                            self.once('source', fl, st, m, I)
                            return n
        return n

    def plane(self, fl, st, I, p, v):
        loop = self.loopvars(p)
        place = p

        def slot(leaf):
            if p[0] == 'off':
                return p[2] // 8
            if p[0] == 'idx':
                x = ev(p[2][0], leaf)
                return None if x is None else x + (p[3] or 0) // 8
            return 0
        if loop:
            self.looped = True
        if v[:2] == ('o', 'new'):
            size = st.mem.get(('f', v, 'VSPlaneData', 'size'))
            self.did('plane allocations judged')
            for V in self.grid():
                for i in range(V['numPlanes'] if loop else 1):
                    W = dict(V, i=i, srcptr=0)
                    leaf = self.leaf(W, st, loop)
                    ok, full = holds(st, leaf)
                    if not ok:
                        continue
                    k = slot(leaf)
                    if k is None or size is None or k >= 3 or not self.audio and k >= V['numPlanes']:
                        continue
                    have = ev(size, leaf)
                    stride = self.stride(st, leaf, k)
                    if have is None or stride is None:
                        self.rep.cannot(fl.root.dem.split('(')[0], 'the size of a plane is not understood')
                        return
                    if self.audio:
                        need = stride * V['numChannels']
                    else:
                        need = stride * (V['height'] >> (V['subSamplingH'] if k else 0))
                    if have < need:
                        self.once('size', fl, st, 'the memory of plane %d is smaller than its lines (%d instead of %d bytes for %s)' % (k, have, need, self.describe(V)), I)
                        return
            return
        # shared with another frame
        q = v[1] if v[0] == 'ld' else None
        base = q
        while base and base[0] in ('off', 'idx'):
            base = base[1]
        if not base or not is_fieldname(base, 'data') or not self.src:
            if fl.root.dem.count('VSFrame const&') and base and is_fieldname(base, 'data'):
                return
            self.rep.cannot(fl.root.dem.split('(')[0], 'what is stored as a plane is not understood')
            return
        self.shares += 1
        self.did('shared planes judged')

        def extra(W, leaf):
            if q[0] == 'idx':
                x = ev(q[2][0], leaf)
            else:
                x = q[2] // 8 if q[0] == 'off' else 0
            if x is not None and x != W['k']:
                return 'another plane of the source than the one asked for is shared'
            x = slot(leaf)
            if x is not None and x != W['i'] and loop:
                return 'a plane is shared as another one than asked for'
        self.judge(fl, st, I, loop, None, 'of another frame is shared', extra)

    def stride(self, st, leaf, k):
        q = ('f', THIS, 'VSFrame', 'stride')
        w = st.mem.get(('off', q, 8 * k) if k else q)
        return None if w is None else ev(w, leaf)

    def describe(self, V):
        return '%d channels of %d bytes, %d samples' % (V['numChannels'], V['bytesPerSample'], V['width']) if self.audio else \
            '%dx%d, %d bytes, subsampling %d,%d' % (V['width'], V['height'], V['bytesPerSample'], V['subSamplingW'], V['subSamplingH'])

    def copied(self, fl, st, I, args):
        dst, src, n = args[:3]
        self.did('copied channels judged')
        loop = set()
        for x in (dst[3],):
            while x[0] in ('sext', 'zext', 'trunc'):
                x = x[1]
            if x[0] != 'c':
                loop.add(x)
        if src[:2] != ('call', 'getReadPtr') or dst[2] != THIS:
            self.rep.cannot(fl.root.dem.split('(')[0], 'what is copied into a frame is not understood')
            return

        def extra(W, leaf):
            x = ev(src[3], leaf)
            if x is not None and x != W['k']:
                return 'another channel of the source than the one asked for is copied'
            x = ev(n, leaf)
            if x is None:
                self.rep.cannot(fl.root.dem.split('(')[0], 'the number of bytes copied is not understood')
            elif x != W['width'] * W['bytesPerSample']:
                return 'a channel is copied with the wrong number of bytes'
        self.judge(fl, st, I, loop, None, 'of another frame is copied', extra)

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        self.ends += 1
        self.did('finished frames judged')
        m = lambda f: st.mem.get(('f', THIS, 'VSFrame', f))
        if st.get('fmt') != ('arg', 1):
            self.once('format', fl, st, 'the format of the new frame is not the one asked for', I)
            return
        for V in self.grid():
            leaf = self.leaf(V, st, set())
            ok, full = holds(st, leaf)
            if not ok:
                continue
            want = {'contentType': 2 if self.audio else 1, 'width': V['width'], 'numPlanes': V['numPlanes']}
            if not self.audio:
                want['height'] = V['height']
            for f, x in want.items():
                w = m(f)
                y = None if w is None else ev(w, leaf)
                if w is None or y is not None and y != x:
                    self.once('fields', fl, st, 'the new frame has the wrong %s' % f, I)
            for k in range(1 if self.audio else V['numPlanes']):
                s = self.stride(st, leaf, k)
                if self.audio:
                    low, al = V['bytesPerSample'] * 3072, V['bytesPerSample']
                else:
                    low, al = (V['width'] >> (V['subSamplingW'] if k else 0)) * V['bytesPerSample'], V['align']
                if s is None:
                    self.rep.cannot(fl.root.dem.split('(')[0], 'the stride of a plane is not understood')
                    return
                if s < low:
                    self.once('stride', fl, st, 'the stride of plane %d is too small (%d instead of %d for %s)' % (k, s, low, self.describe(V)), I)
                    return
                if s % al:
                    self.once('stride', fl, st, 'the stride of plane %d is not a multiple of the alignment' % k, I)
                    return
                if not self.src:
                    p = ('f', THIS, 'VSFrame', 'data')
                    w = st.mem.get(('off', p, 8 * k) if k else p)
                    if w is None or w == C0:
                        # a loop that stores planes runs as often as it has to
                        self.later.append((fl, st.copy(), I, 'plane %d of the new frame has no memory' % k))
                        return
        for w, h in ((0, 5), (5, 0), (-1, 5), (5, -1), (3073, 5)):
            if self.audio and h != 5 or not self.audio and w == 3073:
                continue
            for V in self.grid():
                V.update({('arg', 2): w, ('arg', 3): h})
                if self.audio:
                    V.pop(('arg', 3))
                if holds(st, self.leaf(V, st, set()))[0]:
                    self.once('dimensions', fl, st, 'a frame of %s is made' % ('%d samples' % w if self.audio else 'dimensions %dx%d' % (w, h)), I)
                    break


class CopyOf(Obj):
    """the copy constructor"""
    FIELDS = ('contentType', 'numPlanes', 'width', 'height', 'core')

    def __init__(self, rep, root):
        super().__init__(rep, root)
        self.later, self.looped = [], set()

    def key(self, fl, st):
        return super().key(fl, st), frozenset(st.facts.items())

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',)
        if self.stop(sn):
            return 'stop'
        if sn.startswith('VSPlaneData::'):
            return ('u0',) if 'i' not in I else ('u',)
        if sn.startswith('VSMap::') and len(args) > 1:
            r, names = path(args[0])
            r2, names2 = path(args[1])
            if r == THIS:
                st.set('props', r2 == ('arg', 1) and names2[:1] == ('properties',))
            return ('u',) if 'i' in I else ('u0',)
        if sn.startswith('VSFrame::') or sn.startswith('std::') or 'basic_string' in sn:
            return ('u',) if 'i' in I else ('u0',)
        return None

    def store(self, fl, st, I, p, v):
        if p[0] == 'idx' and v[0] == 'ld' and v[1][0] == 'idx':
            r, names = path(p[1])
            r2, names2 = path(v[1][1])
            if r == THIS and r2 == ('arg', 1) and names == names2 and p[2:] == v[1][2:]:
                self.looped.add(names[0])

    def block(self, fl, st, I, what, args):
        r, names = path(args[0])
        r2, names2 = path(args[1])
        if what == 'memcpy' and r == THIS and r2 == ('arg', 1) and names == names2 and args[2][0] == 'c':
            st.set('blk:' + names[0], args[2][1])

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        self.did('finished frames judged')
        other = lambda f: ('f', ('arg', 1), 'VSFrame', f)
        mine = lambda f: ('f', THIS, 'VSFrame', f)

        def same(p, q, f):
            w = st.mem.get(p)
            if w != ('ld', q) and not st.get('blk:' + f):
                null = w == C0 and fl.known(st, ('ld', q)) == 0
                if not null:
                    self.later.append((fl, st.copy(), I, f))
        for f in self.FIELDS:
            same(mine(f), other(f), f)
        first = fl.known(st, ('ld', ('off', other('data'), 8)))
        for f in ('data', 'stride'):
            same(mine(f), other(f), f)
            for k in (1, 2):
                if f == 'data' and k == 2 and first == 0:
                    continue
                same(('off', mine(f), 8 * k), ('off', other(f), 8 * k), f)
        if not st.get('blk:format'):
            self.bad(fl, st, 'copy', 'a copied frame does not have the format of the original', I)
        if not st.get('props'):
            self.bad(fl, st, 'copy', 'a copied frame does not have the properties of the original', I)


def ctor(P, rep, F, tot):
    ts = F.dtypes[1:]
    audio = any('VSAudioFormat' in t for t in ts)
    video = any('VSVideoFormat' in t for t in ts)
    if not audio and not video:
        c = CopyOf(rep, F)
    else:
        # this, format, length or dimensions, [sources, planes,] properties, core
        src = next((k for k, t in enumerate(ts) if t.count('*') == 2), None)
        c = Make(rep, F, audio, src, 2)
    run(P, rep, c, F)
    if isinstance(c, Make) and not c.looped:
        for fl, st, I, m in c.later:
            c.once('size', fl, st, m, I)
    if isinstance(c, CopyOf):
        for fl, st, I, f in c.later:
            if f not in c.looped:
                c.bad(fl, st, 'copy', 'a copied frame does not have the %s of the original' % f, I)
    if isinstance(c, Make) and not c.ends:
        rep.violation('made', F.loc(F.blocks[0][0]), F.dem.split('(')[0], 'no frame is ever finished', path='')
    for k, v in c.seen.items():
        tot[k] = tot.get(k, 0) + v
    tot['constructors'] = tot.get('constructors', 0) + 1


def analyse(P, rep):
    tot = {}
    for F in P.repo_funcs():
        n = F.dem.split('(')[0]
        if n == 'VSNode::getFrameInternal':
            deliver(P, rep, F, tot)
        elif n in ('VSFrame::getReadPtr', 'VSFrame::getWritePtr', 'VSFrame::getStride', 'VSFrame::getWidth', 'VSFrame::getHeight'):
            accessor(P, rep, F, tot)
        elif n == 'VSFrame::VSFrame':
            ctor(P, rep, F, tot)
    return tot
