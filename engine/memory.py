"""The accounting of frame memory: every block handed out is counted once, with its size, until it comes back; blocks kept
for reuse are counted apart; no block is handed out, kept or released twice."""
import re
from flow import *
from flow import ICMP, C0
from objs import Obj, is_fieldname
from props import run
from frames import ev, holds

THIS = ('arg', 0)
COUNTERS = ('m_allocated', 'm_freelist_size')
CLS = 'vs::MemoryUse'
SYSALLOC = ('vsh::vsh_aligned_malloc', 'aligned_alloc', 'malloc', 'std::aligned_alloc', 'std::malloc', 'operator new')
SYSFREE = ('vsh::vsh_aligned_free', 'free', 'std::free', 'operator delete')


def fieldname(p):
    while isinstance(p, tuple) and p[0] in ('f', 'off'):
        if p[0] == 'f' and p[1] == THIS:
            return p[3].split('.')[0].split('+')[0]
        p = p[1]
    return None


def base_off(t):
    """(pointer, bytes)"""
    n = 0
    while isinstance(t, tuple) and (t[0] == 'off' and isinstance(t[2], int) or t[0] in ('add',) and t[2][0] == 'c' or t[0] == 'f' and len(t) == 4 and t[2].endswith('BlockHeader')):
        if t[0] == 'f':
            t = t[1]
            continue
        d = t[2] if t[0] == 'off' else t[2][1]
        n += d - 2**64 if d >= 2**63 else d
        t = t[1]
    return t, n


class Mem(Obj):
    def __init__(self, rep, root):
        super().__init__(rep, root)
        self.outs, self.ins, self.done = [], [], set()
        self.counts = True

    def event(self, F, I, dem, sn):
        return bool(sn) and (sn in SYSALLOC or sn in SYSFREE)

    def event_store(self, c, f):
        return c.endswith('MemoryUse')

    def follows(self, G, sn):
        return 'MemoryUse::' in sn

    def key(self, fl, st):
        skip = lambda x: isinstance(x, tuple) and (x[:1] == ('node',) or x[:2] in (('o', 'it'), ('o', 'v')) or is_fieldname(x, 'm_limit') or is_fieldname(x, 'm_freelist_size') or x[:2] == ('call', 'empty'))
        return frozenset(t for t in st.facts.items() if not anyterm(t[0], skip)), st.get('ev'), st.get('trimmed'), st.get('gone')

    def once(self, rule, fl, st, msg, I=None):
        F = st.stack[-1][0]
        k = (rule, msg)
        if k not in self.done:
            self.done.add(k)
            self.bad(fl, st, rule, msg, I)

    def log(self, fl, st, I, *e):
        ev_ = st.get('ev', ()) + (e,)
        if len(ev_) > 14:
            self.once('balance', fl, st, 'blocks are moved in a loop without the counts following', I)
            return False
        st.set('ev', ev_)
        self.settle(fl, st)
        return True

    def fresh(self, fl, st, I):
        F, b, n = st.stack[-1]
        t = ('o', 'it', fl.site(st.stack), F.name[:40], I.get('i', I['_n']))
        fl.forget(st, t)
        return t

    # ---- what is one block

    def ptr(self, t):
        """the block an address lies in, and how far"""
        return base_off(t)

    def size(self, st, t):
        """canonical size term"""
        t = self.strip(t)
        if t[0] == 'ld':
            b, n = base_off(t[1])
            if b[0] == 'ld' and n == 0:
                m, k = base_off(b[1])
                if m[0] == 'node' and k == 8:
                    return ('ld', m)
            if b[0] == 'node' and n == 0:
                return ('ld', b)
            if n == 0 and b[0] == 'o' and b[1] == 'new':
                for p, v in st.mem.items():
                    if base_off(p) == (b, 0):
                        return self.strip(v)
            if b == ('arg', 1):
                return ('hdr', n)
        return t

    def strip(self, t):
        while isinstance(t, tuple) and t[0] in ('zext', 'sext', 'trunc', 'freeze'):
            t = t[1]
        return t

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',) if 'i' in I else ('u0',)
        if self.stop(sn):
            return 'stop'
        f = fieldname(args[0]) if args else None
        m = sn.split('::')[-1].split('[')[0]
        if sn in SYSALLOC and args:
            o = self.new(fl, st, I)
            size = args[0] if 'aligned_alloc' not in sn else args[1]
            st.mem.pop(('f', o, CLS + '::BlockHeader', 'size'), None)
            return o if self.log(fl, st, I, 'sys', o, self.strip(size)) else 'stop'
        if sn.startswith(SYSFREE) and args:
            if args[0] == THIS:
                return ('u0',)
            b, n = base_off(args[0])
            if fl.root.dem.split('(')[0].split('::')[-1].startswith('~') and b[0] == 'ld' and base_off(b[1])[0][0] == 'node' and base_off(b[1])[1] == 8:
                # each of the blocks still listed
                self.did('kept blocks released at the end')
                return ('u0',)
            return ('u0',) if self.log(fl, st, I, 'free', b, n) else 'stop'
        if m == '~MemoryUse' and args[0] == THIS:
            self.gone(fl, st, I)
            return ('u0',)
        if f in COUNTERS and 'atomic' in sn:
            if m in ('operator+=', 'fetch_add', 'operator-=', 'fetch_sub'):
                if not self.log(fl, st, I, 'cnt', f, 1 if '+' in m or 'add' in m else -1, self.size(st, args[1])):
                    return 'stop'
                return None
            if m in ('operator++', 'operator--'):
                self.once('count', fl, st, 'a count of bytes is changed by one', I)
            elif m in ('store', 'operator=', 'exchange'):
                self.once('count', fl, st, 'a count of bytes is overwritten', I)
            return None
        if f == 'm_freelist':
            if 'emplace' in m or m.startswith('insert') or m.startswith('_M_insert') or m.startswith('_M_emplace'):
                a = args[1:]
                if len(a) == 1:
                    k, p = fl.load(st, a[0]), fl.load(st, ('off', a[0], 8))
                else:
                    k, p = fl.load(st, a[0]), fl.load(st, a[1])
                return ('u',) if self.log(fl, st, I, 'put', *base_off(p), self.size(st, k)) else 'stop'
            if m == 'erase' and len(args) == 2:
                it = args[1]
                if it[0] == 'al':
                    it = fl.load(st, it)
                return ('u',) if self.log(fl, st, I, 'take', it) else 'stop'
            if m in ('erase', 'clear', 'extract', 'merge', 'swap', 'operator='):
                self.rep.cannot(fl.root.dem.split('(')[0], 'a change of the list of kept blocks that is not understood (%s)' % m)
                return ('u',)
            if m in ('lower_bound', 'upper_bound', 'find'):
                return ('call', 'bound', m, self.strip(fl.load(st, args[1])))
            if m == 'empty':
                return ('call', 'empty')
            if m in ('end', 'cend'):
                return ('call', 'end')
            if m in ('begin', 'cbegin', 'rbegin'):
                return self.fresh(fl, st, I)
            return None
        if '_Rb_tree_' in sn and m in ('operator++', 'operator--') and args[0][0] in ('al', 'f', 'off'):
            old = fl.load(st, args[0])
            st.env[-1]['$it'] = old
            fl.do_store(st, I, args[0], self.fresh(fl, st, I))
            old = st.env[-1].pop('$it')
            return old if dem.endswith('(int)') else args[0]
        if '_Rb_tree_' in sn and m in ('operator->', 'operator*'):
            return ('node', fl.load(st, args[0]))
        if sn in ('std::min', 'std::max'):
            return ('call', sn, fl.load(st, args[0]), fl.load(st, args[1]))
        return None

    def prestore(self, fl, st, I, p, v, old):
        if I['o'] in ('store', 'atomicrmw', 'cmpxchg') and fieldname(p) in COUNTERS and not self.ctor:
            f = fieldname(p)
            if v[0] in ('add', 'sub') and v[1] == old:
                sg, d = (1 if v[0] == 'add' else -1), v[2]
                if d[0] == 'c' and d[1] < 0:
                    sg, d = -sg, ('c', -d[1])
                self.log(fl, st, I, 'cnt', f, sg, self.size(st, d))
            else:
                self.once('count', fl, st, 'a count of bytes is overwritten', I)

    # ---- balance

    def sources(self, st, evs):
        out = {}
        for e in evs:
            if e[0] == 'sys' and fl_known(st, e[1]) != 0:
                out[e[1]] = ('sys', e[2])
            elif e[0] == 'take':
                out[('ld', ('off', ('node', e[1]), 8))] = ('take', ('ld', ('node', e[1])))
        return out

    def wanted(self, st, b, kind, size, sinks):
        """counter changes that belong to what happened to this block"""
        w = []
        if kind == 'take':
            w.append(('m_freelist_size', -1, size))
        for s in sinks:
            if s[0] == 'put':
                w.append(('m_freelist_size', 1, s[3]))
        held = kind == 'arg'
        left = any(s[0] == 'out' for s in sinks)
        if left and not held:
            w.append(('m_allocated', 1, size))
        if held and sinks:
            w.append(('m_allocated', -1, size))
        return w

    def settle(self, fl, st, final=False, out=None):
        """drop blocks whose story is complete and counted; at the end everything must be"""
        evs = list(st.get('ev', ()))
        src = self.sources(st, evs)
        sinks = {}
        for e in evs:
            if e[0] in ('free', 'put'):
                sinks.setdefault(e[1], []).append(e)
        if out is not None:
            sinks.setdefault(out[0], []).append(('out',) + out)
        cnt = [e for e in evs if e[0] == 'cnt']
        if not final:
            for b, (kind, size) in src.items():
                ss = sinks.get(b, [])
                if len(ss) != 1:
                    continue
                w = self.wanted(st, b, kind, size, ss)
                left = list(cnt)
                for x in w:
                    m = ('cnt',) + x
                    if m not in left:
                        break
                    left.remove(m)
                else:
                    drop = ss + [('cnt',) + x for x in w]
                    st.set('moved', True)
                    new = []
                    for e in evs:
                        if e in drop:
                            drop.remove(e)
                        elif e[0] == 'sys' and e[1] == b or e[0] == 'take' and ('ld', ('off', ('node', e[1]), 8)) == b:
                            pass
                        else:
                            new.append(e)
                    st.set('ev', tuple(new))
                    return
            return
        I = None
        want = []
        for b, (kind, size) in src.items():
            ss = sinks.pop(b, [])
            if not ss:
                self.once('lost', fl, st, 'a block that was %s is neither handed out, kept nor released' % ('allocated' if kind == 'sys' else 'taken from the list of kept blocks'))
            if len(ss) > 1:
                self.once('twice', fl, st, 'one block ends up in two places (%s)' % ', '.join({'put': 'kept for reuse', 'free': 'released', 'out': 'handed out'}[s[0]] for s in ss))
            want += self.wanted(st, b, kind, size, ss)
            for s in ss:
                self.judge(fl, st, kind, size, s)
        arg = ('arg', 1)
        for b, ss in sinks.items():
            if b == arg and self.takes:
                if len(ss) > 1:
                    self.once('twice', fl, st, 'one block ends up in two places (%s)' % ', '.join({'put': 'kept for reuse', 'free': 'released', 'out': 'handed out'}[s[0]] for s in ss))
                size = ('hdr', ss[0][2])
                want += self.wanted(st, b, 'arg', size, ss)
                for s in ss:
                    self.ins.append(s[2])
                    if s[0] == 'put' and s[3] != size:
                        self.once('size', fl, st, 'a block is kept under another size than its own')
            elif b != C0:
                n = next(iter(ss))
                second = b[0] == 'ld' and base_off(b[1])[0][0] == 'node'
                self.once('foreign', fl, st, 'memory that is not a block of its own is %s' % {'put': 'kept for reuse', 'free': 'released while still listed' if second else 'released', 'out': 'handed out'}[n[0]])
        if self.takes and arg not in sinks:
            self.once('lost', fl, st, 'a block given back is neither kept nor released')
        have = [e[1:] for e in cnt]
        if self.counts:
            for x in list(want):
                if x in have:
                    have.remove(x)
                    want.remove(x)
            self.did('movements of blocks judged')
            for f, sg, t in want:
                other = [h for h in have if h[0] == f]
                what = 'bytes in use' if f == 'm_allocated' else 'bytes kept for reuse'
                if other:
                    self.once('count', fl, st, 'the count of %s changes by something else than the size of the block' % what)
                else:
                    self.once('count', fl, st, 'the count of %s does not %s by the size of the block' % (what, 'grow' if sg > 0 else 'shrink'))
            if not want and have:
                self.once('count', fl, st, 'the count of %s changes without a block moving' % ('bytes in use' if have[0][0] == 'm_allocated' else 'bytes kept for reuse'))

    def judge(self, fl, st, kind, size, s):
        if s[0] == 'put' and s[3] != size:
            self.once('size', fl, st, 'a block is kept under another size than its own')
        if s[0] != 'out':
            return
        self.outs.append(s[2])
        if kind == 'sys':
            h = [v for p, v in st.mem.items() if base_off(p) == (s[1], 0)]
            if not h or self.strip(h[0]) != size:
                self.once('size', fl, st, 'a block is handed out whose header does not hold its size')
            t = size
        else:
            # the least size the lookup can give
            it = size[1][1]
            if fl.known(st, ('same',) + tuple(sorted((it, ('call', 'end')), key=repr))) != 0:
                self.once('reuse', fl, st, 'a kept block is taken although none was found')
            t = it[3] if it[:2] == ('call', 'bound') and it[2] in ('lower_bound', 'upper_bound') else None
            if t is None:
                self.rep.cannot(fl.root.dem.split('(')[0], 'how a kept block is chosen is not understood')
                return
        n = 0
        for req in (1, 63, 64, 65, 4000, 4096, 2**20 - 200, 2**20 - 128, 2**20 - 64, 2**20 - 1, 2**20, 2**20 + 1, 3 * 10**6 + 7):
            leaf = lambda x: req if x == ('arg', 1) else None
            ok, full = holds(st, leaf)
            if not ok:
                continue
            have = ev(t, leaf)
            if have is None:
                self.rep.cannot(fl.root.dem.split('(')[0], 'the size of a block is not understood')
                return
            n += 1
            if have < req + s[2]:
                self.once('size', fl, st, 'a block of %d bytes is handed out for a request of %d with %d bytes in front' % (have, req, s[2]))
                return
        self.did('sizes of blocks judged', n)

    # ---- end of the object

    def zero(self, fl, st, f):
        return fl.known(st, fl.load(st, ('f', THIS, CLS, f)))

    def gone(self, fl, st, I):
        if st.get('gone'):
            self.once('end', fl, st, 'the memory manager is deleted twice', I)
        st.set('gone', True)
        fr = fl.load(st, ('f', THIS, CLS, 'm_core_freed'))
        if not (fr[0] == 'c' and fr[1]) and self.zero(fl, st, 'm_core_freed') != 1 and not nonzero(st, fr):
            self.once('end', fl, st, 'the memory manager is deleted while the core still exists', I)
        if self.zero(fl, st, 'm_allocated') != 0:
            self.once('end', fl, st, 'the memory manager is deleted while blocks are in use', I)

    def branch(self, fl, st, I, t, out):
        # does the condition say that the limit is kept or nothing is left
        self.fl = fl
        c, k, eq = cond(t)
        if c[0] == 'off' and k == 0 and fl.known(st, c) == 0:
            # a place within a block
            return False
        if c == ('call', 'empty'):
            if out == (1 if t == c or cond(t)[2] is False else 0) and fl.known(st, c) != 0:
                st.set('trimmed', True)
        if c[0] in ('ult', 'slt') and self.islimit(c[1], st) and self.istotal(c[2], st):
            # limit < total
            st.set('trimmed', fl.known(st, c) == 0)
        elif c[0] in ('ult', 'slt') and self.istotal(c[1], st) and self.islimit(c[2], st):
            if fl.known(st, c) == 1:
                st.set('trimmed', True)

    def origin(self, fl, F, o, seen):
        """fields every value an operand can have is computed from"""
        every = {'m_limit', 'm_allocated', 'm_freelist_size'}
        if not isinstance(o, int):
            return set()
        if o in seen:
            return every
        I = F.defs.get(o)
        if I is None:
            return set()
        k = I['o']
        if 'ph' in I:
            out = every
            for _, x in I['ph']:
                out = out & self.origin(fl, F, x, seen | {o})
            return out
        if k in ('call', 'invoke', 'load'):
            out = set()
            for x in I.get('a', ()):
                f = fl.fieldof(F, x) if isinstance(x, int) else None
                if f and f[0].endswith('MemoryUse'):
                    out.add(f[1])
                elif isinstance(x, int) and k != 'load':
                    out |= self.origin(fl, F, x, seen | {o})
            n, dem = fl.callee(F, I) if k != 'load' else (None, None)
            G = fl.P.funcs.get(n) if n else None
            if G is not None and (G.file or '').startswith('/repo/'):
                for J in G.insts():
                    for x in J.get('a', ()):
                        f = fl.fieldof(G, x) if isinstance(x, int) else None
                        if f and f[0].endswith('MemoryUse'):
                            out.add(f[1])
            return out
        out = set()
        for x in I.get('a', ()):
            out |= self.origin(fl, F, x, seen | {o})
        return out

    def var(self, fl, st, t):
        if t[0] == 'o' and t[1] == 'v' and isinstance(t[4], int):
            F = next((f for f, b, n in st.stack if f.name[:40] == t[3] or f.sname == t[3] or f.name == t[3]), None)
            if F is not None:
                return self.origin(fl, F, t[4], frozenset())
        return set()

    def islimit(self, t, st):
        t = self.strip(t)
        if 'm_limit' in self.var(self.fl, st, t):
            return True
        return t == ('ld', ('f', THIS, CLS, 'm_limit')) or t == st.mem.get(('f', THIS, CLS, 'm_limit')) or anyterm(t, lambda x: is_fieldname(x, 'm_limit'))

    def istotal(self, t, st):
        t = self.strip(t)
        if {'m_allocated', 'm_freelist_size'} <= self.var(self.fl, st, t):
            return True
        return anyterm(t, lambda x: is_fieldname(x, 'm_allocated')) and anyterm(t, lambda x: is_fieldname(x, 'm_freelist_size')) or t[0] in ('add', 'sub') and (self.istotal(t[1], st) or self.istotal(t[2], st))

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        m = fl.root.dem.split('(')[0].split('::')[-1]
        self.did('returns judged')
        out = None
        if self.gives:
            if v == C0 or fl.known(st, v) == 0:
                out = None
            else:
                out = base_off(v)
        put = any(e[0] == 'put' for e in st.get('ev', ()))
        self.settle(fl, st, True, out)
        if (put or m == 'set_limit') and not st.get('trimmed'):
            self.once('limit', fl, st, 'kept blocks are not released until the limit is kept', I)
        if m == 'set_limit':
            w = st.mem.get(('f', THIS, CLS, 'm_limit'))
            if w is None or self.strip(w) != ('arg', 1):
                self.once('limit', fl, st, 'the limit is not the one given', I)
        if m == 'on_core_freed':
            w = fl.load(st, ('f', THIS, CLS, 'm_core_freed'))
            if not (w[0] == 'c' and w[1]):
                self.once('end', fl, st, 'the memory manager is not told that the core is gone', I)
        if not self.ctor and not st.get('gone') and not self.gives:
            fr = fl.load(st, ('f', THIS, CLS, 'm_core_freed'))
            if (fr[0] == 'c' and fr[1] or nonzero(st, fr)) and self.zero(fl, st, 'm_allocated') != 1:
                self.once('end', fl, st, 'the memory manager is never deleted', I)


def nonzero(st, t):
    f = st.facts.get(t)
    return bool(f) and (f[0] == 'ne' and 0 in f[1] or f[0] == 'eq' and f[1] != 0)


def fl_known(st, t):
    f = st.facts.get(t)
    if f and f[0] == 'eq':
        return f[1]
    return None


class Plain(Obj):
    """small functions: what they return and call"""

    def __init__(self, rep, root):
        super().__init__(rep, root)
        self.ends, self.calls = [], []

    def key(self, fl, st):
        return frozenset(st.facts.items())

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            return ('u',)
        if self.stop(sn):
            return 'stop'
        m = sn.split('::')[-1]
        if sn.startswith('vs::MemoryUse::') and m in ('allocate', 'deallocate', 'set_limit', 'limit', 'allocated_bytes'):
            st.set('calls', st.get('calls', ()) + ((m,) + tuple(args),))
            return ('call', 'MemoryUse::' + m) + tuple(args[:1]) if 'i' in I else ('u0',)
        return None

    def block(self, fl, st, I, what, args):
        st.set('calls', st.get('calls', ()) + ((what,) + tuple(args),))

    def ret(self, fl, st, v):
        F, b, n = st.stack[-1]
        self.ends.append((st.copy(), v, F.blocks[b][n], fl))


def analyse(P, rep):
    tot = {}

    def add(c):
        for k, v in c.seen.items():
            tot[k] = tot.get(k, 0) + v
    outs, ins = {}, {}
    users = {}
    for F in P.repo_funcs():
        c = F.dem.split('(')[0]
        for I in F.insts():
            if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I['f'][0] == 'g':
                users.setdefault(P.alias.get(I['f'][1], I['f'][1]), set()).add(c)
    seen = set()
    for F in P.repo_funcs():
        n = F.dem.split('(')[0]
        if not n.startswith('vs::MemoryUse::') or '<' in n:
            continue
        m = n.split('::')[-1]
        if m in ('allocated_bytes', 'limit', 'is_over_limit', 'is_under_limit'):
            accessor(P, rep, F, m, tot)
            continue
        if 'tracking' in m or m.startswith('track_') or 'CallTracking' in n:
            continue
        us = users.get(F.name, set())
        if all(u.startswith('vs::MemoryUse::') for u in us) and not m.startswith('~') and m not in ('allocate', 'deallocate', 'set_limit', 'on_core_freed'):
            continue
        if F.name in seen:
            continue
        seen.add(F.name)
        c = Mem(rep, F)
        c.gives = F.dtypes[0].endswith('char*') or F.dtypes[0] == 'void*' if F.dtypes else False
        c.takes = m == 'deallocate' or len(F.dtypes) > 2 and F.dtypes[2].endswith('char*')
        c.ctor = m in ('MemoryUse', '~MemoryUse')
        run(P, rep, c, F)
        add(c)
        tot['entry points of the memory manager'] = tot.get('entry points of the memory manager', 0) + 1
        for x in c.outs:
            outs.setdefault(x, F)
        for x in c.ins:
            ins.setdefault(x, F)
        if m == '~MemoryUse' and not c.seen.get('kept blocks released at the end'):
            rep.violation('lost', F.loc(F.blocks[0][0]), n, 'blocks kept for reuse are not released at the end', path='')
    for a in outs:
        if a % 64 or a <= 0:
            rep.violation('offset', outs[a].loc(outs[a].blocks[0][0]), outs[a].dem.split('(')[0], 'blocks are handed out %d bytes after their start, which is not aligned' % a, path='')
        for b in ins:
            if a != -b:
                rep.violation('offset', ins[b].loc(ins[b].blocks[0][0]), ins[b].dem.split('(')[0], 'blocks are handed out %d bytes after their start but taken back as starting %d bytes earlier' % (a, -b), path='')
    tot['offsets of blocks compared'] = len(outs) * len(ins)
    for F in P.repo_funcs():
        n = F.dem.split('(')[0]
        if n in ('VSPlaneData::VSPlaneData', 'VSPlaneData::~VSPlaneData'):
            plane(P, rep, F, tot)
        elif n in ('VSCore::getCoreInfo', 'VSCore::getCoreInfo3', 'setMaxCacheSize') or n.endswith('::setMaxCacheSize'):
            report(P, rep, F, tot)
    return tot


def accessor(P, rep, F, m, tot):
    c = Plain(rep, F)
    run(P, rep, c, F)
    bad = None
    for a in (0, 49, 50, 51, 99, 100, 101, 1000):
        for lim in (0, 100, 101):
            def leaf(t):
                if t[0] == 'ld' and is_fieldname(t[1], 'm_allocated'):
                    return a
                if t[0] == 'ld' and is_fieldname(t[1], 'm_limit'):
                    return lim
            want = {'allocated_bytes': a, 'limit': lim, 'is_over_limit': int(a > lim), 'is_under_limit': None}[m]
            for st, v, I, fl in c.ends:
                ok, full = holds(st, leaf)
                if not ok or want is None:
                    continue
                x = ev(v, leaf)
                tot['answers judged'] = tot.get('answers judged', 0) + 1
                if x is None:
                    rep.cannot(F.dem.split('(')[0], 'the answer is not understood')
                    return
                if x != want:
                    rep.violation('answer', F.loc(I), F.dem.split('(')[0], '%s answers %d with %d bytes in use and a limit of %d' % (m, x, a, lim), path='')
                    return


def plane(P, rep, F, tot):
    n = F.dem.split('(')[0]
    c = Plain(rep, F)
    run(P, rep, c, F)
    bad = lambda I, msg: rep.violation('plane', F.loc(I), n, msg, path='')
    for st, v, I, fl in c.ends:
        tot['ends of plane functions judged'] = tot.get('ends of plane functions judged', 0) + 1
        calls = st.get('calls', ())
        f = lambda o, x: ('f', o, 'VSPlaneData', x)
        al = [x for x in calls if x[0] == 'allocate']
        de = [x for x in calls if x[0] == 'deallocate']
        if n.endswith('~VSPlaneData'):
            if len(de) != 1 or de[0][1] != ('ld', f(THIS, 'mem')) or de[0][2] != ('ld', f(THIS, 'data')):
                bad(I, 'a plane does not give its memory back exactly once')
            continue
        copy = 'VSPlaneData const&' in F.dem
        size = st.mem.get(f(THIS, 'size'))
        mem = st.mem.get(f(THIS, 'mem'))
        wmem = ('ld', f(('arg', 1), 'mem')) if copy else ('arg', 2)
        if mem != wmem:
            bad(I, 'a plane does not remember where its memory comes from')
        if len(al) != 1 or al[0][1] != wmem or de:
            bad(I, 'a plane does not take its memory exactly once')
            continue
        if st.mem.get(f(THIS, 'data')) != ('call', 'MemoryUse::allocate', wmem):
            bad(I, 'a plane does not keep the memory it took')
        if not nonzero(st, ('call', 'MemoryUse::allocate', wmem)):
            bad(I, 'a plane goes on without memory')
        osize = ('ld', f(('arg', 1), 'size'))
        for s in (1, 64, 100, 10**6):
            leaf = lambda t: s if t == (osize if copy else ('arg', 1)) else None
            a, b = ev(al[0][2], leaf), None if size is None else ev(size, leaf)
            if a is None or b is None:
                rep.cannot(n, 'the size of a plane is not understood')
                break
            if a < s or a < b or b < s:
                bad(I, 'a plane of %d bytes takes %d bytes and says it has %d' % (s, a, b))
                break
            if copy:
                cp = [x for x in calls if x[0] in ('memcpy', 'memmove')]
                if not cp or cp[0][1] != ('call', 'MemoryUse::allocate', wmem) and cp[0][1] != ('ld', f(THIS, 'data')) or cp[0][2] != ('ld', f(('arg', 1), 'data')) or ev(cp[0][3], leaf) != s:
                    bad(I, 'the copy of a plane does not have its contents')
                    break


def report(P, rep, F, tot):
    n = F.dem.split('(')[0]
    c = Plain(rep, F)
    run(P, rep, c, F)
    for st, v, I, fl in c.ends:
        for p, w in st.mem.items():
            if p[0] == 'f' and p[3] in ('maxFramebufferSize', 'usedFramebufferSize'):
                tot['reports judged'] = tot.get('reports judged', 0) + 1
                want = 'MemoryUse::limit' if p[3][0] == 'm' else 'MemoryUse::allocated_bytes'
                if w[:2] != ('call', want):
                    rep.violation('report', F.loc(I), n, '%s does not report what the memory manager says' % p[3], path='')
        if n.endswith('setMaxCacheSize'):
            tot['reports judged'] = tot.get('reports judged', 0) + 1
            calls = st.get('calls', ())
            sets = [x for x in calls if x[0] == 'set_limit']
            for b in (-5, 0, 1, 2**31, 2**40):
                leaf = lambda t: b if t == ('arg', 0) else None
                ok, full = holds(st, leaf)
                if not ok:
                    continue
                x = ev(sets[0][2], leaf) if sets else None
                if b > 0 and (not sets or x != b):
                    rep.violation('report', F.loc(I), n, 'a maximum of %d bytes is not set' % b, path='')
                    return
                if b <= 0 and sets:
                    rep.violation('report', F.loc(I), n, 'the maximum is changed although only asked for', path='')
                    return
            if v[:2] not in (('call', 'MemoryUse::set_limit'), ('call', 'MemoryUse::limit')) and not (v[0] in ('zext', 'sext', 'trunc')):
                rep.violation('report', F.loc(I), n, 'the answer is not the maximum', path='')
