"""vspipe, path by path: what a run that reports success has looked at before.

main is followed with its helpers. A path carries the operations whose outcome nobody has asked about yet, the ones
known to have failed, and the streams that hold data nobody knows to have arrived. A path that ends in status 0 with any
of these is wrong. The function handed to getFrameAsync is followed on its own, for the lock, the counters the main
thread waits for and the requests it makes."""
import re
from collections import namedtuple
import core

DATA = 'VSPipeOutputData'

# name -> (outcomes that mean failure, outcomes that mean success)
NULL = ((0,), (7,))
NONZERO = ((-1, 1, 7), (0,))
NEG = ((-1,), (0, 7))
EOF = ((-1,), (0,))
QUERY = ((7,), (0,))
FALSE = ((0,), (1,))
SHORT = 'short'

OPS = {
    'getVSScriptAPI': NULL, 'getVSAPI': NULL, 'getOutputNode': NULL, 'getVariable': NONZERO, 'setVariables': NONZERO,
    'fopen': NULL, 'fopen64': NULL, 'fdopen': NULL, 'createCore': None, 'evaluateFile': NONZERO, 'evaluateBuffer': NONZERO,
    'invoke': 'map',
}
HEADERS = re.compile(r'(^|::)(CreateWaveHeader|CreateWave64Header)\(')
WRITES = {'fwrite': (3, SHORT), 'fwrite_unlocked': (3, SHORT), 'fprintf': (0, NEG), 'vfprintf': (0, NEG), 'fputs': (1, NEG), 'fputc': (1, NEG), 'putc': (1, NEG)}
FLUSH = {'fflush': EOF, 'fclose': EOF}
# what the thread that waits looks at
COUNT = ('completedFrames', 'completedAlphaFrames')
SHARED = COUNT + ('totalFrames', 'outputError', 'errorMessage', 'reorderMap')

Ext = namedtuple('Ext', 'pend failed dirty held cnt told stop req room')
START = Ext(frozenset(), frozenset(), frozenset(), False, 0, False, False, frozenset(), False)


KEPT = ('outputError', 'outFile', 'timecodesFile', 'jsonFile', 'alphaNode')


class TooMany(Exception):
    pass


class Pipe:
    def __init__(self, P, ck, limit=400000):
        self.P, self.ck, self.limit = P, ck, limit
        self.memo = {}
        self.rel = {}
        self.roots = {}
        self.callback = None
        self.role = 'main'
        self.ops = set()
        self.tested = set()
        self.callback_result = None
        self.waits = 0
        for F in P.funcs.values():
            for I in F.insts():
                if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), int) and self.callee(F, I)[0] == 'getFrameAsync' and len(I['a']) > 2:
                    cb = I['a'][2]
                    if isinstance(cb, list) and cb[0] == 'g' and cb[1] in P.funcs:
                        self.callback = P.funcs[cb[1]]
            for b, blk in enumerate(F.blocks):
                for n, I in enumerate(blk):
                    I['_b'], I['_n'] = b, n

    def seen(self, what, F, I):
        k = (what, F.name, I['_b'], I['_n'])
        if k not in self.memo:
            self.memo[k] = True
            self.ck.count(what, 1, F.loc(I))

    # ---- names
    def callee(self, F, I):
        """(name of a C function or of a member of an API table, Function or None)"""
        f = I.get('f')
        if isinstance(f, list) and f[0] == 'g':
            G = self.P.funcs.get(f[1])
            return f[1], G
        if isinstance(f, int):
            D = F.defs.get(f)
            if D is not None and D['o'] == 'load':
                x = core.field_of(F, D['a'][0])
                if x and x[0] in ('VSAPI', 'VSSCRIPTAPI', 'VSPLUGINAPI'):
                    return x[1], None
        return None, None

    def dem(self, F, I):
        f = I.get('f')
        return F.m.dem(f[1]) if isinstance(f, list) and f[0] == 'g' else ''

    def field(self, F, o):
        """field of the output state a pointer designates"""
        x = core.field_of(F, o)
        if x and x[0] == DATA:
            return x[1].split('.')[0]
        return None

    def loaded(self, F, o, d=0):
        """field of the output state a value was read from"""
        if not isinstance(o, int) or d > 6:
            return None
        D = F.defs.get(o)
        if D is None:
            return None
        if D['o'] in ('trunc', 'zext', 'sext', 'freeze'):
            return self.loaded(F, D['a'][0], d + 1)
        if D['o'] == 'load':
            f = self.field(F, D['a'][0])
            if f is None and isinstance(D['a'][0], int):
                A = F.defs.get(D['a'][0])
                if A is None:
                    # the first field has offset 0 and no address computation
                    pass
            return f
        return None

    def stream(self, F, o, bind, d=0):
        """name of a stream, None for one that does not count"""
        if d > 8:
            return '?'
        if isinstance(o, list):
            return None if o[0] == 'n' else '?'
        D = F.defs.get(o)
        if D is None:
            return bind[o][0] if 0 <= o < len(bind) else '?'
        stored = self.names(F).get(o)
        if stored:
            return stored
        if D['o'] == 'load':
            p = D['a'][0]
            if isinstance(p, list) and p[0] == 'g':
                return None if p[1] in ('stderr', 'stdout') else p[1]
            f = self.field(F, p)
            if f:
                return f
            A = F.defs.get(p) if isinstance(p, int) else None
            if A is not None and A['o'] == 'alloca':
                s = [I['a'][0] for I in F.insts() if I['o'] == 'store' and I['a'][1] == p]
                n = {self.stream(F, x, bind, d + 1) for x in s if not (isinstance(x, list) and x[0] == 'n')}
                if len(n) == 1:
                    return n.pop()
                return self.names(F).get(p) or '%s@%d' % (F.sname, p)
            return '%s@%d' % (F.sname, o)
        if D['o'] in ('phi', 'select'):
            xs = [x for _, x in D['ph']] if D['o'] == 'phi' else D['a'][1:]
            n = {self.stream(F, x, bind, d + 1) for x in xs if x != o and not (isinstance(x, list) and x[0] == 'n')}
            if n == {None}:
                return None
            n.discard(None)
            if len(n) == 1 and D['o'] == 'phi' and len(xs) > 1 and '@' not in list(n)[0]:
                return n.pop()
            return '%s@%d' % (F.sname, o)
        return '%s@%d' % (F.sname, o)

    def names(self, F):
        r = self.memo.get(('names', F.name))
        if r is None:
            r = {}
            for I in F.insts():
                if I['o'] == 'store' and isinstance(I['a'][0], int):
                    f = self.field(F, I['a'][1])
                    if f and f.endswith('File'):
                        r[I['a'][0]] = f
            # what flows into one of these
            ch = True
            while ch:
                ch = False
                for I in F.insts():
                    if I['o'] == 'phi' and I['i'] in r:
                        for _, x in I['ph']:
                            if isinstance(x, int) and x not in r:
                                r[x] = r[I['i']]
                                ch = True
                    elif I['o'] == 'phi' and I['i'] not in r:
                        n = {r.get(x) for _, x in I['ph'] if isinstance(x, int)}
                        if len(n) == 1 and None not in n:
                            r[I['i']] = n.pop()
                            ch = True
                    elif I['o'] == 'load' and isinstance(I['a'][0], int) and F.defs.get(I['a'][0], {}).get('o') == 'alloca':
                        # a local variable that could not be followed as a value
                        a, b = I['i'], I['a'][0]
                        if (a in r) != (b in r):
                            r[a] = r[b] = r.get(a) or r.get(b)
                            ch = True
            self.memo[('names', F.name)] = r
        return r

    def relevant(self, F):
        """a helper that has to be followed"""
        r = self.rel.get(F.name)
        if r is not None:
            return r
        self.rel[F.name] = False
        if not (F.file or '').startswith('/repo/src/vspipe/vspipe.'):
            return False
        r = False
        for I in F.insts():
            if I['o'] == 'store':
                r = r or self.field(F, I['a'][1]) is not None
            elif I['o'] in ('call', 'invoke'):
                nm, G = self.callee(F, I)
                dm = self.dem(F, I)
                if nm in OPS or nm in FLUSH or nm in ('ferror', 'getFrameAsync') or HEADERS.search(dm) or 'from_chars' in dm:
                    r = True
                elif nm in WRITES and self.stream(F, I['a'][WRITES[nm][0]], ((('arg'), None),) * 8) is not None:
                    r = True
                elif G is not None and self.relevant(G):
                    r = True
        self.rel[F.name] = r
        return r

    # ---- values
    def kind(self, F, o, facts, bind):
        if isinstance(o, list):
            return ('i', 0) if o[0] == 'n' else ('i', o[1]) if o[0] == 'i' else 'NN' if o[0] in ('g', 'cg') else None
        k = facts.get(o)
        if k is None and 0 <= o < len(bind) and o not in F.defs:
            k = bind[o][1]
        if isinstance(k, tuple) and k[0] == '=':
            return self.kind(F, k[1], facts, bind) or k
        return k

    def root(self, F, o, facts, d=0):
        """the instruction a value is, through copies"""
        while isinstance(o, int) and d < 12:
            k = facts.get(o)
            if isinstance(k, tuple) and k[0] == '=':
                o = k[1]
                d += 1
                continue
            D = F.defs.get(o)
            if D is None:
                return None
            if D['o'] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
                o = D['a'][0]
                d += 1
                continue
            return D
        return None

    def carries(self, F, o, d=0):
        """a value that tells the outcome of an operation"""
        if not isinstance(o, int) or d > 8:
            return False
        D = F.defs.get(o)
        if D is None:
            return False
        if D['o'] in ('call', 'invoke'):
            return self.spec(F, D) is not None or self.callee(F, D)[1] is not None and self.relevant(self.callee(F, D)[1])
        if D['o'] in ('zext', 'sext', 'trunc', 'freeze', 'icmp', 'xor', 'and', 'or', 'select', 'extractvalue'):
            return any(self.carries(F, x, d + 1) for x in D['a'])
        if D['o'] == 'load':
            return self.field(F, D['a'][0]) in SHARED
        return D['o'] == 'phi' and any(self.carries(F, x, d + 1) for _, x in D['ph'])

    def spec(self, F, I):
        nm, G = self.callee(F, I)
        if nm in WRITES:
            return WRITES[nm][1] if self.stream(F, I['a'][WRITES[nm][0]], (('arg', None),) * 8) is not None else None
        if nm in FLUSH:
            return FLUSH[nm]
        if nm == 'ferror':
            return NONZERO
        if nm in ('getError', 'mapGetError'):
            return QUERY
        if nm in OPS:
            return OPS[nm]
        dm = self.dem(F, I)
        if HEADERS.search(dm):
            return FALSE
        if 'from_chars' in dm:
            return 'chars'
        return None

    def uid(self, F, I, part=''):
        w = F.loc(I)
        if w.startswith('/usr'):
            w = '%s:%s' % (core.short(F.file or '?'), F.line)
        return (w, F.sname, self.callee(F, I)[0] if not part else part, I['_b'], I['_n'])

    # ---- following paths
    def explore(self, F, bind=(), facts=None, mem=frozenset(), ext=START, depth=0):
        key = (F.name, bind, mem, ext, self.role)
        if key in self.memo:
            return self.memo[key]
        if depth > 8:
            raise TooMany('%s: too deep' % F.sname)
        live = self.live(F)
        todo = [(0, 0, frozenset(), mem, ext)]
        seen = set(todo)
        out = set()

        def push(b, n, f, m, e):
            if e.failed:
                # the first failure decides
                e = e._replace(failed=frozenset([min(e.failed)]) if len(e.failed) > 1 else e.failed, pend=frozenset(), dirty=frozenset())
                m = {k: v for k, v in m.items() if k == 'outputError'}
                f = {k: v for k, v in f.items() if not (isinstance(k, int) and k in F.defs and F.defs[k].get('t') == 'ptr' and not (isinstance(v, tuple) and v[0] == '=') and not self.a_map(F, k))}
            st = (b, n, frozenset(f.items()), frozenset(m.items()), e)
            if st not in seen:
                if len(seen) > self.limit:
                    raise TooMany(F.sname)
                seen.add(st)
                todo.append(st)
        while todo:
            b, n, ff, mm, e = todo.pop()
            facts, mem = dict(ff), dict(mm)
            blk = F.blocks[b]
            forked = False
            while n < len(blk):
                I = blk[n]
                o = I['o']
                if 'i' in I and 'ph' not in I:
                    facts.pop(I['i'], None)
                    for k in [k for k, v in facts.items() if v == ('=', I['i'])]:
                        del facts[k]
                if o in ('call', 'invoke'):
                    for x in I.get('a', ()):
                        if isinstance(x, int):
                            facts.pop(('m', x), None)
                    res = self.call(F, I, facts, mem, e, bind, depth)
                    if res is not None:
                        for f2, m2, e2 in res:
                            if o == 'invoke':
                                self.go(F, b, I['s'][0], f2, m2, e2, push, live)
                            else:
                                push(b, n + 1, f2, m2, e2)
                        forked = True
                        break
                    if o == 'invoke':
                        self.go(F, b, I['s'][0], facts, mem, e, push, live)
                        forked = True
                        break
                elif o == 'store':
                    e = self.store(F, I, facts, mem, e, bind)
                    v, q = I['a']
                    if isinstance(q, int) and self.place(F, q):
                        facts.pop(('m', q), None)
                        if isinstance(v, int) and self.carries(F, v):
                            facts[('m', q)] = ('=', v)
                elif o == 'load':
                    f = self.field(F, I['a'][0])
                    if f and mem.get(f) is not None:
                        facts[I['i']] = mem[f]
                    elif isinstance(I['a'][0], int) and ('m', I['a'][0]) in facts:
                        facts[I['i']] = facts[('m', I['a'][0])]
                elif o in ('zext', 'sext', 'trunc', 'freeze', 'xor', 'and', 'or', 'icmp', 'select'):
                    k = self.evaluate(F, I, facts, bind)
                    if k is not None:
                        facts[I['i']] = k
                elif o == 'ret':
                    self.end(F, I, facts, mem, e, bind, out, live)
                n += 1
            if forked:
                continue
            t = blk[-1]
            if t['o'] in ('ret', 'unreachable', 'resume'):
                continue
            su = F.succs(b)
            if t['o'] == 'br' and t.get('a') and len(su) == 2:
                for s, pol in ((su[0], True), (su[1], False)):
                    for f2, m2, e2 in self.assume(F, t['a'][0], pol, dict(facts), dict(mem), e, bind):
                        self.go(F, b, s, f2, m2, e2, push, live)
            elif t['o'] == 'switch' and isinstance(self.kind(F, t['a'][0], facts, bind), tuple) and self.kind(F, t['a'][0], facts, bind)[0] == 'i':
                v = self.kind(F, t['a'][0], facts, bind)[1]
                s = [x for c, x in t['cs'] if c == v] or [t['d']]
                self.go(F, b, s[0], facts, mem, e, push, live)
            else:
                for s in dict.fromkeys(su):
                    self.go(F, b, s, dict(facts), dict(mem), e, push, live)
        self.memo[key] = out
        return out

    def live(self, F):
        r = self.memo.get(('live', F.name))
        if r is None:
            import cyflow
            r = self.memo[('live', F.name)] = cyflow.liveness(F)
        return r

    def go(self, F, p, s, facts, mem, e, push, live):
        new = {}
        for I in F.blocks[s]:
            if 'ph' not in I:
                break
            for q, x in I['ph']:
                if q == p:
                    k = self.kind(F, x, facts, ())
                    if isinstance(x, int) and x not in F.defs:
                        k = k or ('=', x)
                    elif isinstance(x, int) and (k is None and self.carries(F, x) or self.a_map(F, x)):
                        k = ('=', x)
                    elif isinstance(x, int) and isinstance(facts.get(x), tuple) and facts[x][0] == '=':
                        k = facts[x]
                    new[I['i']] = k
        out = {k: v for k, v in facts.items() if k in live[s] or isinstance(k, tuple)}
        # an alias keeps what it stands for
        for k, v in list(out.items()) + list(new.items()):
            if isinstance(v, tuple) and v[0] == '=' and v[1] in facts:
                out.setdefault(v[1], facts[v[1]])
        for k, v in new.items():
            if v is None:
                out.pop(k, None)
            else:
                out[k] = v
        push(s, 0, out, mem, e)

    def a_map(self, F, x):
        D = F.defs.get(x)
        return D is not None and D['o'] in ('call', 'invoke') and self.spec(F, D) == 'map'

    def call(self, F, I, facts, mem, e, bind, depth):
        """the states after a call, None when nothing is to be known of it"""
        nm, G = self.callee(F, I)
        dm = self.dem(F, I)
        a = I.get('a', [])
        # the lock
        held = self.lock(F, I, dm)
        if held is not None:
            return [(facts, mem, e._replace(held=held, cnt=2 if not held and e.cnt == 1 else e.cnt))]
        if re.search(r'condition_variable(_any)?::(void )?notify_(one|all)\(', dm):
            return [(facts, mem, e._replace(told=True))]
        if 'condition_variable' in dm and '::wait' in dm:
            return self.wait(F, I, facts, mem, e)
        if self.role == 'callback' and a and self.field(F, a[0]) in SHARED and not re.search(r'\bconst$|::(empty|size|count|find|end|begin|c_str)\(', dm) or \
                self.role == 'callback' and nm and nm.startswith('llvm.mem') and self.field(F, a[0]) in SHARED:
            self.shared(F, I, self.field(F, a[0]), e)
            if self.field(F, a[0]) == 'errorMessage':
                self.seen('errors described', F, I)
                return [(facts, mem, e._replace(failed=e.failed | {(F.loc(I), F.sname, 'what errorMessage describes', 0, 0)}))]
        if nm == 'getFrameAsync':
            return self.request(F, I, facts, mem, e)
        if nm in WRITES:
            s = self.stream(F, a[WRITES[nm][0]], bind)
            if s is None:
                return None
            u = self.uid(F, I)
            self.ops.add(u)
            if self.role == 'callback':
                self.writing(F, I, s, e)
            return [(facts, mem, e._replace(dirty=e.dirty | {('e', s, u), ('b', s)}))]
        if nm in FLUSH or nm == 'ferror':
            self.ops.add(self.uid(F, I))
            return None
        if HEADERS.search(dm):
            u = self.uid(F, I, dm.split('(')[0])
            self.ops.add(u)
            return [(facts, mem, e._replace(pend=e.pend | {u}))]
        if 'from_chars' in dm:
            us = {self.uid(F, I, 'from_chars: error code'), self.uid(F, I, 'from_chars: rest of the text')}
            self.ops |= us
            return [(facts, mem, e._replace(pend=e.pend | us))]
        if nm in OPS and OPS[nm] is not None:
            u = self.uid(F, I)
            self.ops.add(u)
            if OPS[nm] == 'map':
                facts[I['i']] = 'NN'        # there is always a map
            return [(facts, mem, e._replace(pend=e.pend | {u}))]
        if G is not None and self.relevant(G):
            if self.role == 'callback' and F is self.callback:
                for x, t in zip(a, G.dtypes[1:]):
                    if 'VSFrame' in t:
                        self.order(F, I, x)
            nb = []
            for x in a:
                nb.append((self.stream(F, x, bind) if self.is_stream(F, x) else None, self.simple(self.kind(F, x, facts, bind))))
            out = []
            for rk, m2, e2 in self.explore(G, tuple(nb), None, frozenset(mem.items()), e, depth + 1):
                f2 = dict(facts)
                if 'i' in I and rk is not None:
                    if isinstance(rk, tuple) and rk[0] == 'op':
                        f2[I['i']] = rk
                    else:
                        f2[I['i']] = rk
                out.append((f2, dict(m2), e2))
            return out
        return None

    @staticmethod
    def place(F, q):
        D = F.defs.get(q)
        return D is None and 0 <= q < len(F.dtypes) - 1 or D is not None and D['o'] == 'alloca'

    def evaluate(self, F, I, facts, bind):
        ks = [self.kind(F, x, facts, bind) for x in I['a']]
        num = lambda k: isinstance(k, tuple) and k[0] == 'i'
        o = I['o']
        if o in ('zext', 'sext', 'trunc', 'freeze'):
            if num(ks[0]):
                return ('i', 1) if I.get('t') == 'i1' and ks[0][1] else ks[0]
            return ('i', 1) if ks[0] == 'NN' and F.defs.get(I['a'][0], {}).get('t') == 'i1' else 'NN' if ks[0] == 'NN' and o != 'trunc' else ('i', 1) if ks[0] == 'NN' and F.defs.get(I['a'][0], {}).get('t') == 'i8' else None
        if o == 'xor':
            if num(ks[0]) and num(ks[1]) and I.get('t') == 'i1':
                return ('i', int(bool(ks[0][1]) != bool(ks[1][1])))
            if ks[0] == 'NN' and num(ks[1]) and ks[1][1] and I.get('t') == 'i1':
                return ('i', 0)
            return None
        if o in ('and', 'or'):
            if num(ks[0]) and num(ks[1]):
                return ('i', ks[0][1] & ks[1][1] if o == 'and' else ks[0][1] | ks[1][1])
            if o == 'and' and ('i', 0) in ks:
                return ('i', 0)
            return 'NN' if o == 'or' and (any(k == 'NN' or num(k) and k[1] for k in ks)) else None
        if o == 'icmp':
            if num(ks[0]) and num(ks[1]):
                r = holds(ks[0][1], I['p'], ks[1][1])
                return None if r is None else ('i', int(r))
            if ks[0] == 'NN' and ks[1] == ('i', 0) and I['p'] in ('eq', 'ne'):
                return ('i', int(I['p'] == 'ne'))
            return None
        c = ks[0]
        if c == 'NN' or num(c):
            x = 1 if c == 'NN' or c[1] else 2
            if ks[x] is not None:
                return ks[x]
            return ('=', I['a'][x]) if isinstance(I['a'][x], int) else None
        if ks[1] is not None and ks[1] == ks[2]:
            return ks[1]
        return None

    @staticmethod
    def simple(k):
        return k if k == 'NN' or isinstance(k, tuple) and k[0] == 'i' else None

    def is_stream(self, F, o):
        if isinstance(o, list):
            return False
        D = F.defs.get(o)
        if D is None:
            return 0 <= o < len(F.dtypes) - 1 and 'FILE' in F.dtypes[o + 1]
        if o in self.names(F):
            return True
        if D['o'] == 'load':
            f = self.field(F, D['a'][0])
            if isinstance(D['a'][0], int) and F.defs.get(D['a'][0], {}).get('o') == 'alloca':
                return self.holds_stream(F, D['a'][0])
            return bool(f and f.endswith('File')) or isinstance(D['a'][0], list) and D['a'][0][0] == 'g' and D['a'][0][1] in ('stderr', 'stdout')
        if D['o'] == 'phi':
            return any(isinstance(x, int) and x != o and self.opens(F, x) for _, x in D['ph'])
        return self.opens(F, o)

    def holds_stream(self, F, p):
        k = ('local', F.name, p)
        if k not in self.memo:
            r = p in self.names(F)
            for I in F.insts():
                if I['o'] == 'store' and I['a'][1] == p and isinstance(I['a'][0], int):
                    r = r or self.opens(F, I['a'][0])
                elif I['o'] in ('call', 'invoke') and p in I.get('a', ()):
                    G = self.callee(F, I)[1]
                    if G is not None and len(G.dtypes) > I['a'].index(p) + 1:
                        r = r or 'FILE' in G.dtypes[I['a'].index(p) + 1]
            self.memo[k] = r
        return self.memo[k]

    def opens(self, F, o, seen=None):
        D = F.defs.get(o)
        if D is None:
            return False
        if D['o'] == 'phi':
            seen = seen or set()
            if o in seen:
                return False
            seen.add(o)
            return any(isinstance(x, int) and self.opens(F, x, seen) for _, x in D['ph'])
        if D['o'] in ('call', 'invoke'):
            nm, G = self.callee(F, D)
            return nm in ('fopen', 'fopen64', 'fdopen') or G is not None and 'FILE' in (G.dtypes[0] if G.dtypes else '')
        if D['o'] == 'load' and isinstance(D['a'][0], list):
            return D['a'][0][1] in ('stdout', 'stderr')
        return False

    def lock(self, F, I, dm):
        """True: the lock of the output state is taken, False: given back"""
        a = I.get('a', [])
        m = re.search(r'(?:lock_guard|unique_lock|scoped_lock)<std::mutex>::(~?)(\w+)\(', dm)
        if m:
            if m.group(1) == '~' or m.group(2) == 'unlock':
                return False
            if m.group(2) == 'lock':
                return True
            return True if any(self.field(F, x) == 'mutex' for x in a[1:]) else None
        if a and self.field(F, a[0]) == 'mutex':
            if re.search(r'mutex::lock\(', dm) or isinstance(I.get('f'), list) and I['f'][1] == 'pthread_mutex_lock':
                return True
            if re.search(r'mutex::unlock\(', dm) or isinstance(I.get('f'), list) and I['f'][1] == 'pthread_mutex_unlock':
                return False
        return None

    def store(self, F, I, facts, mem, e, bind):
        v, p = I['a']
        f = self.field(F, p)
        if f is None:
            if isinstance(v, int) and self.role == 'callback' and self.on_map(F, p):
                self.shared(F, I, 'reorderMap', e)
            return e
        k = self.kind(F, v, facts, bind)
        if k is None and isinstance(v, int) and self.carries(F, v):
            k = None
        if f in KEPT and (k == 'NN' or isinstance(k, tuple) and k[0] == 'i'):
            mem[f] = k
        else:
            mem.pop(f, None)
        if self.role == 'callback':
            if f in SHARED:
                self.shared(F, I, f, e)
            if f in COUNT:
                e = e._replace(cnt=1 if e.held and e.cnt != 2 else 2)
            if f == 'totalFrames' and self.loaded(F, v) == 'requestedFrames':
                e = e._replace(stop=True)
            if f in COUNT + ('requestedFrames', 'outputFrames'):
                self.seen('counters of frames that move by one', F, I)
                if not self.plus_one(F, v, f):
                    self.ck.violation('counter', F.loc(I), F.sname, '%s does not move by exactly one' % f)
            if f == 'requestedFrames':
                want = {'node'} | (set() if mem.get('alphaNode') == ('i', 0) else {'alphaNode'})
                if e.req != want:
                    self.ck.violation('request', F.loc(I), F.sname, 'requestedFrames moves on, but %s' % (
                        'the frame of %s has not been requested' % ', '.join(sorted(want - e.req)) if want - e.req else 'more has been requested than there is'))
                e = e._replace(req=frozenset(), room=False)
            if f == 'totalFrames':
                e = e._replace(room=False)
            if f == 'outputError' and k == ('i', 0):
                self.ck.violation('frame error', F.loc(I), F.sname, 'outputError is taken back')
        return e

    def plus_one(self, F, v, f):
        D = F.defs.get(v) if isinstance(v, int) else None
        return D is not None and D['o'] == 'add' and D['a'][1] == ['i', 1, D['a'][1][2] if isinstance(D['a'][1], list) and len(D['a'][1]) > 2 else 32] and self.loaded(F, D['a'][0]) == f

    def on_map(self, F, p, d=0):
        if not isinstance(p, int) or d > 4:
            return False
        D = F.defs.get(p)
        if D is None:
            return False
        if D['o'] == 'getelementptr':
            return self.on_map(F, D['a'][0], d + 1)
        return D['o'] in ('call', 'invoke') and bool(D.get('a')) and self.field(F, D['a'][0]) == 'reorderMap'

    # ---- the callback
    def shared(self, F, I, f, e):
        self.seen('changes to what the waiting thread looks at', F, I)
        if f in COUNT and not e.held:
            self.ck.violation('lock', F.loc(I), F.sname, '%s is changed without the mutex the main thread waits with: it can see the last frame as done before its data is written' % f)
        elif f == 'totalFrames' and not e.held:
            self.ck.violation('lock', F.loc(I), F.sname, 'totalFrames is changed without the mutex the main thread waits with')
        elif e.cnt == 2:
            self.ck.violation('lock', F.loc(I), F.sname, '%s is changed after the frame has been counted and the mutex given back: the main thread may be gone' % f)

    def order(self, F, I, x):
        k = ('order', I['_b'], I['_n'], str(x))
        if k in self.memo:
            return
        self.memo[k] = True
        for w in self.keys(F, x):
            if w == 'outputFrames':
                self.ck.count('frames written in their turn')
            elif w in ('the frame that has just arrived', 'another frame'):
                self.ck.violation('order', F.loc(I), F.sname, 'what is written is %s, not the one whose turn it is' % w)
            else:
                self.ck.cannot(F.sname, 'which frame is written at %s' % F.loc(I))

    def keys(self, F, o, d=0):
        """what a frame was looked up by"""
        if isinstance(o, list):
            return set() if o[0] == 'n' else {None}
        if d > 8:
            return {None}
        D = F.defs.get(o)
        if D is None:
            return {'the frame that has just arrived' if o == 1 else None}
        if D['o'] in ('phi', 'select'):
            return set().union(*[self.keys(F, x, d + 1) for x in ([x for _, x in D['ph']] if D['o'] == 'phi' else D['a'][1:]) if x != o])
        if D['o'] in ('load', 'getelementptr', 'bitcast'):
            return self.keys(F, D['a'][0], d + 1)
        if D['o'] in ('call', 'invoke'):
            a = D.get('a') or [None]
            if self.field(F, a[0]) == 'reorderMap':
                if len(a) < 2:
                    return {None}
                f = self.field(F, a[1])
                if f:
                    return {f if f == 'outputFrames' else 'another frame'}
                A = F.defs.get(a[1]) if isinstance(a[1], int) else None
                if A is not None and A['o'] == 'alloca':
                    vs = [J['a'][0] for J in F.insts() if J['o'] == 'store' and J['a'][1] == a[1]]
                    fs = {self.loaded(F, v) for v in vs}
                    if fs == {'outputFrames'}:
                        return fs
                    if fs and all(not isinstance(v, int) or v not in F.defs for v in vs):
                        return {'the frame that has just arrived'}
                return {None}
            if re.search(r'operator(->|\*)', self.dem(F, D)) and a:
                return self.keys(F, a[0], d + 1)
            return {None}
        if D['o'] == 'alloca':
            r = set()
            for J in F.insts():
                if J['o'] == 'store' and J['a'][1] == o:
                    r |= self.keys(F, J['a'][0], d + 1)
                elif J['o'] in ('call', 'invoke') and isinstance(J.get('f'), list) and J['f'][1].startswith('llvm.memcpy') and J['a'][0] == o:
                    r |= self.keys(F, J['a'][1], d + 1)
            return r or {None}
        return {None}

    def writing(self, F, I, s, e):
        self.seen('writes of a finished frame', F, I)
        if e.cnt == 2:
            self.ck.violation('lock', F.loc(I), F.sname, '%s is written after the frame has been counted and the mutex given back (or never taken): the main thread may already have ended the output' % s)

    def request(self, F, I, facts, mem, e):
        a = I['a']
        if self.role != 'callback':
            return None
        node = self.loaded(F, a[1]) or '?'
        if not e.room:
            self.ck.violation('request', F.loc(I), F.sname, 'a frame is requested without requestedFrames being known to be less than totalFrames')
        self.seen('requests made by the callback', F, I)
        if self.loaded(F, a[0]) != 'requestedFrames':
            self.ck.violation('request', F.loc(I), F.sname, 'the frame requested next is not requestedFrames')
        if node in e.req:
            self.ck.violation('request', F.loc(I), F.sname, 'the same frame of %s is requested twice' % node)
        return [(facts, mem, e._replace(req=e.req | {node}))]

    def wait(self, F, I, facts, mem, e):
        """the callback has run for every frame when the wait is over"""
        self.waits += 1
        r = self.callback_result
        if r is None:
            if self.callback is None:
                self.ck.cannot(F.sname, 'the function called for finished frames is not a named one')
                r = []
            else:
                role, self.role = self.role, 'callback'
                r = self.explore(self.callback, tuple((None, None) for _ in self.callback.dtypes[1:]))
                self.role = role
            self.callback_result = r
        dirty = set(e.dirty)
        pend = set(e.pend)
        bad = None
        for rk, m2, e2 in r:
            dirty |= {x for x in e2.dirty if mem.get(x[1]) != ('i', 0)}
            pend |= e2.pend
            if e2.failed:
                bad = bad or min(e2.failed)
        m0 = {k: v for k, v in mem.items() if k not in SHARED}
        e0 = e._replace(dirty=frozenset(dirty), pend=frozenset(pend))
        m1 = dict(m0)
        m1['outputError'] = ('i', 0)
        m2 = dict(m0)
        m2['outputError'] = 'NN'
        if mem.get('outputError') in ('NN', ('i', 1)):
            return [(dict(facts), m2, e0)]      # an error stays one
        return [(dict(facts), m1, e0), (dict(facts), m2, e0._replace(failed=e0.failed | {('%s' % F.loc(I), F.sname, 'a frame', 0, 0)}))]

    # ---- conditions
    def assume(self, F, c, pol, facts, mem, e, bind, d=0):
        if isinstance(c, list):
            if c[0] == 'i' and (c[1] != 0) != pol or c[0] == 'n' and pol:
                return
            yield facts, mem, e
            return
        k = self.kind(F, c, facts, bind)
        if isinstance(k, tuple) and k[0] == '=':
            yield from self.assume(F, k[1], pol, facts, mem, e, bind, d + 1)
            return
        if k == 'NN' and not pol or isinstance(k, tuple) and k[0] == 'i' and (k[1] != 0) != pol:
            return
        if k == 'NN' or isinstance(k, tuple) and k[0] == 'i':
            yield facts, mem, e
            return
        D = F.defs.get(c)
        o = D['o'] if D is not None else None
        if o in ('zext', 'sext', 'trunc', 'freeze'):
            it = self.assume(F, D['a'][0], pol, facts, mem, e, bind, d + 1)
        elif o == 'xor' and isinstance(D['a'][1], list) and D['a'][1][1] in (1, -1, True):
            it = self.assume(F, D['a'][0], not pol, facts, mem, e, bind, d + 1)
        elif o in ('and', 'or') and (o == 'and') == pol:
            it = ((f2, m2, e2) for f1, m1, e1 in list(self.assume(F, D['a'][0], pol, facts, mem, e, bind, d + 1))
                  for f2, m2, e2 in self.assume(F, D['a'][1], pol, f1, m1, e1, bind, d + 1))
        elif o in ('and', 'or'):
            # left decides, or the left does not and the right does
            def both():
                yield from self.assume(F, D['a'][0], pol, dict(facts), dict(mem), e, bind, d + 1)
                for f1, m1, e1 in list(self.assume(F, D['a'][0], not pol, dict(facts), dict(mem), e, bind, d + 1)):
                    yield from self.assume(F, D['a'][1], pol, f1, m1, e1, bind, d + 1)
            it = both()
        elif o == 'select':
            def either():
                for p2, x in ((True, D['a'][1]), (False, D['a'][2])):
                    for f1, m1, e1 in list(self.assume(F, D['a'][0], p2, dict(facts), dict(mem), e, bind, d + 1)):
                        yield from self.assume(F, x, pol, f1, m1, e1, bind, d + 1)
            it = either()
        elif o == 'icmp':
            it = self.compare(F, D, pol, facts, mem, e, bind, d)
        else:
            it = self.compare_value(F, c, 'ne', ['i', 0], pol, facts, mem, e, bind, d)
        for f2, m2, e2 in it:
            f2[c] = 'NN' if pol else ('i', 0)
            yield f2, m2, e2

    def compare(self, F, D, pol, facts, mem, e, bind, d):
        a, b = D['a']
        p = D['p']
        if isinstance(a, list) and not isinstance(b, list) or self.root_of(F, b, facts) is not None and self.root_of(F, a, facts) is None:
            a, b = b, a
            p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        fl = {self.loaded(F, a), self.loaded(F, b)}
        if self.role == 'callback' and 'totalFrames' in fl and fl & set(COUNT) and p in ('eq', 'ne') and (p == 'eq') != pol and e.cnt:
            e = e._replace(told=True)       # not the last frame
        if self.role == 'callback' and fl == {'totalFrames', 'requestedFrames'}:
            q = p if self.loaded(F, a) == 'requestedFrames' else {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
            if (q, pol) in (('slt', True), ('sge', False), ('ne', True), ('eq', False)):
                e = e._replace(room=True)
        yield from self.compare_value(F, a, p, b, pol, facts, mem, e, bind, d)

    def root_of(self, F, o, facts):
        D = self.root(F, o, facts) if isinstance(o, int) else None
        if D is not None and D['o'] == 'extractvalue':
            return D
        return D if D is not None and D['o'] in ('call', 'invoke') and self.spec(F, D) is not None else None

    def compare_value(self, F, a, p, b, pol, facts, mem, e, bind, d):
        """a p b is pol"""
        if isinstance(a, list):
            yield facts, mem, e
            return
        k = self.kind(F, a, facts, bind)
        const = 0 if isinstance(b, list) and b[0] == 'n' else b[1] if isinstance(b, list) and b[0] == 'i' else None
        if isinstance(k, tuple) and k[0] == 'i' and const is not None:
            if holds(k[1], p, const) in (None, pol):
                yield facts, mem, e
            return
        if k == 'NN' and const == 0 and p in ('eq', 'ne'):
            if (p == 'ne') == pol:
                yield facts, mem, e
            return
        x = a
        if isinstance(k, tuple) and k[0] == '=':
            x = k[1]
        if isinstance(k, tuple) and k[0] == 'op':
            for e2 in self.outcome(k[1], k[2], p, const, pol, e):
                yield self.know(facts, a, p, const, pol), mem, e2
            return
        D = F.defs.get(x) if isinstance(x, int) else None
        while D is not None and D['o'] in ('zext', 'sext', 'trunc', 'freeze', 'bitcast'):
            x = D['a'][0]
            kk = facts.get(x)
            if isinstance(kk, tuple) and kk[0] == '=':
                x = kk[1]
            D = F.defs.get(x) if isinstance(x, int) else None
        # a comparison of a condition with a constant
        if D is not None and const == 0 and p in ('eq', 'ne') and D['o'] in ('icmp', 'xor', 'and', 'or', 'select', 'phi') and x != a or \
                D is not None and const == 0 and p in ('eq', 'ne') and D['o'] in ('xor', 'and', 'or', 'select'):
            yield from self.assume(F, x, (p == 'ne') == pol, facts, mem, e, bind, d + 1)
            return
        if D is None:
            if isinstance(x, int) and 0 <= x < len(bind):
                if self.role == 'callback' and F is self.callback and x == 1 and const == 0 and p in ('eq', 'ne') and (p == 'eq') == pol:
                    self.ck.count('ends of a frame that could not be retrieved')
                    e = e._replace(failed=e.failed | {(F.loc(F.blocks[0][0]), F.sname, 'a frame that could not be retrieved', 0, 0)})
                if const == 0 and p in ('eq', 'ne') and (p == 'eq') == pol and bind[x][0]:
                    e = self.clean(e, bind[x][0])
            yield self.know(facts, a, p, const, pol), mem, e
            return
        if D['o'] == 'load':
            f = self.field(F, D['a'][0])
            if f in KEPT and const == 0 and p in ('eq', 'ne'):
                mem = dict(mem)
                mem[f] = ('i', 0) if (p == 'eq') == pol else 'NN'
        # a stream that is not there holds nothing
        if const == 0 and p in ('eq', 'ne') and (p == 'eq') == pol and self.is_stream(F, a):
            s = self.stream(F, a, bind)
            if s:
                e = self.clean(e, s)
        if D['o'] == 'extractvalue':
            C = F.defs.get(D['a'][0])
            if C is not None and 'from_chars' in self.dem(F, C):
                if D.get('ix') == [1]:
                    for e2 in self.outcome(self.uid(F, C, 'from_chars: error code'), NONZERO, p, const, pol, e):
                        yield facts, mem, e2
                    return
                if p in ('eq', 'ne'):
                    u = self.uid(F, C, 'from_chars: rest of the text')
                    self.tested.add(u)
                    e = e._replace(pend=e.pend - {u})
                    if (p == 'eq') != pol:
                        e = e._replace(failed=e.failed | {u})
            yield facts, mem, e
            return
        if D['o'] in ('call', 'invoke'):
            for f2, m2, e2 in self.tested_call(F, D, p, const, pol, facts, mem, e, bind):
                yield self.know(f2, a, p, const, pol), m2, e2
            return
        yield self.know(facts, a, p, const, pol), mem, e

    @staticmethod
    def know(facts, a, p, const, pol):
        if const == 0 and p in ('eq', 'ne'):
            facts = dict(facts)
            while isinstance(facts.get(a), tuple) and facts[a][0] == '=':
                a = facts[a][1]
            facts[a] = ('i', 0) if (p == 'eq') == pol else 'NN'
        return facts

    @staticmethod
    def clean(e, s):
        return e._replace(dirty=frozenset(x for x in e.dirty if x[1] != s))

    def tested_call(self, F, D, p, const, pol, facts, mem, e, bind):
        sp = self.spec(F, D)
        nm, G = self.callee(F, D)
        if nm in ('getError', 'mapGetError'):
            if nm == 'getError':
                us = {u for u in e.pend if u[2] in ('evaluateFile', 'evaluateBuffer')}
            else:
                R = self.root(F, D['a'][0], facts)
                us = {self.uid(F, R)} & e.pend if R is not None and R['o'] in ('call', 'invoke') else set()
            for r in self.verdict(QUERY, p, const, pol):
                self.tested |= us
                if r == 'ok':
                    yield facts, mem, e._replace(pend=e.pend - us)
                elif r == 'bad':
                    yield facts, mem, e._replace(pend=e.pend - us, failed=e.failed | (us or {self.uid(F, D)}))
                else:
                    yield facts, mem, e
            return
        if nm == 'ferror' or nm in FLUSH:
            s = self.stream(F, D['a'][0], bind)
            u = self.uid(F, D)
            for r in self.verdict(sp, p, const, pol):
                self.tested.add(u)
                if r == 'ok':
                    gone = frozenset(x for x in e.dirty if x[1] == s and (x[0] == 'e') == (nm == 'ferror'))
                    yield facts, mem, e._replace(dirty=e.dirty - gone)
                elif r == 'bad':
                    yield facts, mem, e._replace(failed=e.failed | {u})
                else:
                    yield facts, mem, e
            return
        if nm in WRITES and sp is not None:
            s = self.stream(F, D['a'][WRITES[nm][0]], bind)
            u = self.uid(F, D)
            if s is None:
                yield facts, mem, e
                return
            for r in self.verdict(sp, p, const, pol):
                self.tested.add(u)
                gone = frozenset(x for x in e.dirty if x[0] == 'e' and x[1] == s and x[2] == u)
                if r == 'ok':
                    yield facts, mem, e._replace(dirty=e.dirty - gone)
                elif r == 'bad':
                    yield facts, mem, e._replace(dirty=e.dirty - gone, failed=e.failed | {u})
                else:
                    yield facts, mem, e
            return
        if sp == 'map' or sp == 'chars' or sp is None:
            yield facts, mem, e
            return
        u = self.uid(F, D, self.dem(F, D).split('(')[0] if HEADERS.search(self.dem(F, D)) else '')
        for e2 in self.outcome(u, sp, p, const, pol, e):
            yield facts, mem, e2

    def verdict(self, sp, p, const, pol):
        if sp == SHORT:
            k = 100 if const is None else const
            bad, ok = (k - 1,), (k,)
            const = k
        else:
            bad, ok = sp
        if const is None:
            return ['?']
        b = any(holds(x, p, const) in (None, pol) for x in bad)
        g = any(holds(x, p, const) in (None, pol) for x in ok)
        if b and g:
            return ['?']
        return ['bad'] if b else ['ok'] if g else []

    def outcome(self, u, sp, p, const, pol, e):
        for r in self.verdict(sp, p, const, pol):
            if r == '?':
                yield e
                continue
            self.tested.add(u)
            yield e._replace(pend=e.pend - {u}, failed=e.failed | ({u} if r == 'bad' else set()))

    # ---- ends
    def end(self, F, I, facts, mem, e, bind, out, live):
        if self.role == 'callback' and F is self.callback:
            self.ck.count('ends of the callback')
            w = F.loc(I)
            if e.failed:
                x = min(e.failed)
                if mem.get('outputError') not in ('NN', ('i', 1)):
                    self.ck.violation('frame error', x[0], F.sname, 'the failure of %s is not recorded in outputError' % x[2])
                if not e.stop:
                    self.ck.violation('frame error', x[0], F.sname, 'after the failure of %s totalFrames is not brought down to what has been requested' % x[2])
            if e.req:
                self.ck.violation('request', w, F.sname, 'a frame of %s is requested, but requestedFrames does not move on' % ', '.join(sorted(e.req)))
            if not e.cnt:
                self.ck.violation('count', w, F.sname, 'a frame is not counted as completed')
            elif not e.told:
                self.ck.violation('notify', w, F.sname, 'the last frame may be completed without the waiting thread being told')
        r = I['a'][0] if I.get('a') else None
        if r is None:
            out.add((None, frozenset(mem.items()), e))
            return
        k = self.kind(F, r, facts, bind)
        if isinstance(k, tuple) and k[0] == '=':
            r, k = k[1], None
        if k == 'NN' or isinstance(k, tuple) and k[0] in ('i', 'op'):
            out.add((k, frozenset(mem.items()), e))
            return
        D = self.root(F, r, facts)
        if D is not None and D['o'] in ('call', 'invoke') and isinstance(self.spec(F, D), tuple) and self.callee(F, D)[0] in OPS:
            out.add((('op', self.uid(F, D), self.spec(F, D)), frozenset(mem.items()), e))
            return
        if F.dtypes and (F.dtypes[0] in ('bool', 'int') or F.sname == 'main'):
            for pol in (True, False):
                for f2, m2, e2 in self.assume(F, r, pol, dict(facts), dict(mem), e, bind):
                    out.add(('NN' if pol else ('i', 0), frozenset(m2.items()), e2))
            return
        out.add((None, frozenset(mem.items()), e))


def holds(v, p, c):
    try:
        return {'eq': v == c, 'ne': v != c, 'slt': v < c, 'sle': v <= c, 'sgt': v > c, 'sge': v >= c,
                'ult': v < c, 'ule': v <= c, 'ugt': v > c, 'uge': v >= c}[p]
    except KeyError:
        return None


def words(u):
    return '%s (%s)' % (u[2], u[0].split('/')[-1])


def analyse(P, ck):
    M = [F for F in P.funcs.values() if F.name == 'main' or F.sname == 'main8']
    if not M:
        return None
    F = M[0]
    A = Pipe(P, ck)
    for rk, mem, e in A.explore(F, tuple((None, None) for _ in F.dtypes[1:])):
        ck.count('ways to end')
        if rk == 'NN' or isinstance(rk, tuple) and rk[0] == 'i' and rk[1] != 0:
            ck.count('ways to end with a failure')
            continue
        for u in sorted(e.failed):
            ck.violation('status', u[0], u[1], '%s has failed, but vspipe can end with status 0' % words(u))
        for u in sorted(e.pend):
            ck.violation('unasked', u[0], u[1], 'the outcome of %s is not asked for, vspipe can end with status 0 after it has failed' % words(u))
        for x in sorted(e.dirty, key=str):
            if x[0] == 'e':
                ck.violation('write', x[2][0], x[2][1], 'neither the result of %s nor the error state of %s afterwards is looked at before vspipe ends with status 0' % (words(x[2]), x[1]))
            else:
                ck.violation('flush', F.loc(F.blocks[0][0]), F.sname, 'vspipe can end with status 0 without having flushed %s successfully' % x[1])
    ck.count('operations that can fail', len(A.ops))
    ck.count('waits for the last frame', A.waits)
    return A
