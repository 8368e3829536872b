"""Program representation loaded from vsir's JSON (one Module per translation unit)."""
import json, re

class Func:
    __slots__ = ('m', 'name', 'dem', 'file', 'line', 'sname', 'ext', 'nt', 'args', 'dtypes', 'sret', 'loops', 'blocks',
                 '_def', '_preds', '_succs', '_uses', '_loopof', '_defblk', '_cache')

    def __init__(self, m, d):
        self.m = m
        for k in ('name', 'dem', 'file', 'line', 'sname', 'ext', 'args', 'dtypes', 'sret', 'loops', 'blocks'):
            setattr(self, k, d.get(k))
        self.nt = d.get('nt', 0)
        self._def = self._preds = self._succs = self._uses = self._loopof = self._defblk = None
        self._cache = {}

    def _index(self):
        self._def = {}
        self._defblk = {}
        self._uses = {}
        for b, insts in enumerate(self.blocks):
            for n, I in enumerate(insts):
                I['_b'] = b
                I['_n'] = n
                if 'i' in I:
                    self._def[I['i']] = I
                    self._defblk[I['i']] = b
                for o in operands(I):
                    if isinstance(o, int):
                        self._uses.setdefault(o, []).append(I)

    @property
    def defs(self):
        if self._def is None:
            self._index()
        return self._def

    @property
    def uses(self):
        if self._def is None:
            self._index()
        return self._uses

    def succs(self, b):
        if self._succs is None:
            self._succs = [succ_of(i[-1]) for i in self.blocks]
        return self._succs[b]

    def preds(self, b):
        if self._preds is None:
            self._preds = [[] for _ in self.blocks]
            for x in range(len(self.blocks)):
                for s in self.succs(x):
                    self._preds[s].append(x)
        return self._preds[b]

    def loops_of(self, b):
        """loop indices containing block b, outermost first (preorder)"""
        if self._loopof is None:
            self._loopof = [[] for _ in self.blocks]
            for k, L in enumerate(self.loops):
                for x in L['b']:
                    self._loopof[x].append(k)
        return self._loopof[b]

    def insts(self):
        if self._def is None:
            self._index()
        for b in self.blocks:
            for I in b:
                yield I

    def loc(self, I):
        return self.m.loc(I.get('l', -1), self)

    def __repr__(self):
        return '<%s>' % self.dem


def succ_of(t):
    o = t['o']
    if o == 'br':
        return list(dict.fromkeys(t['s']))
    if o == 'switch':
        return list(dict.fromkeys([t['d']] + [c[1] for c in t['cs']]))
    if o == 'invoke':
        return list(t['s'])
    return []


def operands(I):
    if 'ph' in I:
        for _, o in I['ph']:
            yield o
    for o in I.get('a', ()):
        yield o
    if 'f' in I:
        yield I['f']
    for o, _ in I.get('var', ()):
        yield o


class Module:
    def __init__(self, path):
        d = json.load(open(path, encoding='latin-1'))
        self.source = d['source']
        self.types = d['types']
        self.globals = d['globals']
        self.decls = d['decls']
        self.locs = d['locs']
        self.aliases = d.get('aliases', {})
        self.funcs = {}
        for f in d['funcs']:
            F = Func(self, f)
            self.funcs[F.name] = F

    def loc(self, i, F=None):
        if i is None or i < 0:
            return '%s:%d' % (short(F.file), F.line) if F else '?'
        f, l, c, par, fn = self.locs[i]
        return '%s:%d' % (short(f), l)

    def locchain(self, i):
        out = []
        while i is not None and i >= 0:
            f, l, c, par, fn = self.locs[i]
            out.append((f, l, fn))
            i = par
        return out

    def root_line(self, i):
        """line in the (non-inlined) function body"""
        ch = self.locchain(i)
        return ch[-1] if ch else None

    def dem(self, name):
        d = self.decls.get(name)
        return d[0] if d else name

    def string(self, o):
        """string constant operand -> python str or None"""
        off = 0
        if isinstance(o, list) and o[0] == 'cg':
            off = o[2] or 0
            o = o[1]
        if isinstance(o, list) and o[0] == 'g':
            g = self.globals.get(o[1])
            if g and g['const'] and 'init' in g:
                i = g['init']
                if i[0] == 's':
                    s = i[1][off:]
                    return s.split('\0')[0]
                if i[0] == 'z':
                    return ''
        return None

    def field(self, tname, off):
        """(path, typename) of field at byte offset in struct type"""
        for p in ('struct.', 'class.', 'union.'):
            if tname.startswith(p):
                tname = tname[len(p):]
        return self._field(tname, off, 0)

    def _field(self, tname, off, depth):
        t = self.types.get(tname)
        if t is None:
            t = self.types.get(re.sub(r'\.\d+$', '', tname))
        if t is None or depth > 8:
            return None
        for nm, o, sz, ty, sub in t['fields']:
            if o <= off < o + max(sz, 1):
                if sub and sub in self.types and self.types[sub]['kind'] == 'struct':
                    r = self._field(sub, off - o, depth + 1)
                    if r:
                        return ((nm + '.' if nm != '<base>' else '') + r[0], r[1])
                return (nm if off == o else '%s+%d' % (nm, off - o), ty)
        return None


def short(f):
    return f[6:] if f.startswith('/repo/') else f


def fmt_op(F, o):
    if isinstance(o, int):
        return '%%%d' % o
    if o is None:
        return '-'
    k = o[0]
    if k == 'i':
        return str(o[1])
    if k == 'n':
        return 'null'
    if k == 'u':
        return 'undef'
    if k == 'g':
        s = F.m.string(o)
        if s is not None:
            return repr(s)
        return '@' + F.m.dem(o[1])
    return str(o)


def dump(F):
    print('==', F.dem, F.file, F.line, 'args', F.args, F.dtypes)
    for b, insts in enumerate(F.blocks):
        print('b%d: %s' % (b, ''.join('L%d ' % k for k in F.loops_of(b))))
        for I in insts:
            s = '  '
            if 'i' in I:
                s += '%%%d = ' % I['i']
            s += I['o'] + ' '
            if 'ph' in I:
                s += ', '.join('[b%d %s]' % (b2, fmt_op(F, o)) for b2, o in I['ph'])
            if 'f' in I:
                s += fmt_op(F, I['f'])
            if 'p' in I:
                s += I['p'] + ' '
            if 'a' in I:
                s += '(' + ', '.join(fmt_op(F, o) for o in I['a']) + ')'
            if 'st' in I:
                s += ' %s+%s' % (I['st'], I.get('off'))
                if I.get('off') is not None:
                    fl = F.m.field(I['st'], I['off'])
                    if fl:
                        s += ' ' + fl[0]
                if 'var' in I:
                    s += ' var ' + ' '.join('%s*%d' % (fmt_op(F, o), k) for o, k in I['var'])
            if 's' in I:
                s += ' -> ' + ' '.join('b%d' % x for x in I['s'])
            if 'cs' in I:
                s += ' d=b%d ' % I['d'] + ' '.join('%d:b%d' % (v, x) for v, x in I['cs'])
            if 't' in I:
                s += ' : ' + I['t']
            if 'at' in I and I['o'] == 'alloca':
                s += I['at']
            print('%-110s ; %s' % (s, F.loc(I)))


if __name__ == '__main__':
    import sys
    M = Module(sys.argv[1])
    for F in M.funcs.values():
        if len(sys.argv) < 3 or re.search(sys.argv[2], F.dem):
            if len(sys.argv) > 3:
                print(F.dem, F.dtypes, sum(map(len, F.blocks)))
            else:
                dump(F)
