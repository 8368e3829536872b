"""The core's translation units linked into one program, with field paths and a call graph."""
import re
import build
from ir import Module, operands, succ_of, short


def split_args(dem):
    return re.sub(r'\(.*$', '', dem)


class Program:
    def __init__(self, paths, mode=True):
        self.modules = []
        self.funcs = {}
        self.decl = {}
        self.alias = {}
        for src, js in build.ir_files(paths, core=mode):
            M = Module(js)
            self.modules.append(M)
            for F in M.funcs.values():
                self.funcs.setdefault(F.name, F)
            for k, v in M.decls.items():
                self.decl.setdefault(k, v)
        for M in self.modules:
            for a, t in M.aliases.items():
                if a not in self.funcs and t in self.funcs:
                    self.funcs[a] = self.funcs[t]
                    self.alias[a] = t
        for a in self.alias:
            del self.funcs[a]
        # one name per function from here on
        if self.alias:
            for M in self.modules:
                for F in M.funcs.values():
                    for I in F.insts():
                        f = I.get('f')
                        if isinstance(f, list) and f[0] == 'g' and f[1] in self.alias:
                            I['f'] = ['g', self.alias[f[1]]] + f[2:]
        self._tables()

    def _tables(self):
        """functions whose address is stored in constant data or taken in code"""
        self.in_tables = set()
        self.taken = set()

        def walk(i):
            if isinstance(i, list):
                if len(i) == 2 and i[0] == 'g' and isinstance(i[1], str):
                    if i[1] in self.funcs:
                        self.in_tables.add(i[1])
                    return
                for x in i:
                    walk(x)
        for M in self.modules:
            for g in M.globals.values():
                walk(g.get('init'))

    def repo_funcs(self):
        for F in self.funcs.values():
            if (F.file or '').startswith('/repo/'):
                yield F

    def by_dem(self, prefix):
        return [F for F in self.repo_funcs() if F.dem == prefix or F.dem.startswith(prefix + '(')]


def core_program(mode=True):
    import glob, os
    names = ['vsapi', 'vscore', 'vsthreadpool', 'vslog', 'memoryuse', 'cpufeatures', 'coreplugins', 'internalfilters']
    # every unit of the core that is not a filter
    paths = build.core_units() + [p for p in build.filter_units() if os.path.basename(p) == 'internalfilters.cpp']
    return Program(paths, mode)


def cls(t):
    for p in ('struct.', 'class.', 'union.'):
        if t.startswith(p):
            t = t[len(p):]
    return re.sub(r'\.\d+$', '', t)


def gepchain(F, o):
    """operand -> (base operand, [(struct type, offset)] outermost first)"""
    ch = []
    while isinstance(o, int):
        D = F.defs.get(o)
        if D is None or D['o'] not in ('getelementptr', 'bitcast', 'freeze'):
            break
        if D['o'] == 'getelementptr':
            if D.get('var'):
                ch.append((D.get('st', ''), None))
            else:
                ch.append((D.get('st', ''), D.get('off')))
        o = D['a'][0]
    ch.reverse()
    return o, ch


def field_of(F, o):
    """(class, field path, base operand) the pointer operand o designates, or None"""
    base, ch = gepchain(F, o)
    if isinstance(base, list) and base[0] == 'cg':
        return None
    for st, off in ch[:1]:
        if off is None:
            continue
        c = cls(st)
        fl = F.m.field(st, off)
        if fl:
            nm = fl[0]
            return c, nm.split('+')[0], base
    return None


def path_expr(F, o, depth=0):
    """printable canonical access path of a pointer operand"""
    if depth > 8:
        return '?'
    if isinstance(o, list):
        if o[0] == 'g':
            g = F.m.globals.get(o[1])
            return 'global ' + (g.get('nm') or o[1] if g else F.m.dem(o[1]))
        if o[0] == 'cg':
            return path_expr(F, o[1], depth + 1) + '+%s' % o[2]
        return str(o)
    D = F.defs.get(o)
    if D is None:
        if 0 <= o < len(F.dtypes) - 1:
            return 'arg%d' % o
        return '%%%d' % o
    if D['o'] == 'getelementptr':
        f = field_of(F, o)
        b = path_expr(F, D['a'][0], depth + 1)
        if f and D['a'][0] == f[2]:
            return b + '.' + f[1]
        return b + '.+%s' % (D.get('off') if not D.get('var') else '?')
    if D['o'] == 'load':
        return '*' + path_expr(F, D['a'][0], depth + 1)
    if D['o'] == 'alloca':
        return 'local%d' % o
    return '%%%d' % o
