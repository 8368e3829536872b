"""Paths through functions Cython generated, with the edges on which an operation failed and what is known about pointers on the way.

What cannot fail as far as this analysis is concerned: looking up names of the module and builtins, allocating memory, formatting
strings, and calling the well known methods below on objects of the module's own.  What can: running foreign Python code, converting
text that comes from outside, converting objects, and functions of the module that do any of that without catching it."""
import re
import core, cy

SAFE = re.compile(r'^(_*Pyx_+(GetModuleGlobalName|GetBuiltinName|GetName|GetException|PyTuple_FromArray|ssize_strlen|PyUnicode_Join|PyUnicode_From\w*|PyBaseException\w*|ExceptionS\w+|AddTraceback|PyList_\w+|PyTuple_\w+|NewRef\w*|ImportFrom|Import|GetAttr3?|DictVersion\w*|'
                  r'_*Pyx_PyUnicode_From_\w+|RejectKeywords|tp_new|PyMethod_New\w*|CyFunction\w*)'
                  r'|Py(Tuple|List|Dict|Set)_(New|Pack|Copy|SetItem|Append|Clear|Size|Contains|GetItem\w*|Next)|PyGILState_\w+|PyErr_\w+|PyBytes_(AsString|FromString\w*|Size)|PyObject_(IsInstance|GetIter|Hash)|PyType_\w+|PyMem_\w+|PyUnicode_(Join|Concat|FromString|Substring|GetLength|Compare|RichCompare)|PyLong_From\w+|PyFloat_From\w+|PyBool_\w+'
                  r'|PyMemoryView_\w+|_*Pyx_(dict_iter\w*|PyDict_Items|PyLong_(From|As_)\w+)|_*pyx_tp_new\w*|PyNumber_Add|_Py_(Inc|Dec)Ref)$')
METHODS = {'set_result', 'set_exception', 'add', 'discard', 'clear', 'append', 'strip', 'rstrip', 'split', 'startswith', 'endswith', 'join', 'lower', 'items', 'keys', 'values', 'get', 'pop', 'format_exc',
           'format_exception', 'print_exc', 'collect', 'use', 'enter', 'exit', '__enter__', '__exit__', 'set_running_or_notify_cancel', 'find', 'flush', 'is_alive', 'update'}
TOLERANT = ('replace', 'backslashreplace', 'ignore', 'surrogateescape', 'xmlcharrefreplace', 'namereplace')
CLEARS = {'__Pyx_GetException', 'PyErr_Fetch', 'PyErr_Clear', '__Pyx_ErrFetch', 'PyErr_GetRaisedException', '__Pyx_ErrFetchInState', '__Pyx_PyErr_Clear'}
RESTORES = re.compile(r'^(PyErr_(Restore|SetRaisedException)|__Pyx_(ErrRestore\w*|ReraiseException\w*))$')
SETS = re.compile(r'^(PyErr_(Restore|SetString|SetNone|SetObject|Format|SetRaisedException|NoMemory|BadInternalCall)|__Pyx_(Raise\w*|ErrRestore\w*|ReraiseException\w*))$')


def cstring(C, o):
    g = o[1] if isinstance(o, list) and o[0] == 'g' else None
    i = C.M.globals.get(g, {}).get('init') if g else None
    if i is None:
        return None
    if isinstance(i, list) and i and isinstance(i[1], str):
        return i[1].rstrip('\0')
    return str(i)


class Raises:
    """which operations may fail"""

    def __init__(self, C, V):
        self.C, self.V = C, V
        self.memo = {}
        self.trust = set()      # functions of the module that are taken to succeed

    def origin(self, F, o, depth=0):
        """name of what a value was looked up as"""
        D = F.defs.get(o) if isinstance(o, int) else None
        if D is None or depth > 6:
            return None
        if D['o'] in ('call', 'invoke'):
            for x in D.get('a', ()):
                s = self.C.string(F, x)
                if s:
                    return s
        if D['o'] == 'load':
            r = {self.origin(F, x, depth + 1) for x in reaching(F, D)}
            return r.pop() if len(r) == 1 else None
        if 'ph' in D:
            r = {self.origin(F, x, depth + 1) for p, x in D['ph'] if isinstance(x, int)}
            return r.pop() if len(r) == 1 else None
        return None

    def op(self, F, I, facts=None):
        """can this call fail"""
        C = self.C
        nm = C.name(I)
        if nm is None:
            ts = C.targets(F, I)
            return any(self.fn(t, ()) for t in ts)
        ts = C.targets(F, I)
        if ts and not nm.startswith(('__Pyx', '_Py', 'Py')):
            arg = []
            for k, o in enumerate(I.get('a', ())):
                if (facts or {}).get(self.V.key(F, o)) == 'X':
                    arg.append(k)
            return any(self.fn(t, tuple(arg)) for t in ts)
        if SAFE.match(nm):
            return False
        if nm == 'PyObject_GetAttr' or nm.startswith('__Pyx_PyObject_GetAttr'):
            o = self.origin(F, I['a'][0])
            n = C.string(F, I['a'][1])
            return not (n in METHODS or o is not None and n is not None)
        if nm == 'PyObject_VectorcallMethod' or nm.startswith('__Pyx_PyObject_FastCallMethod'):
            n = C.string(F, I['a'][0])
            k = I['a'][2] if len(I['a']) > 2 else None
            if n == 'encode' and isinstance(k, list) and k[0] == 'i' and k[1] & 0xffff >= 3:
                return False        # with a way to deal with what cannot be encoded
            return n not in METHODS
        if nm.startswith('__Pyx_GetItemInt'):
            return not isinstance(I['a'][1], list)
        if re.match(r'^(__Pyx_)?PyObject_(Call\w*|Fast\w*|Vectorcall\w*)$', nm):
            s = self.origin(F, I['a'][0])
            if s == 'encode' and nm == 'PyObject_Call':
                return False        # with a way to deal with what cannot be encoded
            return not (s in METHODS or s in self.classes())
        if re.search(r'PyUnicode_AsUTF8String|PyUnicode_As(Latin|ASCII)|PyUnicode_EncodeLocale', nm):
            return True
        if re.search(r'decode_c_string|PyUnicode_(Decode\w*|AsEncodedString|FromEncodedObject)|decode_c_bytes|decode_bytes', nm):
            return not any(cstring(C, x) in TOLERANT for x in I['a'] if isinstance(x, list))
        if nm in ('__Pyx_PyUnicode_Unicode', 'PyObject_Str') or nm == '__Pyx_PyObject_IsTrue' or nm == 'PyObject_IsTrue':
            return False
        return bool(cy.PY.match(nm))

    def classes(self):
        """classes whose construction does nothing that could fail"""
        return {'Error', 'Future', 'RuntimeError', 'ValueError', 'TypeError', 'KeyError', 'KeyboardInterrupt', 'Exception', 'dict', 'list', 'len', 'next', 'iter', 'type', 'register_policy', 'has_policy', 'ref'}

    def fn(self, n, arg):
        """can this function of the module end with an exception, given the arguments that are known to be objects"""
        F = self.C.funcs[n]
        if F.sname in self.trust:
            return False
        if not (F.file or '').startswith('/repo/'):
            return not SAFE.match(self.C.M.dem(n).split('(')[0])
        if (n, arg) in self.memo:
            return self.memo[n, arg]
        self.memo[n, arg] = True        # recursion
        r = False
        try:
            for st in Explore(self, F, {('a', k): 'X' for k in arg}).run():
                if st.pending:
                    r = True
                    break
        except TooMany:
            r = True
        self.memo[n, arg] = r
        return r


class TooMany(Exception):
    pass


class State:
    __slots__ = ('facts', 'pending', 'ext', 'ret', 'I')

    def __init__(self, facts, pending, ext):
        self.facts, self.pending, self.ext = facts, pending, ext


class Explore:
    """all paths through a function; on_event(F, I, facts, ext) -> ext is called for every call, on_fail(I, ext) -> ext on every failing edge"""

    def __init__(self, R, F, facts=None, ext=None, event=None, fail=None, limit=40000):
        self.R, self.F, self.C, self.V = R, F, R.C, R.V
        self.init = dict(facts or {})
        self.ext = ext
        self.event, self.fail, self.store, self.null, self.load, self.alias = event, fail, None, None, None, None
        self.limit = limit
        self.live = liveness(F)
        self.ahead = self.asked()
        self.locals = {I['a'][0] for I in F.insts() if I['o'] == 'load' and isinstance(I['a'][0], int)}

    def k(self, o):
        return self.V.key(self.F, o)

    def asked(self):
        """facts about memory that are still of use from each block on"""
        F = self.F
        here = []
        for blk in F.blocks:
            x = set()
            for I in blk:
                for o in list(I.get('a', ())) + [I.get('i'), I.get('f')] + [y for _, y in I.get('ph', ())]:
                    if isinstance(o, int):
                        k = self.k(o)
                        if k[0] != 'v':
                            x.add(k)
                        if I['o'] == 'load' and o == I['a'][0]:
                            x.add(('m', o))
            here.append(x)
        for b in range(len(here)):
            here[b] = frozenset(here[b])
        work = set(range(len(here)))
        while work:
            b = work.pop()
            x = here[b].union(*[here[s] for s in F.succs(b)])
            if x != here[b]:
                here[b] = x
                work |= set(F.preds(b))
        return here

    def kind(self, o, facts):
        if isinstance(o, list):
            if o[0] == 'n' or o[0] == 'i' and o[1] == 0:
                return 'N'
            if o[:2] == cy.NONE:
                return 'O'
            if o[0] == 'i':
                return ('i', o[1])
            if o[0] in ('g', 'cg'):
                return 'X'
            return None
        kd = facts.get(self.k(o))
        return self.kind(kd[1], facts) if isinstance(kd, tuple) and kd[0] == '=' else kd

    def run(self):
        F = self.F
        todo = [(0, frozenset(self.init.items()), None, self.ext)]
        seen = set(todo)
        out = []
        while todo:
            b, ff, pend, ext = todo.pop()
            facts = dict(ff)
            dead = False
            for I in F.blocks[b]:
                o = I['o']
                if o in ('call', 'invoke'):
                    nm = self.C.name(I)
                    if nm == 'PyErr_Occurred':
                        pass
                    elif nm in CLEARS:
                        if nm != 'PyErr_Clear' and pend:
                            facts[('saved',)] = pend
                        elif nm != 'PyErr_Clear':
                            facts.pop(('saved',), None)
                        pend = None
                    elif nm and RESTORES.match(nm):
                        pend = None if self.kind(I['a'][0], facts) == 'N' else facts.get(('saved',))
                    elif nm in ('PyErr_SetString', 'PyErr_Format') and 'NoneType' in (cstring(self.C, I['a'][1]) or ''):
                        dead = True     # what has a declared type is not None
                        break
                    elif nm and SETS.match(nm) and not nm.startswith('__Pyx_RaiseUnexpectedType'):
                        pend = pend or I['_u'] if '_u' in I else (b, I['_n'])
                    if self.event:
                        ext = self.event(F, I, facts, ext, pend)
                        if ext == 'stop':
                            dead = True
                            break
                    if nm and 'i' not in I and not cy.PY.match(nm) and self.C.targets(F, I) and self.R.op(F, I, facts):
                        pend = pend or ('m', b, I['_n'])
                    if 'i' in I:
                        facts.pop(('v', I['i']), None)
                    for x in I.get('a', ()):
                        if isinstance(x, int):
                            facts.pop(('m', x), None)
                elif o == 'store':
                    if self.store:
                        ext = self.store(F, I, facts, ext)
                    x = core.field_of(F, I['a'][1])
                    p = I['a'][1]
                    if isinstance(p, int) and F.defs.get(p, {}).get('o') == 'alloca':
                        facts.pop(('m', p), None)
                        kd = self.kind(I['a'][0], facts)
                        if isinstance(kd, str) and p in self.locals:
                            facts[('m', p)] = kd
                    elif x:
                        k = ('ld', self.k(x[2]), x[1].split('.')[-1])
                        for y in [y for y in facts if cy.Valid.rebase(y, k, k)]:
                            del facts[y]
                        kd = self.kind(I['a'][0], facts)
                        if kd:
                            facts[k] = kd
                elif o == 'load' and 'i' in I:
                    if self.load:
                        ext = self.load(F, I, facts, ext)
                    k = self.k(I['i'])
                    if k[0] == 'v':
                        facts.pop(k, None)
                        kd = facts.get(('m', I['a'][0])) if isinstance(I['a'][0], int) else None
                        if kd:
                            facts[k] = kd
                elif o == 'ret':
                    s = State(facts, pend, ext)
                    s.ret = I['a'][0] if I.get('a') else None
                    s.I = I
                    out.append(s)
            if dead or F.blocks[b][-1]['o'] in ('ret', 'unreachable'):
                continue
            for s, f2, p2, e2 in self.succ(b, facts, pend, ext):
                f2 = self.enter(b, s, f2)
                if self.alias:
                    e2 = self.alias(b, s, e2)
                st = (s, frozenset(f2.items()), p2, e2)
                if st not in seen:
                    if len(seen) > self.limit:
                        raise TooMany(F.sname)
                    seen.add(st)
                    todo.append(st)
        return out

    def enter(self, p, s, facts):
        new = {}
        for I in self.F.blocks[s]:
            if 'ph' not in I:
                break
            if self.k(I['i'])[0] != 'v':
                continue
            for q, x in I['ph']:
                if q == p:
                    kd = self.kind(x, facts)
                    if kd:
                        new[('v', I['i'])] = kd
                    elif isinstance(x, int) and (I.get('t') == 'i1' or self.F.defs.get(x, {}).get('o') in ('call', 'invoke')):
                        new[('v', I['i'])] = ('=', x)
                    else:
                        new[('v', I['i'])] = None
        out = {k: v for k, v in facts.items() if (k[1] in self.live[s] if k[0] == 'v' else k[0] == 'saved' or k in self.ahead[s])}
        for k, v in new.items():
            if v is None:
                out.pop(k, None)
            elif k[1] in self.live[s] or True:
                out[k] = v
        return out

    def succ(self, b, facts, pend, ext):
        F = self.F
        t = F.blocks[b][-1]
        su = F.succs(b)
        if t['o'] != 'br' or not t.get('a') or len(su) != 2:
            for s in dict.fromkeys(su):
                yield s, dict(facts), pend, ext
            return
        for s, pol in ((su[0], True), (su[1], False)):
            for f2, p2, e2 in self.assume(t['a'][0], pol, dict(facts), pend, ext, s, 0):
                yield s, f2, p2, e2

    def assume(self, c, pol, facts, pend, ext, s, depth):
        """states in which the condition is pol"""
        F = self.F
        if isinstance(c, list):
            if c[0] == 'i' and (c[1] != 0) != pol:
                return
            yield facts, pend, ext
            return
        kd = facts.get(self.k(c))
        if isinstance(kd, tuple) and kd[0] == '=':
            yield from self.assume(kd[1], pol, facts, pend, ext, s, depth + 1)
            return
        if kd is not None:
            if kd == 'N' and pol or kd in ('X', 'O') and not pol or isinstance(kd, tuple) and (kd[1] != 0) != pol:
                return
            if kd != 'NN' or pol:
                yield facts, pend, ext
                return
            return
        D = F.defs.get(c)
        o = D['o'] if D else None
        if o in ('zext', 'sext', 'trunc', 'freeze'):
            yield from self.learn(c, pol, self.assume(D['a'][0], pol, facts, pend, ext, s, depth + 1))
            return
        if o == 'xor' and isinstance(D['a'][1], list) and D['a'][1][1] in (1, -1):
            yield from self.learn(c, pol, self.assume(D['a'][0], not pol, facts, pend, ext, s, depth + 1))
            return
        if o == 'icmp':
            a, b2 = D['a']
            p = D['p']
            if isinstance(a, list) and not isinstance(b2, list):
                a, b2 = b2, a
                p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
            if isinstance(b2, list) and isinstance(a, int) and b2[0] in ('n', 'i', 'g'):
                yield from self.learn(c, pol, self.compare(a, p, b2, pol, facts, pend, ext, s))
                return
        if o in ('call', 'invoke'):
            yield from self.value(c, D, pol, facts, pend, ext, s)
            return
        if o == 'and' or o == 'or':
            # both or one
            if (o == 'and') == pol:
                for f, p2, e in list(self.assume(D['a'][0], pol, facts, pend, ext, s, depth + 1)):
                    yield from self.assume(D['a'][1], pol, f, p2, e, s, depth + 1)
                return
        facts[self.k(c)] = 'NN' if pol else 'N'
        yield facts, pend, ext

    def learn(self, c, pol, it):
        for f, p, e in it:
            if c in self.live['all']:
                f[self.k(c)] = 'NN' if pol else 'N'
            yield f, p, e

    def compare(self, a, p, b, pol, facts, pend, ext, s):
        F = self.F
        k = self.k(a)
        kd = facts.get(k)
        if isinstance(kd, tuple) and kd[0] == '=':
            for f, p2, e in self.compare(kd[1], p, b, pol, facts, pend, ext, s):
                f[k] = f.get(self.k(kd[1])) or kd
                yield f, p2, e
            return
        if b[0] == 'n' or b[0] == 'g' and b[:2] == cy.NONE:
            if p not in ('eq', 'ne'):
                yield facts, pend, ext
                return
            eq = (p == 'eq') == pol
            what = 'N' if b[0] == 'n' else 'O'
            if eq:
                if kd is not None and kd != what and not (kd == 'NN' and what == 'O'):
                    return
                if what == 'N' and kd is None:
                    D = F.defs.get(a)
                    if D is not None and D['o'] in ('call', 'invoke'):
                        if self.C.name(D) == 'PyErr_Occurred':
                            if pend and pend[0] != 'm':
                                return
                            facts[k] = 'N'
                            yield facts, None, ext
                            return
                        x = self.failed(D, facts, pend, ext)
                        if x is None:
                            return
                        pend, ext = x
                if what == 'N' and self.null:
                    ext = self.null(F, a, ext)
                facts[k] = what
                yield facts, pend, ext
            else:
                if kd == what:
                    return
                if what == 'N':
                    D = F.defs.get(a)
                    if D is not None and D['o'] in ('call', 'invoke') and self.C.name(D) == 'PyErr_Occurred':
                        if not pend:
                            return
                        pend = pend[1:] if pend[0] == 'm' else pend
                        if self.fail:
                            self.pend = pend
                            ext = self.fail(self.F, D, ext)
                    facts[k] = kd or 'NN'
                else:
                    facts[k] = 'X' if kd in ('NN', 'X') else kd or 'XO'
                    if facts[k] == 'XO':
                        facts[k] = 'X'
                yield facts, pend, ext
            return
        # a number
        v = b[1]
        if isinstance(kd, tuple) or kd == 'N':
            n = kd[1] if isinstance(kd, tuple) else 0
            r = {'eq': n == v, 'ne': n != v, 'slt': n < v, 'sle': n <= v, 'sgt': n > v, 'sge': n >= v}.get(p)
            if r is None or r == pol:
                yield facts, pend, ext
            return
        D = F.defs.get(a)
        if D is None or D['o'] not in ('call', 'invoke'):
            if v == 0 and p in ('eq', 'ne'):
                yield from self.assume(a, pol == (p == 'ne'), facts, pend, ext, s, 1)
                return
            yield facts, pend, ext
            return
        nm = self.C.name(D)
        if nm and nm.endswith('ErrExceptionMatches') or nm in ('PyErr_ExceptionMatches', '__Pyx_PyErr_ExceptionMatches'):
            if v == 0 and p in ('eq', 'ne'):
                yield from self.value(a, D, pol == (p == 'ne'), facts, pend, ext, s)
                return
        bad = v == -1 and p in ('eq', 'ne') and (p == 'eq') == pol or v == 0 and (p, pol) in (('slt', True), ('sge', False))
        good = v == -1 and p in ('eq', 'ne') and (p == 'eq') != pol or v == 0 and (p, pol) in (('slt', False), ('sge', True))
        if bad and (cy.PY.match(nm or '') or self.C.targets(F, D)):
            asked = any(J['o'] in ('call', 'invoke') and self.C.name(J) == 'PyErr_Occurred' for J in F.blocks[s] + F.blocks[D['_b']][D['_n'] + 1:])
            if asked:
                if self.R.op(F, D, facts):
                    pend = pend or ('m', D['_b'], D['_n'])
                yield facts, pend, ext
                return
            x = self.failed(D, facts, pend, ext)
            if x is None:
                return
            yield facts, x[0], x[1]
            return
        if v == 0 and p in ('eq', 'ne'):
            yield from self.value(a, D, pol == (p == 'ne'), facts, pend, ext, s)
            return
        yield facts, pend, ext

    def failed(self, D, facts, pend, ext):
        """a call has failed: (pending, ext), or None if it cannot"""
        nm = self.C.name(D)
        if not (cy.PY.match(nm or '') or self.C.targets(self.F, D)):
            return pend, ext
        if not self.R.op(self.F, D, facts):
            return None
        if self.fail:
            ext = self.fail(self.F, D, ext)
        return pend or (D['_b'], D['_n']), ext

    def value(self, c, D, pol, facts, pend, ext, s):
        """a call whose result is used as a truth value"""
        nm = self.C.name(D)
        if nm and re.search(r'ErrExceptionMatches|PyErr_ExceptionMatches|PyErr_GivenExceptionMatches', nm):
            if 'PyExc_BaseException' in str(arg_source(self.F, D['a'][0] if len(D['a']) == 1 else D['a'][1])) and not pol:
                return
        if nm and re.search(r'PyObject_IsTrue$', nm) and pol and self.kind(D['a'][0], facts) == 'O':
            return
        if nm and re.search(r'PyObject_IsTrue$', nm) and pol and self.R.origin(self.F, callee(self.F, D['a'][0])) in ('exit', '__exit__'):
            return          # the context managers of the module do not swallow exceptions
        yield facts, pend, ext


def reaching(F, D):
    """values a local variable may have been given last where it is read; None among them if something else may have written it"""
    p = D['a'][0]
    A = F.defs.get(p) if isinstance(p, int) else None
    if A is None or A['o'] != 'alloca':
        return [None]
    out = []
    seen = set()
    todo = [(D['_b'], D['_n'])]
    while todo:
        b, n = todo.pop()
        for I in reversed(F.blocks[b][:n]):
            if I['o'] == 'store' and I['a'][1] == p:
                if not (isinstance(I['a'][0], list) and I['a'][0][0] == 'n'):
                    out.append(I['a'][0])
                break
            if I['o'] in ('call', 'invoke') and p in I.get('a', ()):
                out.append(None)
                break
        else:
            for q in F.preds(b):
                if q not in seen:
                    seen.add(q)
                    todo.append((q, len(F.blocks[q])))
    return out


def callee(F, o):
    D = F.defs.get(o) if isinstance(o, int) else None
    return D['a'][0] if D is not None and D['o'] in ('call', 'invoke') and D.get('a') else None


def arg_source(F, o):
    D = F.defs.get(o) if isinstance(o, int) else None
    return D['a'][0] if D is not None and D['o'] == 'load' else o


def liveness(F):
    """values used in or after each block"""
    n = len(F.blocks)
    use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
    pu = [set() for _ in range(n)]
    for b, blk in enumerate(F.blocks):
        for I in blk:
            if 'ph' in I:
                for p, x in I['ph']:
                    if isinstance(x, int):
                        pu[p].add(x)
            else:
                for x in I.get('a', ()):
                    if isinstance(x, int) and x not in dfn[b]:
                        use[b].add(x)
                if isinstance(I.get('f'), int):
                    use[b].add(I['f'])
            if 'i' in I:
                dfn[b].add(I['i'])
    # conditions are computed from values that are gone by the time they are tested
    inn = {b: set() for b in range(n)}
    work = list(range(n))
    while work:
        b = work.pop()
        out = set(pu[b])
        for s in F.succs(b):
            out |= inn[s]
        x = use[b] | (out - dfn[b])
        if x != inn[b]:
            inn[b] = x
            work += list(F.preds(b))
    allv = set()
    for b in range(n):
        allv |= inn[b] | pu[b]
    inn['all'] = allv
    return inn
