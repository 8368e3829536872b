"""The Python module: C22 interpreter lock."""
import re
import core, core_locks as CL, cy
from abi import tables
from build import BuildError
from vlib import Check

_cy = []


def module():
    if not _cy:
        _cy.append(cy.Cy())
    return _cy[0]


def returns(F):
    """blocks from which the function can return"""
    out = {b for b, blk in enumerate(F.blocks) if blk[-1]['o'] == 'ret'}
    todo = list(out)
    while todo:
        for p in F.preds(todo.pop()):
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


def blocking(ck):
    """API functions that may wait for other threads or run foreign functions: {name: reason}"""
    P, A = CL.analysis()
    may, via, nr = CL.cut(P, A)
    foreign = set()
    for n, I in A.icalls:
        F = P.funcs[n]
        if n not in A.alive or n in nr or not (F.file or '').startswith('/repo/') or CL.kind_of(F, I) is None:
            continue
        foreign |= CL.local(A, n, I, may)
    T = tables(ck, P).get('VSAPI')
    if not T:
        raise BuildError('the table VSAPI was not found')
    # documented to run functions of plugins and scripts
    out = {'invoke': 'runs a function of a plugin', 'callFunction': 'runs a function of a plugin or script'}
    for s, F in T.items():
        if F is None or s in out or s == 'createCore':      # nobody else knows a core that is being created
            continue
        ck.count('API functions classified')
        todo, seen = [F.name], {F.name}
        while todo and s not in out:
            m = todo.pop(0)
            if m in nr:
                continue
            G = P.funcs[m]
            live = returns(G)
            if m in A.fl:
                for I, l, st, kind in A.fl[m].acq:
                    if I['_b'] not in live:
                        continue
                    x = {y for y in A.resolve(m, l) if y in foreign and not y.startswith('global ')}
                    if x:
                        out.setdefault(s, 'takes %s, which is held while handlers run' % ', '.join(sorted(x)))
            for I in (I for b in live for I in G.blocks[b]):
                f = I.get('f')
                if I['o'] not in ('call', 'invoke') or not isinstance(f, list) or f[0] != 'g':
                    continue
                dem = P.decl.get(f[1], [f[1]])[0]
                if re.search(r'condition_variable(_any)?::wait|std::thread::join', dem):
                    out.setdefault(s, 'waits for other threads')
                t = P.alias.get(f[1], f[1])
                if t in P.funcs and t not in seen:
                    seen.add(t)
                    todo.append(t)
    return out


def c22():
    ck = Check('C22', explanation='The module is compiled by Cython and clang; the state of the interpreter lock is propagated through every function and the call graph (callbacks and exported functions start without it). '
               'Which API functions may wait or run foreign code is computed from the core (waits, locks under which handlers run).',
               assumptions=['nobody else uses a core while it is being created', 'free callbacks of filters do not wait for Python code'])
    C = module()
    G = cy.Gil(C)
    B = blocking(ck)
    ck.extra['functions that may wait or run foreign code'] = {k: v for k, v in sorted(B.items())}
    for need in ('getFrame', 'freeCore', 'logMessage', 'addLogHandler', 'removeLogHandler'):
        if need not in B:
            raise BuildError('%s is not recognised as waiting' % need)
    ck.floor('calls that may wait', 8)
    ck.floor('uses of Python', 2000)
    ck.floor('callbacks and exported functions', 12)
    for F in C.repo():
        ent = G.entry.get(F.name)
        if not ent:
            continue
        ck.count('functions analysed')
        if 'N' in ent:
            ck.count('callbacks and exported functions', sample=F.sname)
        told = set()
        for b, blk in enumerate(F.blocks):
            for k, I in enumerate(blk):
                if I['o'] not in ('call', 'invoke'):
                    continue
                st = {s[-1] for s in G.at.get((F.name, b, k), ())}
                if not st:
                    continue
                a, nm = C.api(F, I), C.name(I)
                if a in B:
                    ck.count('calls that may wait', sample='%s in %s at %s' % (a, F.sname, F.loc(I)))
                    if st - {'N'}:
                        ck.violation('held', F.loc(I), F.sname, 'calls %s, which %s, while the interpreter lock may be held: a thread that needs Python to get on never does' % (a, B[a]))
                elif nm and cy.PY.match(nm) and nm not in cy.HOLDS_ANYWAY:
                    ck.count('uses of Python')
                    if st - {'H'} and 'python' not in told:
                        told.add('python')
                        ck.violation('not held', F.loc(I), F.sname, 'uses Python (%s) where the interpreter lock may not be held' % nm)
        for st, k, b in sorted(G.exits[F.name]):
            ck.count('exits judged')
            if len(st) != 1 and 'exit' not in told:
                told.add('exit')
                ck.violation('unbalanced', F.loc(F.blocks[b][k]), F.sname, 'returns with the interpreter lock %s' % ('taken' if st[-1] == 'H' else 'given up' if st[-1] == 'N' else 'released more often than taken'))
    return ck.finish()


# what shows that the object a raw pointer belongs to is still alive.  The pointer itself, or (relative to the object) another field
ALIVE = {'RawNode.node': [('node',)], 'RawFrame.constf': [('constf',)], 'RawFrame.f': [('constf',)], 'RawFrame.core': [('constf',)],
         'FrameProps.core': [('frame', 'constf')], 'Plugin.plugin': [('core', 'core')], 'Function.func': [('plugin', 'core', 'core')],
         'RawNode.vi': [('node',)], 'RawNode.ai': [('node',)], 'VideoNode.vi': [('node',)], 'AudioNode.ai': [('node',)]}
HANDLES = re.compile(r'\b(VSNode|VSFrame|VSCore|VSPlugin|VSPluginFunction)\b[ \w]*\*$')
INNER = re.compile(r'\b(VSVideoInfo|VSAudioInfo)\b[ \w]*\*$')


def cls(t):
    return re.sub(r'^.*?__pyx_obj_11vapoursynth_', '', t or '').strip(' *')


def c25():
    ck = Check('C25', explanation='The module is compiled by Cython and clang; forward must-facts "this field of this object is neither NULL nor None", with summaries of the functions of the module (an '
               'ensure_valid that raises otherwise), are computed for every function; every use of a raw handle kept in an object has to be covered by such a fact, again after every yield.',
               assumptions=['the check and the use are not separated by another thread or by Python code that destroys the environment in between'])
    C = module()
    V = cy.Valid(C)
    ck.floor('uses of handles', 60)
    ck.floor('handles given up', 4)
    ck.floor('objects registered with their environment', 3)
    nullable = set()
    for F in C.repo():
        for I in F.insts():
            if I['o'] == 'store' and isinstance(I['a'][0], list) and I['a'][0][:2] == cy.NONE and not re.search(r'__dealloc__|__cinit__|^tp_', F.sname):
                x = core.field_of(F, I['a'][1])
                t = C.fieldtype(F, I['a'][1])
                if x and t and '__pyx_obj' in t and '__pyx_obj' in x[0]:
                    nullable.add((x[0], x[1].split('.')[-1]))
    ck.extra['objects that may be gone'] = sorted('%s.%s' % (cls(a), b) for a, b in nullable)

    def origin(F, o):
        """(struct, field, object) a value was loaded from"""
        D = F.defs.get(o) if isinstance(o, int) else None
        n = 0
        while D is not None and ('ph' in D or D['o'] in ('bitcast', 'freeze')) and n < 6:
            k = V.key(F, o)
            o = next((x for p, x in D['ph'] if V.key(F, x) == k), None) if 'ph' in D else D['a'][0]
            D = F.defs.get(o) if isinstance(o, int) else None
            n += 1
        if D is None or D['o'] != 'load':
            return None
        x = core.field_of(F, D['a'][0])
        return (x[0], x[1].split('.')[-1], x[2], C.fieldtype(F, D['a'][0]) or '', D) if x else None

    def covered(F, o, facts):
        s, f, X, t, D = origin(F, o)
        base = V.key(F, X)
        k = ('ld', base, f)
        if k in facts:
            return True
        name = '%s.%s' % (cls(s), f)
        for path in ALIVE.get(name, ()):
            y = base
            for p in path:
                y = ('ld', y, p)
            if y in facts:
                return True
        if name == 'Core.core':
            y = origin(F, X)
            if y is None:
                # the core of the current environment, or one that was just made
                E = F.defs.get(X) if isinstance(X, int) else None
                return E is not None and (E['o'] in ('call', 'invoke') or 'ph' in E and all(made(F, z) for p, z in E['ph']))
            if ('ld', y_key(F, y), 'node') in facts and cls(y[0]) in ('RawNode', 'VideoNode', 'AudioNode'):
                return True
            if cls(y[0]) == 'EnvironmentData' and (base in facts or ('ld', y_key(F, y), 'log') in facts):
                return True
        return False

    def y_key(F, y):
        return V.key(F, y[2])

    def made(F, z):
        E = F.defs.get(z) if isinstance(z, int) else None
        return E is not None and E['o'] in ('call', 'invoke') or isinstance(z, list)

    for F in C.repo():
        if '__dealloc__' in F.sname or re.search(r'tp_(dealloc|clear|traverse|new)', F.name):
            continue
        ck.count('functions analysed')
        told = set()
        for I in F.insts():
            if I['o'] in ('call', 'invoke'):
                a, ts = C.api(F, I), C.targets(F, I)
                if not a and not ts:
                    continue
                for o in I.get('a', ()):
                    x = origin(F, o)
                    if x is None:
                        continue
                    ty = fulltype(C, F, x[4])
                    if not HANDLES.search(ty):
                        continue
                    if '__pyx_scope' in x[0]:
                        if not re.search(r'VSPlugin', ty):
                            continue            # a reference of its own
                        facts = V.before(F, I)
                        if facts is None:
                            continue
                        scope = ('ld', V.key(F, x[2]), '__pyx_v_self')
                        ok = ('ld', V.key(F, x[2]), x[1]) in facts and False or any(y in facts for y in (('ld', scope, 'core'), ('ld', ('ld', scope, 'core'), 'core')))
                        if not a:
                            ok = True
                    else:
                        if cls(x[0]) in ('VSScript', 'FramePtr') or not a and 'VSCore' in ty or a and a.startswith('free') and a != 'freeCore':
                            continue
                        facts = V.before(F, I)
                        if facts is None:
                            continue
                        ok = covered(F, o, facts)
                    nm = '%s.%s' % (cls(x[0]), x[1].replace('__pyx_v_', ''))
                    ck.count('uses of handles', sample='%s: %s passed to %s' % (F.sname, nm, a or short_of(C, ts)))
                    if not ok and (nm, F.loc(I)) not in told:
                        told.add((nm, F.loc(I)))
                        ck.violation('dead handle', F.loc(I), F.sname, 'passes %s to %s without having checked that it is still alive: after the environment is destroyed (or the frame closed) it points nowhere'
                                     % (nm, a or short_of(C, ts)))
            elif I['o'] in ('load', 'store'):
                p = I['a'][-1]
                x = core.field_of(F, p)
                o = x[2] if x else p
                y = origin(F, o) if isinstance(o, int) else None
                if y is None or '__pyx_obj' not in y[0]:
                    continue
                gone = (y[0], y[1]) in nullable
                inner = INNER.search(fulltype(C, F, y[4]))
                if not gone and not inner:
                    continue
                if gone and x and x[1].split('.')[-1] in ('ob_refcnt', 'ob_type', 'ob_base'):
                    continue
                if gone and (x is None or '__pyx_obj' not in x[0]):
                    continue
                facts = V.before(F, I)
                if facts is None:
                    continue
                k = V.key(F, y[2])
                nm = '%s.%s' % (cls(y[0]), y[1])
                ck.count('uses of what may be gone', sample='%s: %s' % (F.sname, nm))
                ok = ('ld', k, y[1]) in facts and not inner or ('ld', k, 'node') in facts or ('ld', k, 'log') in facts
                if not ok and nm not in told:
                    told.add(nm)
                    ck.violation('dead object', F.loc(I), F.sname, 'uses what %s points to without having checked that it is still there' % nm)
        # what is given up is not kept
        for I in F.insts():
            a = C.api(F, I) if I['o'] in ('call', 'invoke') else None
            if a not in ('freeNode', 'freeFrame', 'freeCore', 'freeFunction'):
                continue
            x = origin(F, I['a'][0])
            if x is None or '__pyx_obj' not in x[0]:
                continue
            ck.count('handles given up', sample='%s.%s in %s' % (cls(x[0]), x[1], F.sname))
            k = ('ld', V.key(F, x[2]), x[1])
            if kept(F, V, I, k) and kept(F, V, x[4], k, I):
                ck.violation('kept', F.loc(I), F.sname, '%s.%s is freed and can still be found in the object afterwards' % (cls(x[0]), x[1]))
    register(ck, C, V)
    return ck.finish()


def fulltype(C, F, D):
    base, ch = core.gepchain(F, D['a'][0])
    f = C.M.field(ch[0][0], ch[0][1]) if ch and ch[0][1] is not None else None
    return f[1] if f else ''


def short_of(C, ts):
    return C.funcs[ts[0]].sname if ts else '?'


def kept(F, V, I, k, goal=None):
    """does a path lead from I to a return (or to the goal) without the field being written"""
    todo, seen = [(I['_b'], I['_n'] + 1)], set()
    while todo:
        b, n = todo.pop()
        for J in F.blocks[b][n:]:
            if J['o'] == 'store':
                x = core.field_of(F, J['a'][1])
                if x and ('ld', V.key(F, x[2]), x[1].split('.')[-1]) == k:
                    break
            if J is goal or goal is None and J['o'] == 'ret':
                return True
        else:
            for s in F.succs(b):
                if s not in seen:
                    seen.add(s)
                    todo.append((s, 0))
    return False


def register(ck, C, V):
    """every wrapper that is given a handle is entered in the list its environment clears"""
    memo = {}

    def uses(F, lst):
        """blocks that add something to the list"""
        out = set()
        arrays = {}
        for I in F.insts():
            if I['o'] == 'store' and isinstance(I['a'][0], int):
                k = V.key(F, I['a'][0])
                if k[0] == 'ld' and k[2] == lst:
                    arrays[core.gepchain(F, I['a'][1])[0]] = True
        for b, blk in enumerate(F.blocks):
            for I in blk:
                if I['o'] not in ('call', 'invoke'):
                    continue
                nm = C.name(I) or ''
                if cy.PY.match(nm) and not re.search('Traceback|Raise|Format|IsTrue|Type', nm):
                    for a in I.get('a', ()):
                        k = V.key(F, a) if isinstance(a, int) else None
                        if k and k[0] == 'ld' and k[2] == lst or isinstance(a, int) and core.gepchain(F, a)[0] in arrays:
                            out.add(b)
                elif any(adds(t, lst) for t in C.targets(F, I)):
                    out.add(b)
        return out

    def adds(n, lst):
        if (n, lst) not in memo:
            memo[n, lst] = False
            F = C.funcs[n]
            memo[n, lst] = bool((F.file or '').startswith('/repo/') and lst in fields(F) and not escape(F, 0, lst))
        return memo[n, lst]

    def fields(F):
        out = set()
        for I in F.insts():
            if I['o'] == 'load':
                x = core.field_of(F, I['a'][0])
                if x:
                    out.add(x[1].split('.')[-1])
        return out

    def escape(F, b0, lst):
        """is there a way from b0 to a return with a result that adds nothing although there is an environment"""
        us = uses(F, lst)
        if not us:
            return True
        envs = set()
        for I in F.insts():
            if I['o'] == 'load':
                y = core.field_of(F, I['a'][0])
                if y and y[1].split('.')[-1] == lst:
                    envs |= {('ld', V.key(F, y[2]), lst), V.key(F, y[2])}
        todo, seen = [b0], {b0}
        edges = set()
        while todo:
            b = todo.pop()
            if b in us:
                continue
            t = F.blocks[b][-1]
            for s in F.succs(b):
                if t['o'] == 'br' and len(F.succs(b)) == 2 and t.get('a'):
                    V.out = {}
                    if V.implied(F, t['a'][0], s != F.succs(b)[0]) & envs:
                        continue
                edges.add((b, s))
                if s not in seen:
                    seen.add(s)
                    todo.append(s)

        def leaf(b, v, done):
            D = F.defs.get(v) if isinstance(v, int) else None
            if D is not None and 'ph' in D and v not in done:
                done.add(v)
                return any((p, D['_b']) in edges and leaf(p, x, done) for p, x in D['ph'])
            return not (isinstance(v, list) and (v[0] == 'n' or v[0] == 'i' and v[1] < 0))
        return any(blk[-1]['o'] == 'ret' and b in seen - us and leaf(b, blk[-1]['a'][0] if blk[-1].get('a') else None, set()) for b, blk in enumerate(F.blocks))

    for F in C.repo():
        for st in list(F.insts()):
            if st['o'] != 'store' or isinstance(st['a'][0], list):
                continue
            x = core.field_of(F, st['a'][1])
            if x is None or (cls(x[0]), x[1].split('.')[-1]) not in (('RawNode', 'node'), ('RawFrame', 'constf')):
                continue
            lst = 'known_nodes' if cls(x[0]) == 'RawNode' else 'known_frames'
            ck.count('objects registered with their environment', sample='%s in %s' % (cls(x[0]), F.sname))
            if escape(F, st['_b'], lst):
                ck.violation('unregistered', F.loc(st), F.sname, 'a %s is made without being entered in %s: it stays usable after its environment is destroyed' % (cls(x[0]), lst))


DELIVERS = {'getFrameAsync': (2, 'request'), 'createFunction': (0, 'function'), 'addLogHandler': (0, 'log')}
CALLS = re.compile(r'^(__Pyx_)?_?PyObject_(Call\w*|Fast\w*|Vectorcall(Dict)?)$')
STATUS = {'vpy4_createScript': 'text', 'vpy4_evaluateBuffer': 'text', 'vpy4_evaluateFile': 'text', '_vpy_evaluate': 'text', 'vpy4_getVariable': '', 'vpy4_setVariables': '', 'vpy4_initVSScript': ''}


def c23():
    import cyflow
    ck = Check('C23', explanation='The module is compiled by Cython and clang; all paths through the functions the core and host applications call are followed, including those taken when an operation fails, with what is '
               'known about NULL and None on the way.  On each path: was the waiting callback called, the error passed on, an exception left behind.',
               assumptions=['looking up names of the module, allocating memory and formatting strings do not fail', 'environment policies do not raise', 'values with a declared type are not None'])
    C = module()
    V = cy.Valid(C)
    R = cyflow.Raises(C, V)
    G = cy.Gil(C)
    ck.floor('callbacks given to the core', 4)
    ck.floor('paths', 100)
    ck.floor('functions called from outside', 15)
    given = {}
    for F in C.repo():
        for I in F.insts():
            a = C.api(F, I) if I['o'] in ('call', 'invoke') else None
            if a in DELIVERS:
                k, what = DELIVERS[a]
                o = I['a'][k]
                if isinstance(o, int) and o < len(F.args):
                    os = [J['a'][o] for H in C.repo() for J in H.insts() if J['o'] in ('call', 'invoke') and F.name in C.targets(H, J)]
                else:
                    os = [o]
                for o in os:
                    if not (isinstance(o, list) and o[0] == 'g' and o[1] in C.funcs):
                        ck.cannot('%s: what is passed to %s in %s is not a known function' % (F.loc(I), a, F.sname))
                        continue
                    if o[1] not in given:
                        ck.count('callbacks given to the core', sample='%s (%s)' % (C.funcs[o[1]].sname, what))
                    given[o[1]] = what

    def rooted(F, o, depth=0, n=0):
        """is this loaded from what the function was given, in at most that many steps from an argument"""
        if depth > 8 or not isinstance(o, int):
            return False
        if o < len(F.args):
            return n > 0 or F.sname not in STATUS
        k = V.key(F, o)
        while k[0] == 'ld':
            k = k[1]
        if k[0] == 'a':
            return True
        D = F.defs.get(o)
        if D is not None and 'ph' in D:
            return any(rooted(F, x, depth + 1, n) for p, x in D['ph'])
        return False

    def passed(F, I, facts, E):
        """kinds of the values in the argument array of a call"""
        base, ch = core.gepchain(F, I['a'][1]) if isinstance(I['a'][1], int) else (None, None)
        base = root(F, I['a'][1])
        out = {}
        for J in F.blocks[I['_b']][:I['_n']]:
            if J['o'] == 'store' and isinstance(J['a'][1], int) and root(F, J['a'][1]) == base:
                out[J['a'][1]] = E.kind(J['a'][0], facts)
        return list(out.values())

    def root(F, o):
        D = F.defs.get(o) if isinstance(o, int) else None
        n = 0
        while D is not None and D['o'] in ('getelementptr', 'bitcast') and n < 8:
            o = D['a'][0]
            D = F.defs.get(o) if isinstance(o, int) else None
            n += 1
        return o

    always = {}

    def helper(n):
        """how often a helper calls what it was given on every path, and what else it always does"""
        if n not in always:
            always[n] = (0, 0, 0)
            F = C.funcs[n]
            if (F.file or '').startswith('/repo/'):
                try:
                    st = [s.ext for s in follow(F, True)]
                except cyflow.TooMany:
                    st = []
                if st:
                    always[n] = (min(x[0] for x in st), min(x[1] for x in st), min(x[3] for x in st))
        return always[n]

    def follow(F, inner=False):
        """ext: (callback calls, requests settled, where it failed, error set, told to be empty)"""
        def event(F, I, facts, ext, pend):
            d, s, f, e, z = ext
            nm, a = C.name(I), C.api(F, I)
            if pend and f is None and pend[0] != 'm':
                f = pend
                e = 0
            if a == 'mapSetError':
                e = 1
            if nm == 'PyObject_VectorcallMethod' or nm and CALLS.match(nm):
                if nm == 'PyObject_VectorcallMethod':
                    if C.string(F, I['a'][0]) in ('set_result', 'set_exception'):
                        s = 1
                else:
                    if R.origin(F, I['a'][0]) in ('set_result', 'set_exception'):
                        s = 1
                    elif isinstance(I['a'][0], int) and rooted(F, I['a'][0]):
                        d = min(d + 1, 2)
                        if what == 'request':
                            ks = passed(F, I, facts, E)
                            if len(ks) >= 2 and all(k == 'O' for k in ks[-2:]):
                                z = (I['_b'], I['_n'])
            elif nm and 'i' not in I or nm and not cy.PY.match(nm):
                for t in C.targets(F, I):
                    if t in C.funcs and t != F.name and (C.funcs[t].file or '').startswith('/repo/') and t not in given and C.funcs[t].sname not in STATUS:
                        x = helper(t)
                        d = min(d + x[0], 2)
                        s, e = s or x[1], e or x[2]
            return d, s, f, e, z

        def fail(F, I, ext):
            d, s, f, e, z = ext
            return d, s, f or (I['_b'], I['_n']), 0 if f is None else e, z

        def store(F, I, facts, ext):
            d, s, f, e, z = ext
            x = core.field_of(F, I['a'][1])
            if x and x[0].endswith('VSScript') and x[1].split('.')[-1] == 'errstr' and E.kind(I['a'][0], facts) != 'N':
                return d, s, f, 1, z
            return ext
        E = cyflow.Explore(R, F, ext=(0, 0, None, 0, None), event=event, fail=fail)
        E.store = store
        what = given.get(F.name)
        return E.run()

    def at(F, x):
        x = x[1:] if x[0] == 'm' else x
        I = F.blocks[x[0]][x[1]]
        n = C.name(I) or C.api(F, I) or ''
        n = next((s for s in (C.string(F, o) for o in I.get('a', ())) if s), re.sub(r'^_*Pyx_|^__pyx_f_\d*vapoursynth_', '', n))
        return F.loc(I), n

    for F in C.repo():
        outside = 'N' in G.entry.get(F.name, ()) and not F.sname.startswith('vsh::')
        what = given.get(F.name)
        if not (outside or what or F.sname in STATUS):
            continue
        ck.count('functions called from outside', sample=F.sname)
        try:
            sts = follow(F)
        except cyflow.TooMany:
            ck.cannot('%s has too many paths' % F.sname)
            continue
        told = set()

        def tell(rule, st, msg, p=None):
            if rule in told:
                return
            told.add(rule)
            p = p or st.ext[2]
            w, n = at(F, p) if p else (F.loc(st.I), '')
            ck.violation(rule, w, F.sname, msg % (' when %s fails at %s' % (n, w) if p else ''))
        for st in sorted(sts, key=lambda s: str((s.ext, s.pending))):
            ck.count('paths')
            d, s, f, e, z = st.ext
            if what in ('request', 'log') and d == 0:
                tell('unanswered', st, 'the function waiting for this %s is never called%%s' % ('frame' if what == 'request' else 'message'))
            if what == 'request':
                if d > 1:
                    tell('answered twice', st, 'the function waiting for this frame is called more than once%s')
                if not s:
                    tell('outstanding', st, 'the request stays on the list of outstanding requests%s')
                if z:
                    tell('empty', st, 'the waiting function gets neither a frame nor an error%s')
            if what == 'function' and f and not e:
                tell('swallowed', st, 'the caller is not told%s: no error is set')
            if what != 'log' and st.pending and outside:
                tell('left behind', st, 'returns to code that knows nothing of Python with an exception pending%s', st.pending)
            if F.sname in STATUS and f and not st.pending:
                if E_kind(F, V, st) == 'N':
                    tell('success', st, 'returns 0 for success%s')
                if STATUS[F.sname] and not e and E_kind(F, V, st) is not None:
                    tell('no text', st, 'no error text is stored%s')
    return ck.finish()


def E_kind(F, V, st):
    o = st.ret
    if isinstance(o, list):
        return 'N' if o[0] == 'i' and o[1] == 0 else ('i', o[1])
    k = st.facts.get(V.key(F, o))
    return k


def c24():
    import cyflow, own
    ck = Check('C24', explanation='The module is compiled by Cython and clang, where every change of a reference count is a call.  All paths through the functions that make, are given or hand over something owned are followed, '
               'including those on which an operation fails; each resource is named by the call that made it and followed through variables, phis and functions of the module until it is released, kept in an object or returned.',
               assumptions=['environment policies do not raise', 'looking up names of the module, allocating memory and formatting strings do not fail', 'reference counting that Cython generates is balanced by itself',
                            'what is kept in an object lives as long as the object'])
    C = module()
    V = cy.Valid(C)
    R = cyflow.Raises(C, V)
    R.trust = {'_env_current', 'get_policy'}
    O = own.Owner(C, V, R)
    ck.floor('resources made or received', 20)
    ck.floor('paths', 100)
    ck.floor('objects handed to the core', 4)
    ck.floor('callbacks with an object of their own', 6)
    ck.floor('fields that own a resource', 5)

    def given(F, I, o):
        """functions that may be passed here"""
        if isinstance(o, int) and o < len(F.args):
            return [(J, J['a'][o]) for H in C.repo() for J in H.insts() if J['o'] in ('call', 'invoke') and F.name in C.targets(H, J)]
        return [(I, o)]
    cbs = {}
    for F in C.repo():
        for I in F.insts():
            a = C.api(F, I) if I['o'] in ('call', 'invoke') else None
            for k, (d, w) in own.CALLS.get(a, {}).items():
                frees = a == 'getFrameAsync' or w == -1
                for J, o in given(F, I, I['a'][k]):
                    if isinstance(o, list) and o[0] == 'g' and o[1] in C.funcs:
                        if o[1] not in cbs:
                            ck.count('callbacks with an object of their own', sample='%s (%s)' % (C.funcs[o[1]].sname, a))
                        cbs[o[1]] = (d, w, a)
                    elif isinstance(o, list) and (o[0] == 'n' or o[0] == 'i' and o[1] == 0) and frees:
                        ck.violation('nobody releases it', F.loc(J) if J is I else F.loc(I), F.sname, 'an object is handed to %s without a function that releases it' % a)
                    else:
                        ck.cannot('%s: what is passed to %s in %s is not a known function' % (F.loc(I), a, F.sname))

    def at(F, p):
        p = p[1:] if p[0] == 'm' else p
        I = F.blocks[p[0]][p[1]]
        n = C.name(I) or C.api(F, I) or ''
        n = next((s for s in (C.string(F, o) for o in I.get('a', ())) if s), re.sub(r'^_*Pyx_|^__pyx_f_\d*vapoursynth_', '', n))
        return '%s fails at %s' % (n, F.loc(I))
    for F in C.repo():
        cb = cbs.get(F.name)
        made = [I for I in F.insts() if I['o'] in ('call', 'invoke') and 'i' in I and O.makes(F, I)]
        hands = O.hands(F)
        slots = any(I['o'] in ('store', 'load') and O.slot(F, I['a'][I['o'] == 'store']) for I in F.insts())
        takes = [k for k in range(len(F.args)) if O.handle(F, F.name, k) and O.takes(F.name, k) in ('some', 'always')]
        for I in F.insts():
            if I['o'] in ('call', 'invoke'):
                for t in C.targets(F, I):
                    for k, o in enumerate(I.get('a', ())):
                        if t != F.name and O.handle(F, t, k) and O.takes(t, k) != 'never':
                            for v in O.values(F, o):
                                w = O.lent(F, v)
                                if w:
                                    ck.violation('not its own', F.loc(I), F.sname, 'gives away what belongs to %s without a reference of its own' % w)
        gives = F.dtypes and re.match(r'(const )?(struct\.)?VS(Map|Frame|Node|Function)\b', F.dtypes[0] or '')
        if not (made or cb or hands or slots or takes or gives):
            continue
        gf = own.GIVEN.get(cb[2]) if cb and cb[1] == -1 else None
        for I in made:
            ck.count('resources made or received', sample='%s: %s' % (F.loc(I), O.makes(F, I)))
        for I, d, fr in hands:
            ck.count('objects handed to the core', sample=F.loc(I))
        runs = [(gf[1] if gf else None, cb[0] if cb else None)] + [(k, None) for k in takes]
        # what it hands over or keeps of what it was called with needs a reference too
        own_args = {s for I, d, fr in hands for s in O.origins(F, I['a'][d])} | {s for I in F.insts() if I['o'] == 'store' and O.slot(F, I['a'][1]) for s in O.origins(F, I['a'][0])}
        runs += [(None, k) for k in sorted(own_args) if k < len(F.args) and k + 1 < len(F.dtypes) and re.search(r'_object|__pyx_obj', F.dtypes[k + 1] or '')]
        if gives:
            for I in F.insts():
                if I['o'] == 'ret' and I.get('a'):
                    for o in O.values(F, I['a'][0]):
                        w = O.lent(F, o)
                        if w:
                            ck.violation('not its own', F.loc(F.defs[o]), F.sname, 'returns what belongs to %s without a reference of its own' % w)
        told = set()

        def tell(rule, w, msg):
            if (rule, w) not in told:
                told.add((rule, w))
                ck.violation(rule, w, F.sname, msg)

        def hook(rule, I, s, a):
            what = O.kind(F, s) or 'resource'
            tell(rule, F.loc(I), 'the %s made at %s is %s' % (what, F.loc(F.defs[s]) if s in F.defs else 'the caller', 'made again before it is released' if rule == 'replaced' else '%s by %s' % (rule, a)))
        for res, obj in runs:
            try:
                sts = O.follow(F, res, hook, obj)
            except cyflow.TooMany:
                ck.cannot('%s has too many paths' % F.sname)
                continue
            if res is not None or obj is not None:
                ck.count('resources made or received', sample='%s: argument %d' % (F.sname, res if res is not None else obj))
            for st in sorted(sts, key=lambda s: (bool(s.pending), str((sorted(map(str, s.ext)), s.pending)))):
                ck.count('paths')
                why = ' when ' + at(F, st.pending) if st.pending else ''
                for x in sorted(st.ext, key=str):
                    if x[1] == 'H' and x[0] in takes and x[0] == res and not st.pending:
                        continue        # may be up to the caller
                    if x[1] == 'H':
                        D = F.defs.get(x[0])
                        tell('leak', F.loc(D) if D else F.loc(st.I), 'the %s is neither released nor kept nor returned%s' % (O.kind(F, x[0]) or 'resource it is given', why))
                    elif x[0] == '#':
                        s, n = x[1:]
                        want = cb[1] if cb and s == cb[0] else 0
                        if n != want:
                            D = F.defs.get(s) if isinstance(s, int) else None
                            what = 'the object in %s' % s[1] if isinstance(s, tuple) else 'the object' if D else 'the object it is called with'
                            tell('references', F.loc(D) if D else F.loc(st.I), '%s has %d reference(s) too %s at the end%s' % (what, abs(n - want), 'many' if n > want else 'few', why))
    # objects that keep a resource release it
    for fs, kind, w in sorted(O.kept()):
        ck.count('fields that own a resource', sample=', '.join('%s.%s' % x for x in fs))
        if not any(O.released(t, f, kind) for t, f in fs):
            ck.violation('never released', w, re.sub(r'^__pyx_obj_\d+vapoursynth_', '', fs[0][0]), 'objects of this class keep a %s in %s that their deallocation does not release' % (kind, ' and '.join(f for t, f in fs)))
    return ck.finish()


# what the core takes for granted that there is one
CORES = {'createFunction': 3, 'newVideoFrame': 4, 'newVideoFrame2': 6, 'newAudioFrame': 3, 'newAudioFrame2': 5, 'copyFrame': 1, 'queryVideoFormat': 5, 'getVideoFormatByID': 2, 'getPluginByID': 1,
         'getPluginByNamespace': 1, 'getNextPlugin': 1, 'getCoreInfo': 0, 'setMaxCacheSize': 1, 'setThreadCount': 1, 'logMessage': 2, 'addLogHandler': 3, 'removeLogHandler': 1, 'clearCoreCaches': 0, 'getCoreNodeTiming': 0, 'setCoreNodeTiming': 0, 'getFreedNodeProcessingTime': 0}


def c27():
    import exttypes, own
    ck = Check('C27', explanation='Every place in the compiled module where the layout of one of its classes is used, where an object is kept or returned as one or passed to a function declared to take one is an obligation.  It is met by '
               'what the value is declared to be where it comes from, each of which is an obligation itself, or by tests of its type (isinstance, a checked conversion or argument) that every path to the place has taken.',
               assumptions=['what Cython declares for the objects it makes is right', 'binary operators are only given an operand of their own class first', "frames(), plugins() and functions() yield frames, plugins and functions",
                            'the core gives callbacks the user data they were registered with'])
    C = module()
    V = cy.Valid(C)
    T = exttypes.Types(C, V)
    ck.floor('uses of an object as one of the classes of the module', 600)
    ck.floor('by a test of the type', 20)
    ck.floor('by declaration', 400)
    ck.floor('callbacks with user data', 3)
    ck.floor('cores given to the core', 8)
    ck.floor('arguments of methods declared as a class', 3)

    def given(F, I, o):
        if isinstance(o, int) and o < len(F.args):
            return [(H, J, J['a'][o]) for H in C.repo() for J in H.insts() if J['o'] in ('call', 'invoke') and F.name in C.targets(H, J)]
        return [(F, I, o)]

    def classes(F, I, o, depth=0):
        if isinstance(o, int) and o < len(F.args) and depth < 3 and not T.static(F, o):
            r = set()
            for H, J, x in given(F, I, o):
                r |= classes(H, J, x, depth + 1)
            return r
        k = T.known(F, I, o)
        k = {x for x in k or () if x != '*'}
        return {min(k, key=lambda x: -len(T.sub.get(x, ())))} if k else {None}
    # what callbacks are called with
    users = {}
    for F in C.repo():
        for I in F.insts():
            a = C.api(F, I) if I['o'] in ('call', 'invoke') else None
            if a not in own.CALLS:
                continue
            d = own.GIVES[a][0]
            for k, (arg, w) in own.CALLS[a].items():
                for H, J, o in given(F, I, I['a'][k]):
                    if isinstance(o, list) and o[0] == 'g' and o[1] in C.funcs:
                        x = I['a'][d]
                        if J is not I and isinstance(x, int) and x < len(F.args):
                            r = classes(H, J, J['a'][x])
                        else:
                            r = classes(F, I, x)
                        users.setdefault((o[1], arg), set()).update((c, H.loc(J), H.sname) for c in r)
    for (n, arg), cs in sorted(users.items()):
        F = C.funcs[n]
        ck.count('callbacks with user data', sample='%s: %s' % (F.sname, ', '.join(sorted(str(c) for c, w, f in cs))))
        ts = {c for c, w, f in cs}
        if len(ts) == 1 and None not in ts:
            T.users[(n, arg)] = ts.pop()
    told = set()
    for F in C.repo():
        for I, o, t, how in T.needs(F):
            ck.count('uses of an object as one of the classes of the module')
            k = T.known(F, I, o)
            if k is None:
                continue
            if any(x == '*' or T.isa(x, t) for x in k):
                s = T.static(F, o)
                ck.count('by declaration' if s and (s == '*' or T.isa(s, t)) else 'by a test of the type', sample=None if s else '%s %s %s' % (F.loc(I), how, t))
                continue
            g = T.given(F, o)
            if g:
                ck.count('by ' + g)
                continue
            if (F.loc(I), t) in told:
                continue
            told.add((F.loc(I), t))
            arg = o if isinstance(o, int) and o < len(F.args) else None
            cs = users.get((F.name, arg)) if arg is not None else None
            if cs:
                ck.violation('not what it was', F.loc(I), F.sname, 'the user data %s %s, but it is registered with %s' % (how, t, ', '.join('%s at %s' % (c or 'an object of any class', w) for c, w, f in sorted(cs, key=str))))
            elif k:
                ck.violation('class', F.loc(I), F.sname, 'an object of class %s %s %s' % ('/'.join(sorted(k)), how, t))
            else:
                ck.violation('not tested', F.loc(I), F.sname, 'an object whose class is not known %s %s' % (how, t))
    for F in C.repo():
        for k, t, ok in T.takes(F):
            ck.count('arguments of methods declared as a class', sample='%s: %s%s' % (F.sname, t, '' if ok else ' (not None)'))
            if ok is None:
                ck.cannot('%s: how argument %d is tested was not found' % (F.sname, k))
            r = T.unguarded(F, k) if ok else None
            if r:
                ck.violation('None', r[0].loc(r[1]), r[0].sname, 'the argument of %s declared to be %s may be None here, which is read as one' % (F.sname, t))
    for F in C.repo():
        for I in F.insts():
            a = C.api(F, I) if I['o'] in ('call', 'invoke') else None
            if a in CORES and CORES[a] < len(I.get('a', ())):
                ck.count('cores given to the core', sample='%s: %s' % (F.loc(I), a))
                for G, J in T.nulls(F, I, I['a'][CORES[a]]):
                    ck.violation('no core', G.loc(J), G.sname, 'passes no core, which %s at %s (%s) is given' % (a, F.loc(I), F.sname))
    return ck.finish()
