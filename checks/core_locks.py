"""C12 lock discipline, C13 lock order, C14 foreign code under locks."""
import re
from vlib import Check
from core import core_program, field_of, path_expr, gepchain, cls
from locks import Locks, repo_loc, LOCK, is_ctor, fresh

# shared state of the core and the mutex that protects it; 'w' = only modification needs the mutex
GUARD = {
    'VSThreadPool': ('taskLock', 'allThreads tasks allContexts activeThreads idleThreads reqCounter maxThreads overLimitSince stopThreads flushCaches altTasks'),
    'VSNode': ('cacheMutex', 'consumers cacheLinear cacheOverride cacheLastOnly cache'),
    'VSCore.1': ('pluginLock', 'plugins'),
    'VSCore.2': ('videoFormatLock', 'videoFormats videoFormatIdOffset'),
    'VSCore.3': ('cacheLock', 'caches'),
    'VSCore.4': ('logMutex', 'messageHandlers storedMessages'),
    'VSCore.5': ('frameRefMutex', 'frameRefs'),
    'VSNode.1': ('serialMutex', 'serialFrame serialOwner'),
    'VSPlugin': ('functionLock', 'funcs:w'),
    'MemoryUse': ('m_mutex', 'm_freelist m_prng m_freelist_size:w'),
}
# state of one object protected by a mutex of another
FOREIGN = {('VSFrameContext', 'numFrameRequests'): 'VSThreadPool.taskLock', ('VSFrameContext', 'notifyCtxList'): 'VSThreadPool.taskLock'}
# teardown runs when nothing else may use the object any more
TEARDOWN = {'VSCore::freeCore'}
MUTATING = re.compile(r'::(insert|emplace\w*|erase|clear|operator\[\]|swap|push_back|push_front|pop_\w+|splice|sort|operator=|resize|reserve|merge|~\w+)\(')


def simple(c):
    return c.split('::')[-1] if not c.startswith('VSNode::') else c


def guards():
    g = {}
    for c, (l, fs) in GUARD.items():
        c = c.split('.')[0]
        for f in fs.split():
            f, _, m = f.partition(':')
            g[(c, f)] = ('%s.%s' % (c, l), m)
    for k, l in FOREIGN.items():
        g[k] = (l, '')
    return g


_memo = []


def analysis():
    if not _memo:
        P = core_program()
        _memo.append((P, Locks(P)))
    return _memo[0]


def norm(l):
    return l.split('::')[-1] if '::' in l else l


def c12():
    ck = Check('C12', explanation='Property-simulation lock-set analysis of every core function (mutexes, lock_guard, unique_lock, try_lock, explicit lock/unlock), entry lock sets by fixpoint over the call graph '
               '(container internals included); every access to a guarded member is checked against the must-held set; every exit must hold exactly what was held on entry.',
               assumptions=['constructors, destructors and objects allocated in the same function are not shared yet', 'VSPlugin::funcs is only modified while its plugin loads; reads need no lock',
                            'core teardown (freeCore) runs alone'])
    P, A = analysis()
    G = guards()
    ck.floor('guarded accesses', 60)
    ck.floor('lock acquisitions', 30)
    for n in sorted(A.alive):
        F = P.funcs[n]
        L = A.fl[n]
        repo = (F.file or '').startswith('/repo/')
        if not repo:
            continue
        ck.count('functions analysed')
        for I, l, st, kind in L.acq:
            ck.count('lock acquisitions', sample='%s %s in %s at %s' % (kind, '/'.join(sorted(A.resolve(n, l))), F.sname, repo_loc(F, I)))
            if dict(st).get(l, 0) > 0 and kind == 'lock':
                ck.violation('relock', repo_loc(F, I), F.sname, 'locks %s, which it already holds on this path' % l[0])
        for (st, op), I in L.exits.items():
            for l, d in st:
                if I['o'] != 'ret':
                    continue
                if d > 0 or d < 0:
                    ck.violation('unbalanced', repo_loc(F, I), F.sname, '%s %s' % ('leaves with the lock held on some path:' if d > 0 else 'releases a lock it does not hold on some path:', '/'.join(sorted(A.resolve(n, l)))))
        name = F.dem.split('(')[0]
        if name in TEARDOWN:
            continue
        for I in F.insts():
            o = I['o']
            if o == 'load':
                ptrs = [(I['a'][0], False)]
            elif o == 'store':
                ptrs = [(I['a'][1], True)]
            elif o in ('call', 'invoke'):
                f = I['f']
                dem = P.decl.get(f[1], [f[1]])[0] if isinstance(f, list) and f[0] == 'g' else ''
                if LOCK.match(dem):
                    continue
                ptrs = [(a, bool(MUTATING.search(dem)) and k == 0) for k, a in enumerate(I['a']) if isinstance(a, int)]
            elif o in ('atomicrmw', 'cmpxchg'):
                ptrs = [(I['a'][0], True)]
            else:
                continue
            for p, w in ptrs:
                f = field_of(F, p)
                if not f:
                    continue
                c, fld, base = simple(f[0]), f[1].split('.')[0], f[2]
                g = G.get((c, fld))
                if g is None:
                    continue
                lock, mode = g
                if mode == 'w' and not w:
                    continue
                if is_ctor(F, c) or fresh(F, base):
                    continue
                h = A.held(n, I)
                if h is None:
                    continue
                ck.count('guarded accesses', sample='%s.%s in %s at %s needs %s' % (c, fld, F.sname, repo_loc(F, I), lock))
                if lock not in {norm(x) for x in h[0]}:
                    ck.violation('unguarded', repo_loc(F, I), F.sname, '%s %s.%s without holding %s on every path' % ('modifies' if w else 'uses', c, fld, lock))
    for (c, f), (l, m) in G.items():
        if not any(('struct.' + c) and f in [x[0] for x in t['fields']] for M in P.modules for k, t in M.types.items() if simple(k) == c):
            ck.cannot('%s.%s' % (c, f), 'no such member in the current tree; its accesses are not checked')
    return ck.finish()


def noreturn(A, n):
    return not any(I['o'] == 'ret' for I in A.fl[n].exits.values()) and bool(A.fl[n].at)


def cut(P, A):
    """may-held sets that ignore what is held on the way to termination"""
    nr = {n for n in A.alive if noreturn(A, n) and (P.funcs[n].file or '').startswith('/repo/')}
    may = {n: frozenset() for n in P.funcs}
    via = {}
    changed = True
    while changed:
        changed = False
        for n in A.alive:
            if n in nr:
                continue
            for cn, I in A.sites.get(n, ()):
                if cn not in A.alive or cn in nr:
                    continue
                h = local(A, cn, I, may)
                for x in h - may[n]:
                    via.setdefault((n, x), (cn, I))
                if h - may[n]:
                    may[n] = may[n] | h
                    changed = True
    return may, via, nr


def local(A, n, I, may):
    out = set()
    for st in A.fl[n].at.get((I['_b'], I['_n']), ()):
        ma = set(may[n])
        for l, d in st:
            ns = A.resolve(n, l)
            if d > 0:
                ma |= ns
            elif d < 0:
                ma -= ns
        out |= ma
    return frozenset(out)


def chain(P, via, n, x):
    out = []
    k = 0
    while (n, x) in via and k < 12:
        cn, I = via[(n, x)]
        out.append('%s (%s)' % (P.funcs[cn].sname, repo_loc(P.funcs[cn], I)))
        n = cn
        k += 1
    return ' <- '.join(out)


def c13():
    ck = Check('C13', explanation='Every acquisition in every reachable core function is related to the locks that may be held there (call graph fixpoint, alias constructors and container internals included); the resulting '
               'order relation must be acyclic, no non-recursive mutex may be taken while one of the same kind may be held, and no thread may wait or join while holding a mutex the wait does not release.',
               assumptions=['frames destroyed under a lock do not hold the last reference to a node or function (destructors behind virtual calls are not followed)', 'calls that end in process termination are not followed'])
    P, A = analysis()
    may, via, nr = cut(P, A)
    edges = {}
    ck.floor('acquisitions ordered', 30)
    for n in sorted(A.alive):
        F = P.funcs[n]
        if n in nr:
            continue
        for I, l, st, kind in A.fl[n].acq:
            ck.count('acquisitions ordered')
            h = local(A, n, I, may)
            for x in A.resolve(n, l):
                for y in h:
                    if kind == 'try':
                        continue
                    edges.setdefault((norm(y), norm(x)), (kind, n, I, y))
        for I in F.insts():
            if I['o'] not in ('call', 'invoke') or not isinstance(I['f'], list):
                continue
            dem = P.decl.get(I['f'][1], [''])[0] if I['f'][0] == 'g' else ''
            m = re.search(r'std::(_V2::)?condition_variable(_any)?::wait|std::thread::join', dem)
            if not m or (F.file or '').find('/repo/') != 0:
                continue
            ck.count('waits', sample='%s at %s' % (F.sname, repo_loc(F, I)))
            own = set()
            for fn, bind, st in A.fl[n].binds.get((I['_b'], I['_n']), ()):
                for k, (l, o) in bind.items():
                    own |= A.resolve(n, l)
            extra = local(A, n, I, may) - own
            if extra:
                ck.violation('wait', repo_loc(F, I), F.sname, 'waits while %s may be held' % ', '.join(sorted(extra)))
            if 'wait' in dem:
                for fn, bind, st in A.fl[n].binds.get((I['_b'], I['_n']), ()):
                    for k, (l, o) in bind.items():
                        if o == 0:
                            ck.violation('wait', repo_loc(F, I), F.sname, 'waits on a lock it does not own')
    ck.extra['order'] = sorted('%s -> %s' % e for e in edges)
    for (y, x), (kind, n, I, y0) in sorted(edges.items()):
        ck.count('order pairs', sample='%s -> %s at %s' % (y, x, repo_loc(P.funcs[n], I)))
        if x == y and kind != 'rec':
            ck.violation('self', repo_loc(P.funcs[n], I), P.funcs[n].sname, 'locks %s while a %s may already be held: %s' % (x, y, chain(P, via, n, y0)))
    # cycles
    succ = {}
    for (y, x) in edges:
        if x != y:
            succ.setdefault(y, set()).add(x)

    def path(a, b):
        seen, todo = {a: None}, [a]
        while todo:
            u = todo.pop(0)
            if u == b:
                r = [u]
                while seen[u] is not None:
                    u = seen[u]
                    r.append(u)
                return r[::-1]
            for v in succ.get(u, ()):
                if v not in seen:
                    seen[v] = u
                    todo.append(v)
        return None
    done = set()
    for (y, x), (kind, n, I, y0) in sorted(edges.items()):
        if x == y:
            continue
        p = path(x, y)
        if p and frozenset(p) not in done:
            done.add(frozenset(p))
            F = P.funcs[n]
            other = edges[(p[0], p[1])]
            ck.violation('cycle', repo_loc(F, I), F.sname, 'takes %s while holding %s, but the opposite order %s exists (%s at %s); held via %s' % (
                x, y, ' -> '.join(p), P.funcs[other[1]].sname, repo_loc(P.funcs[other[1]], other[2]), chain(P, via, n, y0) or F.sname))
    return ck.finish()


# what may be held while foreign code runs, by design
ALLOWED = {
    'handler': {'VSCore.logMutex', 'global logMutex', 'VSNode.serialMutex'},
    'frameDone': {'VSThreadPool.callbackLock'},
    'filterGetFrame': {'VSNode.serialMutex'},
}


def kind_of(F, I):
    """name of the function pointer an indirect call goes through; None for virtual and API-table calls"""
    D = F.defs.get(I['f'])
    if D is None:
        t = F.dtypes[I['f'] + 1] if I['f'] < len(F.dtypes) - 1 else ''
        return 'handler' if 'char const' in t or 'Handler' in t else 'argument'
    if D['o'] in ('phi', 'select', 'call', 'invoke'):
        return 'pointer'
    if D['o'] != 'load':
        return None
    base, ch = gepchain(F, D['a'][0])
    f = field_of(F, D['a'][0])
    if f and ('VSAPI' in f[0] or 'VSPLUGINAPI' in f[0] or 'VSSCRIPTAPI' in f[0]):
        return None
    if isinstance(base, list):
        return None     # constant API table
    if f:
        return f[1]
    B = F.defs.get(base) if isinstance(base, int) else None
    if B is not None and B['o'] == 'load' and I['a'] and I['a'][0] == B['a'][0]:
        return None     # virtual call: the vtable of the first argument
    if I['a'] and B is not None and B['o'] == 'load':
        b0, c0 = gepchain(F, I['a'][0])
        b1, c1 = gepchain(F, B['a'][0])
        if b0 == b1 and c0 == c1:
            return None
    return 'pointer'


def c14():
    ck = Check('C14', explanation='Every indirect call in reachable core code through a function pointer supplied by a plugin, an application or a script is related to the locks that may be held there.',
               assumptions=['calls that end in process termination are not followed', 'log handlers run under the log lock and frame callbacks under the output lock by design',
                            'frames destroyed under a lock do not hold the last reference to a node or function'])
    P, A = analysis()
    may, via, nr = cut(P, A)
    ck.floor('foreign call sites', 6)
    for n, I in A.icalls:
        F = P.funcs[n]
        if n not in A.alive or n in nr or not (F.file or '').startswith('/repo/'):
            continue
        if repo_loc(F, I).startswith('/') or not A.fl[n].at.get((I['_b'], I['_n'])):
            continue
        k = kind_of(F, I)
        if k is None:
            continue
        h = local(A, n, I, may)
        al = set(ALLOWED.get(k, ()))
        if ('VSCore.logMutex' in h or 'global logMutex' in h) and k in ('pointer', 'freeFunc', 'free', 'argument', 'handler'):
            # handlers and their free functions in handler lists
            if 'og' in F.dem or 'essageHandler' in F.dem or 'LogHandler' in F.dem:
                al |= ALLOWED['handler']
        ck.count('foreign call sites', sample='%s in %s at %s holding %s' % (k, F.sname, repo_loc(F, I), sorted(h)))
        for x in sorted(h):
            if x not in al:
                ck.violation('foreign', repo_loc(F, I), F.sname, 'calls foreign code (%s) while %s may be held: %s' % (k, x, chain(P, via, n, x) or 'taken in this function'))
    return ck.finish()
