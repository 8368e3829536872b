"""What the frame callbacks of filters write to."""
import build
from vlib import Check
import taint
from taint import Taint, Sites, is_cb, SITE, MODES, reasons, callback_view

NEWF = {'newVideoFrame', 'newVideoFrame2', 'newAudioFrame', 'newAudioFrame2', 'copyFrame'}
_cache = {}


def analysis():
    if 'x' in _cache:
        return _cache['x']
    import sys
    sys.setrecursionlimit(20000)
    P = taint.program()
    T = Taint(P, P.modules)
    cbs = {}
    for M in P.modules:
        for F in M.funcs.values():
            if is_cb(F) and F.blocks:
                cbs[(id(M), F.name)] = (F, T.fix(F))
    sites = []
    for M in P.modules:
        for F in M.funcs.values():
            if (F.file or '').startswith('/repo/src/core/') and any(I['o'] in ('call', 'invoke') and isinstance(I['f'], int) and taint.api_name(F, F.defs.get(I['f'])) in SITE for I in F.insts()):
                sites.append((F, Sites(T, F).run()))
    _cache['x'] = (P, T, cbs, sites)
    return _cache['x']


def target(P, F, name):
    G = F.m.funcs.get(name)
    if G is None:
        name = F.m.aliases.get(name, name)
        G = F.m.funcs.get(name) or P.funcs.get(name)
    return G


def what(k):
    return {'store': 'writes to'}.get(k, 'changes, with %s,' % k.split(':')[-1] if ':' in k else 'writes to')


def where(F, r):
    return {('p', 2): 'the instance data', ('p', 5): 'the core', ('p', 6): 'the API table'}.get(r, 'the global %s' % F.m.dem(r[1]) if r[0] == 'g' else str(r))


def once(gs):
    return any('__cxa_guard_acquire' in str(e) for e, p in gs)


def c08():
    ck = Check('C08', explanation='Every store, library call and map function reachable from a frame callback is traced to the object its pointer comes from (instance data, global, frame, local) through helpers, '
               'structs, kernels in other units and tables of functions.  Each place where a filter is made gives the pairs of callback and mode.  A callback that runs in parallel may write to no shared object, '
               'except atomically or under a mutex that is as shared as the object.',
               assumptions=['generated machine code writes only where its arguments point', 'functions of the standard library write through no const argument', 'zimg is thread safe'])
    ck.floor('places where filters are made', 70)
    ck.floor('callbacks judged', 80)
    ck.floor('writes to shared data judged', 12)
    P, T, cbs, sites = analysis()
    judged = set()
    for F, L in sites:
        seen = set()
        for I, g, m, cs in L:
            loc = F.loc(I)
            if loc not in seen:
                seen.add(loc)
                ck.count('places where filters are made', sample='%s in %s' % (loc, F.sname))
            G = target(P, F, g) if g else None
            if G is None or m is None or (id(G.m), G.name) not in cbs:
                ck.cannot('%s: %s' % (loc, F.sname), 'the callback or the mode could not be determined')
                continue
            S = cbs[(id(G.m), G.name)][1]
            if (id(G.m), G.name) not in judged:
                judged.add((id(G.m), G.name))
                ck.count('callbacks judged', sample=G.sname)
            shared = {}
            for k, at in S.w.items():
                r, d, o, kind = k
                if r in (('p', 2), ('p', 5), ('p', 6)) or r[0] == 'g':
                    shared[k] = at
            for (r, d, o, kind), at in shared.items():
                ck.count('writes to shared data judged', sample='%s: %s' % (G.sname, at[0].loc(at[1])))
                gs = {(callback_view(e), p) for e, p in at[2]}
                if any((e, not p) in cs for e, p in gs):
                    continue
                rs = reasons(at[2])
                if m >= 2 or m == 1 and 0 not in rs or kind == 'atomic' or r[0] == 'g' and once(at[2]) or not rs:
                    continue
                if any(x[0][0] == 'g' or x[0] == r for x in at[3]):
                    continue
                ck.violation('shared-write', at[0].loc(at[1]), G.sname, '%s %s, and the filter made at %s runs %s%s' % (
                    what(kind), where(F, r), loc, MODES[m], ' (before its frames are ready)' if m == 1 else ''))
            # what is guarded when written has to be guarded when read
            if m == 0:
                guarded = {}
                for (r, d, o, kind), at in shared.items():
                    if at[3] and not d:
                        guarded.setdefault((r, d, o), set()).update(at[3])
                for k, ms in guarded.items():
                    for o in (k, (k[0], k[1], '*')):
                        at = S.r.get(o)
                        if at is None:
                            continue
                        ck.count('reads of guarded data judged')
                        if not (at[3] & ms):
                            ck.violation('unguarded-read', at[0].loc(at[1]), G.sname, 'reads, without the mutex, instance data that is written under it; the filter made at %s runs %s' % (loc, MODES[m]))
    for k, (F, S) in cbs.items():
        ck.count('callbacks found')
    ck.count('functions traced', len(T.sums))
    return ck.finish()


def c09():
    ck = Check('C09', explanation='Every store, library call, map function and request for write access reachable from a frame callback is traced to the API call its pointer comes from.  Pixels and samples are only written through '
               'getWritePtr, properties only through getFramePropertiesRW or a map of its own, and both only on a frame the filter made with a newVideoFrame, newAudioFrame or copyFrame function.',
               assumptions=['generated machine code writes only through its first argument'])
    ck.floor('callbacks judged', 80)
    ck.floor('writes to pixels and samples judged', 80)
    ck.floor('requests for write access judged', 80)
    P, T, cbs, sites = analysis()
    for (mid, n), (F, S) in cbs.items():
        ck.count('callbacks judged', sample=F.sname)
        for (r, d, o, kind), at in S.w.items():
            loc = at[0].loc(at[1])
            if kind.startswith('rw:'):
                ck.count('requests for write access judged', sample='%s: %s' % (F.sname, loc))
                if r[0] == 'api' and not d and r[1] in NEWF:
                    continue
                if r[0] == 'p' and any(v[0][0] == 'api' and v[0][1] in NEWF for v in S.st.get((r, d[:-1], d[-1]) if d else (r, d, o), ())):
                    continue
                if r[0] == 'api':
                    ck.violation('foreign-frame', loc, F.sname, '%s on a frame that comes from %s, not one the filter made' % (kind[3:], r[1]))
                elif r in (('p', 2), ('p', 3)):
                    ck.violation('foreign-frame', loc, F.sname, '%s on a frame that is kept from an earlier call' % kind[3:])
                continue
            if r[0] != 'api':
                continue
            if kind.startswith('map:'):
                ck.count('changes of properties judged', sample='%s: %s' % (F.sname, loc))
                if r[1] in ('getFramePropertiesRW', 'createMap') and not d:
                    continue
                if r[1] == 'getFramePropertiesRO':
                    ck.violation('read-only', loc, F.sname, '%s on properties obtained for reading' % kind[4:])
                else:
                    ck.violation('read-only', loc, F.sname, '%s on a map that comes from %s' % (kind[4:], r[1]))
                continue
            ck.count('writes to pixels and samples judged', sample='%s: %s' % (F.sname, loc))
            if r[1] == 'getWritePtr' and not d:
                continue
            ck.violation('read-only', loc, F.sname, 'writes through a pointer that comes from %s' % r[1])
    ck.count('functions traced', len(T.sums))
    return ck.finish()
