"""Creation and destruction callbacks of all filters."""
import build
from vlib import Check, path_of
from ir import Module
from path import split, TooComplex
from create import is_create, is_free, run_create, run_free, _run_free
from proto import is_getframe
from fetch import run_fetch, canon, lin, show
from regs import registrations

REF_RULES = {'leak', 'double-release', 'use-after-release', 'wrong-kind', 'unowned', 'unowned-return', 'return-kind'}
PAT = {0: 'rpGeneral', 1: 'rpNoFrameReuse', 2: 'rpStrictSpatial', 3: 'rpFrameReuseLastOnly'}


def consts(t):
    """constants a pattern term can evaluate to"""
    if t[0] == 'c':
        return {t[1]}
    if t[0] == 'sel':
        return consts(t[2]) | consts(t[3])
    return {None}


def deps_of(t):
    """-> list of (node terms, set of patterns) or None when the array is not understood; exact count or None"""
    st = t['st']
    d, n = t['deps'], t['ndeps']
    if d == ('c', 0) or n == ('c', 0):
        return [], 0
    b, o, v = split(d)
    if b[0] == 'vp':
        ms = st.mem.get((b, '*'), frozenset())
        nodes = {m for m in ms if m[0] not in ('c', 'sel')}
        pats = set()
        for m in ms:
            if m[0] in ('c', 'sel'):
                pats |= consts(m)
        return [(nodes, pats)], None
    if v:
        return None, None
    k = n[1] if n[0] == 'c' else None
    out = []
    i = 0
    while (k is None or i < k) and i < 64:
        nd = st.mem.get((b, o + 16 * i))
        pt = st.mem.get((b, o + 16 * i + 8))
        if nd is None and k is None:
            break
        out.append(({nd}, consts(pt) if pt is not None else {None}))
        i += 1
    ms = st.mem.get((b, '*'))
    if ms:
        return None, None
    return out, k


def instance_nodes(t):
    """(place, node term) of every node the instance owns at hand-over; vectors give the vector object"""
    st, inst = t['st'], t['inst']
    out = []
    for (b, o), x in st.mem.items():
        if b == inst and o != '*' and x in st.res and st.res[x][0] == 'node':
            out.append((o, x))
        elif b[0] == 'vp' and b[1] == inst and o == '*' and any(m in st.res and st.res[m][0] == 'node' for m in x):
            out.append((('vec', b[2]), ('elem', b)))
        elif b == inst and o == '*' and any(m in st.res and st.res[m][0] == 'node' for m in x):
            out.append(('*', ('elem', b)))
    return out


def analyse(item):
    src, js = item
    M = Module(js)
    regs = registrations(M)
    rets = {}
    for r in regs:
        rets.setdefault(r['fn'], set()).add(r['ret'])
    out = []
    freecache, reqcache = {}, {}

    def freeinfo(name):
        if name not in freecache:
            G = M.funcs.get(name)
            try:
                freecache[name] = _run_free(G) if G is not None else None
            except TooComplex:
                freecache[name] = None
        return freecache[name]

    def reqinfo(name):
        if name not in reqcache:
            G = M.funcs.get(name)
            try:
                reqcache[name] = run_fetch(G)[0] if G is not None and is_getframe(G) else None
            except TooComplex:
                reqcache[name] = None
        return reqcache[name]

    for F in M.funcs.values():
        cr, fr = is_create(F), is_free(F)
        if not cr and not fr:
            continue
        r = {'func': F.sname, 'dem': F.dem, 'file': F.file, 'line': F.line, 'kind': 'create' if cr else 'free', 'reps': [], 'dep': [], 'ndep': 0, 'nreq': 0, 'ntrans': 0, 'npairs': 0, 'undecided': [], 'exits': {}}
        out.append(r)
        try:
            c, e, reps = run_create(F) if cr else run_free(F)
        except TooComplex:
            r['toocomplex'] = True
            continue
        r['undecided'] = ['%s (%s)' % (k[2], k[1]) for k in e.undecided]
        r['sites'] = len(c.sites)
        r['reps'] = [(k, path_of(M, tr)) for k, tr in reps.items()]
        if fr:
            r['exits'] = {'exits': c.exits}
            dels = {d for d, I, st in c.deleted}
            if 0 in dels and 1 in dels:
                I, st = [(I, st) for d, I, st in c.deleted if d == 0][0]
                r['reps'].append((('leak', F.loc(I), 'the instance data is not deleted on this path'), path_of(M, st.trace)))
            r['npairs'] = len(c.freed)
            continue
        r['exits'] = dict(c.exitkinds)
        side = rets.get(F.name, {'?'}) == {''}
        if side:
            r['reps'] = [x for x in r['reps'] if x[0][0] not in ('silent', 'mixed')]
            r['undecided'] = []
        seen = set()
        for t in c.transfers:
            loc = F.loc(t['I'])
            tr = path_of(M, t['st'].trace)
            r['ntrans'] += 1
            heap = t['inst'] in t['st'].res and t['st'].res[t['inst']][0] == 'heap'
            # ---- destruction
            fn = t['free']
            key = (loc, t['owned'], fn)
            if key not in seen:
                seen.add(key)
                if fn == ('c', 0):
                    if t['owned'] or heap:
                        r['reps'].append((('leak', loc, 'filter created with instance data holding references but without a free callback'), tr))
                elif fn[0] == 'g':
                    fi = freeinfo(fn[1])
                    if fi is not None:
                        fc = fi[0]
                        G = M.funcs[fn[1]]
                        for fs, nulls, I, fst in fc.freed:
                            for pth, o, k in t['owned']:
                                r['npairs'] += 1
                                if o == '*':
                                    ok = any(kk == k and ('arr' in p or any(isinstance(z, int) for z in p)) for p, kk in fs)
                                    pl = 'array'
                                else:
                                    p = pth + (o if isinstance(o, tuple) else (o,))
                                    pl = p
                                    ok = (p, k) in fs or p in nulls or any(p[:len(z)] == z for z in nulls) or (pth and any(kk == k and p[0] == z[0] for z, kk in fs))
                                if not ok:
                                    r['reps'].append((('leak', loc, 'the %s reference stored in the instance (place %s) is not released by %s at its exit %s' % (k, pl, G.sname, G.loc(I))), path_of(M, fst.trace)))
                        if heap and any(d == 0 for d, I, st in fc.deleted):
                            r['reps'].append((('leak', loc, 'the instance data allocated here is not deleted by %s' % G.sname), tr))
                        if not heap and t['inst'][0] == 'al' and any(d for d, I, st in fc.deleted):
                            r['reps'].append((('double-release', loc, 'the free callback %s deletes instance data that was not allocated with new' % G.sname), tr))
            # ---- declared dependencies
            ds, cnt = deps_of(t)
            if ds is None:
                r['undecided_deps'] = loc
                continue
            inodes = instance_nodes(t)
            allnodes = set()
            for nds, pats in ds:
                allnodes |= nds
            r['ndep'] += len(ds)
            elems = {x for x in allnodes if x is not None and x[0] in ('elem', 'ldv', 'fld', 'm')}
            for place, x in inodes:
                if x in allnodes:
                    continue
                if x[0] == 'elem' and (elems or not ds and cnt is None):
                    continue
                if elems:
                    continue
                if not allnodes and cnt is None:
                    continue     # the loop filling the list was summarised as empty
                r['dep'].append((('undeclared', loc, 'the instance keeps a node (place %s) that is not among the declared dependencies' % (place,)), tr))
            for nds, pats in ds:
                if nds == {None}:
                    r['dep'].append((('uninitialised', loc, 'fewer dependencies are filled in than the count says'), tr))
                for x in nds:
                    if x is not None and x[0] == 'sym' and x in t['st'].res and x not in {y for p, y in inodes} and not any(m == x for p, y in inodes if y[0] == 'elem' for m in t['st'].mem.get((y[1], '*'), ())):
                        r['dep'].append((('foreign', loc, 'declares a dependency on a node the instance does not keep'), tr))
            gf = t['getFrame']
            if gf[0] != 'g':
                continue
            rc = reqinfo(gf[1])
            if rc is None:
                continue
            pairs = set()
            for reqs, fa, sx in rc.initial:
                pairs |= reqs
            pairs |= rc.later
            places = {}
            for place, x in inodes:
                places.setdefault(x, set()).add(place)
            G = M.funcs[gf[1]]
            for nds, pats in ds:
                for x in nds:
                    pl = places.get(x, set())
                    for p in pl:
                        if not isinstance(p, int):
                            continue
                        asked = [(n, nd) for n, nd in pairs if nd == ('fld', ('arg', 2), p)]
                        r['nreq'] += len(asked)
                        if pats & {2, 3}:
                            for n, nd in asked:
                                l = lin(n) if n != '?' else None
                                # a pattern chosen at run time goes with the frame callback or offset chosen at run time
                                if (l is None or l != lin(('arg', 0))) and (pats <= {2, 3} or l is not None and all(k == ('arg', 0) for k, z in l[1])):
                                    r['dep'].append((('pattern', loc, 'declares %s for the node at place %s but %s requests frame %s of it' % ('/'.join(PAT.get(q, '?') for q in sorted(pats & {2, 3})), p, G.sname, show(n))), tr))
                        elif pats == {1}:
                            # no frame reuse: frame number must not be a constant
                            for n, nd in asked:
                                if n != '?' and n[0] == 'c':
                                    r['dep'].append((('pattern', loc, 'declares rpNoFrameReuse for the node at place %s but %s requests frame %s of it for every frame' % (p, G.sname, show(n))), tr))
            # requested nodes that are not dependencies at all
            declared = set()
            for nds, pats in ds:
                for x in nds:
                    declared |= places.get(x, set())
            if not elems and allnodes and None not in allnodes:
                for n, nd in pairs:
                    if nd != '?' and nd[0] == 'fld' and nd[1] == ('arg', 2) and nd[2] not in declared:
                        if any(p == nd[2] for p, x in inodes):
                            r['dep'].append((('undeclared', loc, '%s requests frames of the node at place %s, which is not a declared dependency' % (G.sname, nd[2])), tr))
    return out


_memo = []


def results():
    if not _memo:
        _memo.extend(r for rs in build.pmap(analyse, build.ir_files(build.filter_units())) for r in rs)
    return _memo


def base(ck, rules, field='reps', kinds=('create', 'free')):
    for r in results():
        if r['kind'] not in kinds:
            continue
        if r.get('toocomplex'):
            ck.cannot(r['dem'], 'state limit exceeded')
            continue
        ck.count('%s callbacks analysed' % r['kind'], sample='%s (%s:%d)' % (r['func'], r['file'], r['line']))
        yield r
        for (rule, loc, msg), path in r[field]:
            if rule in rules:
                ck.violation(rule, loc, r['func'], msg, path)


def c04():
    ck = Check('C04', explanation='For every createVideoFilter/createAudioFilter call reached on any path, the dependency array is read from abstract memory and compared with the nodes the instance keeps and with the '
               'frame numbers its frame callback requests from each of them.', assumptions=['list-valued dependencies (one entry per input clip) are compared as a whole'])
    ck.floor('create callbacks analysed', 55)
    ck.floor('dependency entries compared', 60)
    ck.floor('requests compared with a declared pattern', 60)
    for r in base(ck, {'undeclared', 'uninitialised', 'foreign', 'pattern'}, 'dep', ('create',)):
        ck.count('filter creations (path, call)', r['ntrans'])
        ck.count('dependency entries compared', r['ndep'])
        ck.count('requests compared with a declared pattern', r['nreq'])
        if r.get('undecided_deps'):
            ck.cannot(r['dem'], 'dependency array at %s not understood' % r['undecided_deps'])
    return ck.finish()


def c05():
    ck = Check('C05', explanation='Creation callbacks are interpreted path by path with one ownership typestate per node, frame, function, map and instance object; what a path hands to createVideoFilter/createAudioFilter '
               'inside the instance is compared with what the registered free callback releases on each of its paths.', assumptions=['API entry points behave as documented', 'loops over references run at least once', 'unwinding from std:: exceptions is not followed beyond the callback'])
    ck.floor('create callbacks analysed', 55)
    ck.floor('free callbacks analysed', 35)
    ck.floor('references compared with the free callback', 60)
    for r in base(ck, REF_RULES):
        ck.count('references compared with the free callback', r['npairs'])
        ck.count('acquisition sites', r.get('sites', 0))
        ck.count('exits', sum(r['exits'].values()), sample='%s: %s' % (r['func'], r['exits']))
    return ck.finish()


def c06():
    ck = Check('C06', explanation='Every exit of every creation callback registered with a result is classified as result / error / both / neither on every abstract path.',
               assumptions=['a helper that is handed the output map sets a result or an error (its own exits are part of the analysis when it is inlined)'])
    ck.floor('create callbacks analysed', 55)
    for r in base(ck, {'silent', 'mixed'}, 'reps', ('create',)):
        for k, n in r['exits'].items():
            ck.count('exits classified %s' % k, n)
        for u in r['undecided']:
            ck.cannot(r['dem'], u)
    return ck.finish()
