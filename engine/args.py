"""Reads of the input map in creation callbacks against the registered argument signatures."""
from refs import api_name
from ir import operands, succ_of
from regs import registrations, parse_sig
from create import is_create

READS = {'mapGetInt': 'int', 'mapGetIntSaturated': 'int', 'mapGetIntArray': 'int', 'mapGetFloat': 'float', 'mapGetFloatSaturated': 'float', 'mapGetFloatArray': 'float',
         'mapGetData': 'data', 'mapGetDataSize': 'data', 'mapGetDataTypeHint': 'data', 'mapGetNode': 'node', 'mapGetFunction': 'func', 'mapGetFrame': 'frame', 'mapNumElements': None, 'mapGetType': None}
ERRARG = {'mapGetIntArray': 2, 'mapGetFloatArray': 2}
ACCEPT = {'int': {'int'}, 'float': {'float'}, 'data': {'data'}, 'node': {'vnode', 'anode'}, 'func': {'func'}, 'frame': {'vframe', 'aframe'}}


class Reads:
    def __init__(self, M):
        self.M = M

    def strings(self, F, o, bind, seen=None):
        """set of constant strings operand o may be; None in the set = unknown"""
        seen = seen or set()
        s = self.M.string(o) if isinstance(o, list) else None
        if s is not None:
            return {s}
        if isinstance(o, int):
            if o in seen:
                return set()
            seen.add(o)
            D = F.defs.get(o)
            if D is None:
                return bind.get(o, {None})
            if D['o'] == 'phi':
                r = set()
                for q, x in D['ph']:
                    r |= self.strings(F, x, bind, seen)
                return r
            if D['o'] == 'select':
                return self.strings(F, D['a'][1], bind, seen) | self.strings(F, D['a'][2], bind, seen)
        return {None}

    def ismap(self, F, o, maps, seen=None):
        return isinstance(o, int) and o in maps

    def scan(self, F, maps, bind, out, depth=0, stack=()):
        """maps: SSA ids of F that are the input map; bind: argument id -> strings"""
        if depth > 6 or F.name in stack:
            return
        for I in F.insts():
            if I['o'] not in ('call', 'invoke'):
                continue
            f = I['f']
            if isinstance(f, int):
                nm = api_name(F, F.defs.get(f))
                if nm in READS and self.ismap(F, I['a'][0], maps):
                    out.append((F, I, nm, self.strings(F, I['a'][1], bind)))
                elif nm in ('copyMap', 'getSavedFunction', 'invoke', 'mapGetKey', 'mapNumKeys') and any(self.ismap(F, a, maps) for a in I['a']):
                    out.append((F, I, nm, {None}))
                continue
            if f[0] == 'g' and any(self.ismap(F, a, maps) for a in I['a']):
                G = self.M.funcs.get(f[1])
                if G is None:
                    out.append((F, I, '?' + f[1], {None}))
                    continue
                m2 = {k for k, a in enumerate(I['a']) if self.ismap(F, a, maps)}
                b2 = {k: self.strings(F, a, bind) for k, a in enumerate(I['a'])}
                self.scan(G, {G.args[k] if isinstance(G.args[k], int) else k for k in m2}, b2, out, depth + 1, stack + (F.name,))



def const0(o):
    return isinstance(o, list) and o[0] == 'i' and int(o[1]) == 0


def rootplace(F, o):
    """(base SSA value or global, constant offset or '*')"""
    off = 0
    while isinstance(o, int):
        D = F.defs.get(o)
        if D is None or D['o'] not in ('getelementptr', 'bitcast', 'addrspacecast'):
            break
        if D['o'] == 'getelementptr':
            if off != '*' and 'off' in D and D['off'] is not None and not D.get('var'):
                off += D['off']
            else:
                off = '*'
        o = D['a'][0]
    if isinstance(o, list) and o[0] == 'cg':
        return (o[1][1] if isinstance(o[1], list) else str(o[1]), o[2] if off != '*' else '*')
    if isinstance(o, list):
        return (str(o), off)
    D = F.defs.get(o)
    if D is not None and D['o'] == 'load' and D['a'] and isinstance(D['a'][0], int):
        return (('*',) + rootplace(F, D['a'][0]), off)
    return (o, off)


class Presence:
    """which SSA values of F depend on whether input value `key` is there (its element count, its read errors)"""

    def __init__(self, R, F, key, bind, maps):
        self.F = F
        self.R = R
        taint = set()
        places = set()

        def place_tainted(p):
            b, o = p
            return (b, '*') in places or (b, o) in places or o == '*' and any(q[0] == b for q in places)
        grow = True
        while grow:
            grow = False
            for I in F.insts():
                o = I['o']
                i = I.get('i')
                if o in ('call', 'invoke'):
                    nm = api_name(F, F.defs.get(I['f'])) if isinstance(I['f'], int) else None
                    if nm in READS and isinstance(I['a'][0], int) and I['a'][0] in maps:
                        ss = R.strings(F, I['a'][1], bind)
                        if ss == {key}:
                            k = ERRARG.get(nm, 3)
                            if nm in ('mapNumElements', 'mapGetType') and i is not None and i not in taint:
                                taint.add(i)
                                grow = True
                            elif nm not in ('mapNumElements', 'mapGetType') and I['a'][k] != ['n']:
                                p = rootplace(F, I['a'][k])
                                if p not in places:
                                    places.add(p)
                                    grow = True
                                # pointer results are null when the value is absent
                                if i is not None and i not in taint and I.get('t', '').startswith('ptr'):
                                    taint.add(i)
                                    grow = True
                        continue
                    if nm is not None:
                        continue
                    if isinstance(I['f'], list) and any(isinstance(a, int) and a in maps for a in I['a']):
                        # a helper reading the same key gives a value that depends on it
                        G = R.M.funcs.get(I['f'][1])
                        if G is not None:
                            out = []
                            m2 = {k for k, a in enumerate(I['a']) if isinstance(a, int) and a in maps}
                            R.scan(G, m2, {k: R.strings(F, a, bind) for k, a in enumerate(I['a'])}, out)
                            if any(ss == {key} for *x, ss in out):
                                if i is not None and i not in taint:
                                    taint.add(i)
                                    grow = True
                                for a in I['a']:
                                    if isinstance(a, int) and a not in maps and a in F.defs:
                                        p = rootplace(F, a)
                                        p = (p[0], '*')
                                        if p not in places and F.defs.get(p[0] if isinstance(p[0], int) else -1, {}).get('o') == 'alloca':
                                            places.add(p)
                                            grow = True
                        continue
                    ins = [a for a in I.get('a', ()) if isinstance(a, int)]
                    if any(a in taint or place_tainted(rootplace(F, a)) for a in ins):
                        if i is not None and i not in taint:
                            taint.add(i)
                            grow = True
                        if any(a in taint for a in ins):
                            for a in ins:
                                p = rootplace(F, a)
                                if isinstance(p[0], int) and F.defs.get(p[0], {}).get('o') == 'alloca':
                                    p = (p[0], '*')
                                    if p not in places:
                                        places.add(p)
                                        grow = True
                    continue
                if o == 'store':
                    v, p = I['a'][0], I['a'][1]
                    if isinstance(v, int) and v in taint:
                        q = rootplace(F, p)
                        if q not in places:
                            places.add(q)
                            grow = True
                    continue
                if i is None or i in taint:
                    continue
                if o == 'load':
                    if place_tainted(rootplace(F, I['a'][0])):
                        taint.add(i)
                        grow = True
                    continue
                if o == 'getelementptr':
                    continue
                if any(isinstance(x, int) and x in taint for x in operands(I)):
                    taint.add(i)
                    grow = True
                elif o == 'phi':
                    # which value is chosen may depend on a tainted branch
                    for q, x in I['ph']:
                        t = F.blocks[q][-1]
                        for B in [t] + [F.blocks[z][-1] for z in F.preds(q)]:
                            if len(succ_of(B)) > 1 and any(isinstance(y, int) and y in taint for y in B.get('a', ())):
                                taint.add(i)
                                grow = True
                                break
                        if i in taint:
                            break
        self.taint = taint

    def guarded(self, blk):
        """every path to block blk takes a restricting edge of a branch on a tainted value"""
        F = self.F
        cut = set()
        for b, insts in enumerate(F.blocks):
            t = insts[-1]
            if t['o'] not in ('br', 'switch') or not any(isinstance(a, int) and a in self.taint for a in t.get('a', ())):
                continue
            ss = F.succs(b)
            if len(ss) < 2:
                continue
            reach = {s: self.reaches(s, blk, b) for s in ss}
            if all(reach.values()):
                continue
            for s in ss:
                if reach[s]:
                    cut.add((b, s))
        seen, todo = {0}, [0]
        while todo:
            b = todo.pop()
            if b == blk:
                return False
            for s in F.succs(b):
                if (b, s) not in cut and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return True

    def reaches(self, a, z, avoid):
        if a == avoid:
            return False
        seen, todo = {a}, [a]
        while todo:
            b = todo.pop()
            if b == z:
                return True
            for s in self.F.succs(b):
                if s != avoid and s not in seen:
                    seen.add(s)
                    todo.append(s)
        return False


def nulls(F, o, blk):
    """where an operand is a null pointer: [(block, None)], or [(block, condition that selects null)]"""
    if o == ['n']:
        return [(blk, None)]
    D = F.defs.get(o) if isinstance(o, int) else None
    if D is None:
        return []
    if D['o'] == 'select' and ['n'] in D['a'][1:]:
        return [(D['_b'], D['a'][0])]
    if D['o'] == 'phi' and any(x == ['n'] for q, x in D['ph']):
        r = []
        for q, x in D['ph']:
            if x == ['n']:
                T = F.blocks[q][-1]
                r.append((q, T['a'][0] if T.get('a') and isinstance(T['a'][0], int) and len(F.succs(q)) > 1 else None))
        return r
    return []


def unguarded_reads(R, F, sigs):
    """null-error reads of values that may be absent with no presence test on some path; [(func, I, name, key)], checked count"""
    opt = {a[0] for p in sigs for a in p if a[3]}
    emp = {a[0] for p in sigs for a in p if a[4]}
    bad, n = [], 0

    def walk(F, maps, bind, stack, outer):
        nonlocal n
        for I in F.insts():
            if I['o'] not in ('call', 'invoke'):
                continue
            f = I['f']
            if isinstance(f, int):
                nm = api_name(F, F.defs.get(f))
                if nm not in READS or READS[nm] is None or not isinstance(I['a'][0], int) or I['a'][0] not in maps:
                    continue
                k = ERRARG.get(nm, 3)
                nul = nulls(F, I['a'][k], I['_b'])
                if not nul:
                    continue
                for s in R.strings(F, I['a'][1], bind):
                    if s is None:
                        continue
                    ok = s not in opt
                    if ok and nm not in ERRARG:
                        ok = const0(I['a'][2]) and s not in emp
                    elif ok:
                        ok = s not in emp or True
                    if ok:
                        continue
                    n += 1
                    pr = Presence(R, F, s, bind, maps)
                    if all(c in pr.taint if c is not None else pr.guarded(b) for b, c in nul) or pr.guarded(I['_b']) or any(Presence(R, G, s, b2, m2).guarded(J['_b']) for G, J, b2, m2 in outer):
                        continue
                    bad.append((F, I, nm, s))
            elif f[0] == 'g' and any(isinstance(a, int) and a in maps for a in I['a']):
                G = R.M.funcs.get(f[1])
                if G is not None and G.name not in stack and len(stack) < 6:
                    m2 = {k for k, a in enumerate(I['a']) if isinstance(a, int) and a in maps}
                    walk(G, m2, {k: R.strings(F, a, bind) for k, a in enumerate(I['a'])}, stack + (F.name,), outer + [(F, I, bind, maps)])
    walk(F, {0}, {}, (), [])
    return bad, n


if __name__ == '__main__':
    import build, time
    from ir import Module
    for src, js in build.ir_files(build.filter_units()):
        M = Module(js)
        regs = registrations(M)
        R = Reads(M)
        for F in M.funcs.values():
            if not is_create(F):
                continue
            t = time.time()
            bad, n = unguarded_reads(R, F, [parse_sig(r['args'] or '')[0] or [] for r in regs if r['fn'] == F.name])
            print('==', F.sname, n, '%.1f' % (time.time() - t))
            for G, I, nm, s in bad:
                print('   !!', G.sname, G.loc(I), nm, s)
