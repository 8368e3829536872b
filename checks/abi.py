"""C21: the binary interface."""
import glob, json, os, re, subprocess
import build, core, memory
from build import VERIF, REPO, BuildError
from flow import anyterm
from frames import ev, holds
from objs import run
from taint import Guards, canon, truth
from vlib import Check

W = os.path.join(VERIF, 'witness')


def witnesses(ck):
    for w in sorted(glob.glob(W + '/*.cpp')):
        n = os.path.basename(w)
        old = n == 'api3core.cpp'
        lines = open(w).read().split('\n')
        ck.count('statements about the interface compiled', sum('static_assert' in l for l in lines))
        r = subprocess.run(['clang++-18', '-std=c++20', '-fsyntax-only', '-w', '-ferror-limit=0', '-fno-caret-diagnostics', '-I' + REPO + '/include', '-I' + REPO + '/src/core', w], stderr=subprocess.PIPE, universal_newlines=True)
        if not r.returncode:
            continue
        seen = set()
        for l in r.stderr.split('\n'):
            m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
            if not m:
                continue
            if os.path.basename(m.group(1)) != n:
                raise BuildError('%s does not compile with this header: %s' % (n, l))
            if m.group(2) in seen:
                continue
            seen.add(m.group(2))
            text = lines[int(m.group(2)) - 1]
            what = re.search(r'"(\w+\.h): (.*)"', text)
            if 'static assertion failed' not in m.group(3) and old:
                ck.cannot(n, m.group(3))
                continue
            if what is None:
                raise BuildError(l)
            why = 'no longer holds' if 'static assertion failed' in m.group(3) else m.group(3)
            ck.violation('interface', ('src/core/' if old else 'include/') + what.group(1), n, '%s: %s' % (what.group(2), why))


def tables(ck, P):
    """{table: {slot: Func or None}}"""
    out = {}
    for M in P.modules:
        for g, d in M.globals.items():
            m = re.match(r'(const )?(VSAPI3?|VSPLUGINAPI|VSSCRIPTAPI)$', d.get('ty') or '')
            ini = d.get('init')
            if not m or not isinstance(ini, list):
                continue
            T = out.setdefault(m.group(2), {})
            at = {e[1]: e[2] for e in ini[1:] if isinstance(e, list) and e[0] == '@'}
            o = 0
            while True:
                f = M.field(m.group(2), o)
                x = at.get(o)
                if not f and x is None:
                    break
                f = f or ('slot at %d' % o,)
                T[f[0]] = P.funcs.get(P.alias.get(x[1], x[1])) if isinstance(x, list) and x[0] == 'g' else None
                o += 8
    return out


def expr(P, F, o, depth=0, up=()):
    """what an operand is, in field names and parameter numbers, through the functions called"""
    if depth > 14:
        return '?'
    if isinstance(o, int):
        if o < len(F.args):
            return up[o] if up else 'p%d' % o
        I = F.defs.get(o)
        if I is None or 'ph' in I:
            return '?'
        k, a = I['o'], I.get('a', ())
        r = lambda x: expr(P, F, x, depth + 1, up)
        if k == 'load':
            return '*' + r(a[0])
        if k == 'getelementptr':
            f = core.field_of(F, o)
            if f is None or f[2] != a[0]:
                return '?' if I.get('var') or 'off' not in I else '%s+%s' % (r(a[0]), I['off']) if I['off'] else r(a[0])
            return '%s.%s' % (r(a[0]), f[1])
        if k in ('trunc', 'zext', 'sext', 'freeze', 'bitcast'):
            return r(a[0])
        if k in ('call', 'invoke'):
            f = I.get('f')
            if not isinstance(f, list) or f[0] != 'g':
                return '?'
            G = P.funcs.get(P.alias.get(f[1], f[1]))
            args = tuple(r(x) for x in a)
            if G is not None and (G.file or '').startswith('/repo/'):
                e = result(P, G, depth + 1, args)
                return e
            return '%s(%s)' % ((G.dem if G is not None else F.m.dem(f[1])).split('(')[0].split('::')[-1].split('<')[0], ','.join(args))
        if k in ('icmp', 'xor', 'and', 'or', 'add', 'sub', 'ashr', 'lshr', 'shl', 'mul', 'sdiv'):
            return '%s%s(%s,%s)' % (k, I.get('p', ''), r(a[0]), r(a[1]))
        return '?'
    if isinstance(o, list):
        return {'i': lambda: str(o[1]), 'n': lambda: '0', 'g': lambda: '&' + o[1]}.get(o[0], lambda: '?')()
    return '?'


def result(P, G, depth=0, up=()):
    """what a function returns or, if nothing, the one function it calls"""
    rets = [b[-1] for b in G.blocks if b[-1]['o'] == 'ret']
    if len(rets) != 1:
        return '?'
    if rets[0].get('a'):
        return expr(P, G, rets[0]['a'][0], depth, up)
    return '?'


def slots(ck, P, need):
    T = tables(ck, P)
    for t in need:
        if not T.get(t):
            raise BuildError('the table %s was not found' % t)
    base = json.load(open(W + '/slots.json'))
    for t in sorted(T):
        B = base.get(t, {})
        owner, shape = {}, {}
        for s, e in B.items():
            owner.setdefault(e['f'], set()).add(s)
            if e['e']:
                shape.setdefault(e['e'], set()).add(s)
        for s, F in sorted(T[t].items()):
            ck.count('slots judged')
            src = {'VSSCRIPTAPI': 'src/vsscript/vsscript.cpp'}.get(t, 'src/core/vsapi.cpp')
            if F is None:
                ck.violation('slot', src, t + '.' + s, 'the slot is empty: callers of %s crash' % s)
                continue
            n = F.dem.split('(')[0]
            if n in owner and s not in owner[n] and s in B:
                ck.violation('slot', F.loc(F.blocks[0][0]), t + '.' + s, 'the slot holds %s, which is the function of %s' % (n, ', '.join(sorted(owner[n]))))
                continue
            e = result(P, F)
            if s in B and B[s]['e']:
                ck.count('results of slots compared')
                if e != B[s]['e'] and e in shape and s not in shape[e]:
                    ck.violation('slot', F.loc(F.blocks[0][0]), t + '.' + s, '%s returns what %s returns: %s' % (n, ', '.join(sorted(shape[e])), e))


class Quiet:
    def __init__(self):
        self.bad = False

    def violation(self, *a, **k):
        pass

    def cannot(self, *a):
        self.bad = True

    def count(self, *a):
        pass


class Neg(memory.Plain):
    def prestore(self, fl, st, I, p, v, old):
        nm = p[3] if p[0] == 'f' else 'apiMajor' if p == ('arg', 0) and self.root.dtypes and I.get('b', 4) == 4 else None
        if nm in ('apiMajor', 'apiMinor'):
            st.set(nm, v)

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            # whatever is called may configure the plugin
            for p in [p for p in st.mem if p == ('arg', 0) or p[0] == 'f' and p[3] in ('apiMajor', 'apiMinor')]:
                del st.mem[p]
        return super().call(fl, st, I, dem, sn, args)

    def key(self, fl, st):
        return (super().key(fl, st), st.get('apiMajor'), st.get('apiMinor'))


GRID = [0, 1, 2, 3, 4, 5, 6, 7, 400, 0xffff] + [(a << 16) | b for a in (1, 2, 3, 4, 5, 0x7fff) for b in (0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 0xffff)] + [-1, -(1 << 16), -2**31]


def split(v, low):
    return (v >> 16, v & 0xffff) if v >= 0x10000 or not low else (v, 0)


def negotiation(ck, P, PS):
    lim = {4: macro('VapourSynth4.h', 'VAPOURSYNTH_API_MINOR', ['-DVS_USE_LATEST_API']), 3: 6}
    slim = macro('VSScript4.h', 'VSSCRIPT_API_MINOR', ['-DVSSCRIPT_USE_LATEST_API'])

    def go(F, Pr, want, what):
        q = Quiet()
        c = Neg(q, F)
        run(Pr, q, c, F)
        if q.bad or not c.ends:
            ck.cannot(what, 'too many paths')
            return
        for v in GRID:
            leaf = lambda t: v if t == ('arg', len(F.args) - 1) else None
            got = set()
            for st, val, I, fl in c.ends:
                ok, full = holds(st, leaf)
                if ok:
                    got.add((val[1] if val and val[0] == 'g' else 0 if val == ('c', 0) else '?', full))
            ck.count('version requests judged')
            w = want(v)
            names = {g for g, _ in got}
            bad = sorted(str(x) for x in names if x != 0 and x != '?' and x != w)
            if bad:
                ck.violation('negotiation', F.loc(F.blocks[0][0]), what, 'asked for version 0x%x it returns %s, but %s' % (v & 0xffffffff, bad[0], 'this version is not supported' if w == 0 else 'that is the table of another version'))
                return
            if w and w not in names and '?' not in names:
                ck.violation('negotiation', F.loc(F.blocks[0][0]), what, 'asked for version 0x%x, which is supported, it returns nothing' % (v & 0xffffffff))
                return
    for F in P.by_dem('getVapourSynthAPI'):
        go(F, P, lambda v: {3: 'vs_internal_vsapi3', 4: 'vs_internal_vsapi'}.get(split(v, True)[0], 0) if split(v, True)[1] <= lim.get(split(v, True)[0], -1) else 0, 'getVapourSynthAPI')
    for F in P.by_dem('getVSAPIInternal'):
        q = Quiet()
        c = Neg(q, F)
        run(P, q, c, F)
        for v, w in ((3, 'vs_internal_vsapi3'), (4, 'vs_internal_vsapi')):
            ck.count('version requests judged')
            got = {val[1] if val[0] == 'g' else 0 for st, val, I, fl in c.ends if val and val[0] in 'gc' and holds(st, lambda t: v if t == ('arg', 0) else None)[0]}
            if got and got != {w}:
                ck.violation('negotiation', F.loc(F.blocks[0][0]), 'getVSAPIInternal', 'for major version %d it returns %s' % (v, ', '.join(map(str, sorted(got, key=str)))))
    for F in PS.by_dem('getVSScriptAPI'):
        table = [g for M in PS.modules for g, d in M.globals.items() if re.match(r'(const )?VSSCRIPTAPI$', d.get('ty') or '')]
        go(F, PS, lambda v: table[0] if table and v >> 16 == 4 and (v & 0xffff) <= slim else 0, 'getVSScriptAPI')
        inited(ck, F)
    # the version a plugin declares
    for F in P.by_dem('VSPlugin::configPlugin'):
        q = Quiet()
        c = Neg(q, F)
        run(P, q, c, F)
        n = next((i for i in range(len(F.args))), 0)
        for v in GRID:
            if v < 0:
                continue
            for st, val, I, fl in c.ends:
                leaf = lambda t: v if t == ('arg', 5) else None
                if not holds(st, leaf)[0] or val == ('c', 0):
                    continue
                ck.count('version requests judged')
                M, m = st.get('apiMajor'), st.get('apiMinor')
                M = None if M is None else ev(M, leaf)
                m = None if m is None else ev(m, leaf)
                w = split(v, True)
                if M is not None and M != w[0] or m is not None and m != w[1] or (m is None and w[1] and st.get('apiMinor') is None):
                    ck.violation('negotiation', F.loc(I), 'VSPlugin::configPlugin', 'a plugin that declares version 0x%x is taken as one of version %s.%s' % (v, M, m))
                    break
            else:
                continue
            break
    for F in P.repo_funcs():
        if F.dem.startswith('VSPlugin::VSPlugin(') and 'path' in F.dem and F.dem.endswith(')'):
            q = Quiet()
            c = Neg(q, F)
            run(P, q, c, F)
            if q.bad or not c.ends:
                ck.cannot('VSPlugin::VSPlugin', 'too many paths')
                continue
            done = False
            for M in (0, 1, 2, 3, 4, 5):
                for m in (0, 1, 2, 3, 5, 6, 7, 100):
                    ok = False
                    for st, val, I, fl in c.ends:
                        leaf = lambda t: M if isver(t, 'apiMajor') else m if isver(t, 'apiMinor') else None
                        ok = ok or holds(st, leaf)[0]
                    ck.count('version requests judged')
                    w = m <= lim.get(M, -1)
                    if ok != w and not done:
                        done = True
                        ck.violation('negotiation', F.loc(F.blocks[0][0]), 'VSPlugin::VSPlugin', 'a plugin that needs API %d.%d is %s' % (M, m, 'accepted although the core does not have that' if ok else 'rejected although the core has that'))


def isver(t, f):
    while isinstance(t, tuple) and t[0] == 'snap':
        t = t[1]
    return isinstance(t, tuple) and t[0] == 'ld' and (t[1] == ('arg', 0) and f == 'apiMajor' or t[1][0] == 'f' and t[1][3] == f)


def inited(ck, F):
    """the script API is only given out after a successful initialisation"""
    G = Guards(F)
    for b, blk in enumerate(F.blocks):
        if blk[-1]['o'] != 'ret':
            continue
        vals = [(blk[-1]['a'][0], b)] if blk[-1].get('a') else []
        seen = set()
        while vals:
            o, at = vals.pop()
            if isinstance(o, int):
                I = F.defs.get(o)
                if I and 'ph' in I and o not in seen:
                    seen.add(o)
                    vals += [(x, p) for p, x in I['ph']]
                elif I and I['o'] == 'select':
                    c, pol = truth(canon(F, I['a'][0]))
                    for x, y in ((I['a'][1], True), (I['a'][2], False)):
                        if not (c[0] == 'ld' and c[1][0] == 'g' and pol == y):
                            vals.append((x, at))
                        else:
                            ck.count('tables given out after initialisation')
                continue
            if isinstance(o, list) and o[0] == 'g':
                ck.count('tables given out after initialisation')
                if not any(pol and c[0] == 'ld' and c[1][0] == 'g' for c, pol in G.of(at)):
                    ck.violation('negotiation', F.loc(F.blocks[at][-1]), 'getVSScriptAPI', 'the table is returned although initialisation may have failed')


def macro(header, name, defs):
    r = subprocess.run(['clang++-18', '-E', '-P', '-x', 'c++', '-I' + REPO + '/include'] + defs + ['-'], input='#include "%s"\nvalue_is %s\n' % (header, name), stdout=subprocess.PIPE, universal_newlines=True, check=True)
    return int(r.stdout.strip().split('value_is')[-1])


def own_table(ck, P):
    """functions of a plugin are called with the table of the version the plugin asked for"""
    for F in P.repo_funcs():
        G = None
        for b, blk in enumerate(F.blocks):
            for I in blk:
                if I['o'] not in ('call', 'invoke') or isinstance(I.get('f'), list) or not I.get('a'):
                    continue
                last = canon(F, I['a'][-1])
                fn = canon(F, I['f'])
                which = None
                if last[0] == 'call' and 'getVSAPIInternal' in last[1]:
                    which = last[2]
                elif last[0] == 'g' and last[1] in ('vs_internal_vsapi', 'vs_internal_vsapi3'):
                    which = ('c', 4 if last[1] == 'vs_internal_vsapi' else 3)
                if which is None or fn[0] != 'ld':
                    continue
                names = [core.field_of(F, x) for x in (I['f'],)]
                owner = base(fn[1])
                ck.count('calls into plugins judged')
                if which[0] == 'ld':
                    # the version must be that of the object the function is of
                    f = fieldname(F, which[1])
                    if f and f != 'apiMajor':
                        ck.violation('table', F.loc(I), F.sname, 'the table handed to the plugin is chosen by %s' % f)
                    elif base(which[1]) != owner and not related(base(which[1]), owner):
                        ck.violation('table', F.loc(I), F.sname, 'the table handed to a function is chosen by the version of another object')
                elif which[0] == 'c' and which[1] not in (3, 4):
                    ck.violation('table', F.loc(I), F.sname, 'there is no table of major version %d' % which[1])
                elif which[0] == 'c':
                    G = G or Guards(F)
                    tested = False
                    for c, pol in G.of(b):
                        if c[0] == 'icmp' and c[1] == 'eq' and c[3][0] == 'c' and c[2][0] == 'ld' and fieldname(F, c[2][1]) == 'apiMajor':
                            ck.count('tables chosen by a test of the version')
                            tested = True
                            v = c[3][1]
                            if pol != (v == which[1]) and (pol or v == which[1]):
                                ck.violation('table', F.loc(I), F.sname, 'a function of API %s is called with the table of API %d' % (v if pol else 'other than %d' % v, which[1]))
                    if not tested and not (which[1] == 3 and 'MakeLinear' in F.dem):
                        ck.violation('table', F.loc(I), F.sname, 'a function of the plugin is called with the table of API %d whatever version the plugin asked for' % which[1])


def declared(ck, P):
    """what is created through a table belongs to the version of that table"""
    slot = {}
    for t, S in tables(ck, P).items():
        for s, F in S.items():
            if F is not None and t in ('VSAPI', 'VSAPI3'):
                slot.setdefault(F.name, set()).add(3 if t == 'VSAPI3' else 4)
    calls = {}
    for F in P.repo_funcs():
        for I in F.insts():
            if I['o'] in ('call', 'invoke') and isinstance(I.get('f'), list) and I['f'][0] == 'g':
                calls.setdefault(P.alias.get(I['f'][1], I['f'][1]), []).append((F, I))
    work = set()
    for F in P.repo_funcs():
        n = F.sname.split('::')
        if n[-1] in ('VSNode', 'VSFunction'):
            for I in F.insts():
                if I['o'] == 'store':
                    v, p = canon(F, I['a'][0]), core.field_of(F, I['a'][1])
                    if v[0] == 'p' and p and p[1] == 'apiMajor':
                        work.add((F.name, v[1]))
    ck.count('constructors that take a version', len(work))
    seen = set(work)
    work = list(work)
    while work:
        n, k = work.pop()
        for G, I in calls.get(n, ()):
            if k >= len(I['a']):
                continue
            v = canon(G, I['a'][k])
            if v[0] == 'p' and (G.name, v[1]) not in seen:
                seen.add((G.name, v[1]))
                work.append((G.name, v[1]))
            elif v[0] == 'c' and len(slot.get(G.name, ())) == 1:
                ck.count('versions of created objects judged')
                w = list(slot[G.name])[0]
                if v[1] != w:
                    ck.violation('table', G.loc(I), G.sname, 'what is created through API %d is marked as API %d and will be called with the wrong table' % (w, v[1]))


def base(e):
    while e[0] == '+':
        e = e[1]
    return e


def related(a, b):
    """one is reached from the other (a function of a plugin and its plugin)"""
    def inside(x, y):
        return x == y or isinstance(y, tuple) and any(inside(x, z) for z in y if isinstance(z, tuple))
    return inside(a, b) or inside(b, a)


def fieldname(F, e):
    off = 0
    b = e
    if b[0] == '+':
        off, b = b[2], b[1]
    if b[0] == 'p':
        k = b[1] - max(0, len(F.args) - (len(F.dtypes) - 1))
        t = F.dtypes[k + 1] if 0 <= k and len(F.dtypes) > k + 1 else None
    else:
        return None
    if not t or not t.endswith('*'):
        return None
    f = F.m.field(t[:-1].replace('const ', ''), off)
    return f[0] if f else None


def c21():
    ck = Check('C21', explanation='Statements about every enumeration value, structure, offset, type and size of the published headers (and of the copy of the old interface the core is compiled with) are compiled against the '
                                  'headers; the initialisers of the function tables are read slot by slot; version negotiation is evaluated on the order types of the requested version; calls into plugins must pass the table of the plugin\'s version.',
               assumptions=['x86-64 Linux ABI'])
    witnesses(ck)
    P = core.core_program('flat')
    PS = core.Program([build.REPO + '/src/vsscript/vsscript.cpp'], 'flat')
    slots(ck, P, ('VSAPI', 'VSAPI3', 'VSPLUGINAPI'))
    slots(ck, PS, ('VSSCRIPTAPI',))
    negotiation(ck, P, PS)
    own_table(ck, P)
    declared(ck, P)
    ck.floor('statements about the interface compiled', 2400)
    ck.floor('slots judged', 200)
    ck.floor('version requests judged', 200)
    ck.floor('calls into plugins judged', 4)
    ck.floor('tables given out after initialisation', 1)
    ck.floor('constructors that take a version', 4)
    ck.floor('versions of created objects judged', 4)
    return ck.finish()
