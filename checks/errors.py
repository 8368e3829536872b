"""C10: exceptions do not cross the C interface."""
import glob
import build, core, exc
from vlib import Check


def units():
    return build.core_units() + build.filter_units() + [p for p in sorted(glob.glob(build.REPO + '/src/core/kernel/*.cpp') + glob.glob(build.REPO + '/src/core/expr/*.cpp')) if not p.endswith('/main.cpp')] + \
        [build.REPO + '/src/vsscript/vsscript.cpp', build.REPO + '/src/vspipe/vspipe.cpp', build.REPO + '/src/vspipe/vsjson.cpp', build.REPO + '/src/common/wave.cpp']


def c10():
    ck = Check('C10', explanation='Which exceptions may leave which function: throw statements and throwing library functions (std::filesystem without error code, std::regex, number conversions), propagated through all calls '
                                  'and filtered by the handlers at each call with the class hierarchy, to a fixed point. Nothing may arrive at a function called from outside the C++ code or at a noexcept function.',
               assumptions=['running out of memory or threads and index checks of containers are outside', 'callbacks of plugins do not throw'])
    P = core.Program([u for u in units()], 'flat')
    X = exc.Exc(P).run()
    nthrow = sum(1 for F in X.fs for I in F.insts() if I['o'] in ('call', 'invoke') and [t for t in X.thrown(F, I) if t not in exc.EXHAUST])
    ck.count('throwing instructions', nthrow)
    ck.count('handlers', sum(1 for F in X.fs if (F.file or '').startswith('/repo/') for I in F.insts() if I['o'] == 'landingpad' and any(c[0] == 'c' for c in I['ct'])))
    seen = set()
    for F in X.entries():
        ck.count('functions called from outside judged')
        for k in sorted(X.esc.get((id(F.m), F.name), ()), key=str):
            report(ck, X, F, k, X.path(F, k), 'leaves this function, which is called through the C interface', seen)
    for F in X.fs:
        if (F.file or '').startswith('/repo/'):
            ck.count('functions followed')
    for (fn, k), (F, I, G) in sorted(X.term.items(), key=str):
        if (F.file or '').startswith('/repo/'):
            report(ck, X, F, k, [(F, I)] + (X.path(G, k) if G is not None else []), 'meets a function that must not throw', seen)
    ck.floor('throwing instructions', 80)
    ck.floor('handlers', 20)
    ck.floor('functions called from outside judged', 300)
    ck.floor('functions followed', 1500)
    return ck.finish()


def report(ck, X, F, k, path, how, seen):
    own = [(G, I) for G, I in path if (G.file or '').startswith('/repo/')]
    last = own[-1] if own else (F, F.blocks[0][0])
    where = next((G.loc(I) for G, I in reversed(own) if not G.loc(I).startswith('/usr/')), last[0].loc(last[1]))
    key = (F.name, k[0], last[0].name, last[0].loc(last[1]))
    if key in seen:
        return
    seen.add(key)
    ck.violation('escape', where, F.sname, 'a %s raised here %s' % (k[0], how), ' > '.join('%s:%s' % (G.sname, G.loc(I).split(':')[-1]) for G, I in path))
