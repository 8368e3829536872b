"""Frame-producing callbacks of all filters: reference balance and activation protocol."""
import build
from vlib import Check, path_of
from ir import Module
from fetch import run_fetch, show
from proto import run_getframe, is_getframe, TooComplex

REF_RULES = {'leak', 'double-release', 'use-after-release', 'wrong-kind', 'unowned', 'unowned-return', 'return-kind'}
PROTO_RULES = {'nothing', 'frame-and-error', 'frame-and-request', 'error-and-request'}


def analyse(item):
    src, js = item
    M = Module(js)
    out = []
    for F in M.funcs.values():
        if not is_getframe(F):
            continue
        r = {'func': F.sname, 'dem': F.dem, 'file': F.file, 'line': F.line}
        try:
            c, e, reps = run_getframe(F)
        except TooComplex:
            r['toocomplex'] = True
            out.append(r)
            continue
        r.update(sites=len(c.sites), exits=c.exits, kinds=c.exitkinds, states=len(e.states), edges=len(e.visited_edges),
                 reps=[(k, path_of(M, tr)) for k, tr in reps.items()],
                 sitelist=sorted({M.loc(F.blocks[b][n].get('l', -1), F) for k, b, n in c.sites}))
        out.append(r)
    return out


def results():
    return [r for rs in build.pmap(analyse, build.ir_files(build.filter_units())) for r in rs]


def common(ck, rules):
    for r in results():
        ck.count('frame-producing functions found')
        if r.get('toocomplex'):
            ck.cannot(r['dem'], 'state limit exceeded')
            continue
        ck.count('frame-producing functions analysed', sample='%s (%s:%d)' % (r['func'], r['file'], r['line']))
        ck.count('acquisition sites', r['sites'], sample=r['sitelist'][0] if r['sitelist'] else None)
        ck.count('function exits reached', r['exits'], sample='%s: %s' % (r['func'], r['kinds']))
        ck.count('abstract states', r['states'])
        for (rule, loc, msg), path in r['reps']:
            if rule in rules:
                ck.violation(rule, loc, r['func'], msg, path)


def c01():
    ck = Check('C01', explanation='Every frame-producing callback of every built-in filter is interpreted abstractly, path by path, with one typestate (owned / released / handed on) per '
               'frame, node, function and map reference obtained; an alarm is a path on which a reference is dropped, given up twice or used afterwards.',
               assumptions=['API entry points behave as documented', 'loops that handle references run at least once', 'no exception is thrown between acquisition and release'])
    ck.floor('frame-producing functions analysed', 70)
    ck.floor('acquisition sites', 200)
    common(ck, REF_RULES)
    return ck.finish()


def c02():
    ck = Check('C02', explanation='Every exit of every frame-producing callback is classified on every abstract path as frame / error / more-requests / nothing.',
               assumptions=['a search loop that ends in requesting or fetching a frame finds its element'])
    ck.floor('frame-producing functions analysed', 70)
    ck.floor('function exits reached', 200)
    common(ck, PROTO_RULES)
    return ck.finish()


def analyse_fetch(item):
    src, js = item
    M = Module(js)
    out = []
    for F in M.funcs.values():
        if not is_getframe(F):
            continue
        r = {'func': F.sname, 'dem': F.dem, 'file': F.file, 'line': F.line}
        out.append(r)
        try:
            c, e, reps = run_fetch(F)
        except TooComplex:
            r['toocomplex'] = True
            continue
        r.update(fetches=len({(I['_b'], I['_n']) for I, *x in c.got}), compared=len(c.got), initial=len(c.initial), reps=[(k, path_of(M, tr)) for k, tr in reps.items()],
                 sample=['frame %s of %s' % (show(n), show(nd)) for I, n, nd, fa, st in c.got[:1]])
    return out


def c03():
    ck = Check('C03', explanation='Each getFrameFilter in an all-frames-ready activation is matched, by symbolic frame number and node, against the requests made on every compatible path of the activation before it.',
               assumptions=['frame numbers computed in loops or by calls match any request to a compatible node'])
    ck.floor('frame-producing functions analysed', 70)
    ck.floor('fetch sites', 80)
    for rs in build.pmap(analyse_fetch, build.ir_files(build.filter_units())):
        for r in rs:
            if r.get('toocomplex'):
                ck.cannot(r['dem'], 'state limit exceeded')
                continue
            ck.count('frame-producing functions analysed', sample='%s (%s:%d)' % (r['func'], r['file'], r['line']))
            ck.count('fetch sites', r['fetches'], sample=r['sample'])
            ck.count('fetches compared (state, call)', r['compared'])
            ck.count('request sets of first activations', r['initial'])
            for (rule, loc, msg), path in r['reps']:
                ck.violation(rule, loc, r['func'], msg, path)
    return ck.finish()
