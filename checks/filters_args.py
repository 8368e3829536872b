"""C07: what creation callbacks read from and write to their maps against the registered signatures."""
import build
from vlib import Check
from ir import Module
from refs import api_name
from regs import registrations, parse_sig
from args import Reads, READS, ACCEPT, unguarded_reads
from create import is_create

WRITES = {'mapSetInt': 'int', 'mapSetIntArray': 'int', 'mapSetFloat': 'float', 'mapSetFloatArray': 'float', 'mapSetData': 'data', 'mapSetNode': 'node', 'mapConsumeNode': 'node', 'mapSetFunction': 'func',
          'mapConsumeFunction': 'func', 'mapSetFrame': 'frame', 'mapConsumeFrame': 'frame', 'mapSetEmpty': None, 'createVideoFilter': 'vnode', 'createAudioFilter': 'anode'}


def writes(R, F, maps, bind, out, depth=0, stack=()):
    if depth > 6 or F.name in stack:
        return
    for I in F.insts():
        if I['o'] not in ('call', 'invoke'):
            continue
        f = I['f']
        if isinstance(f, int):
            nm = api_name(F, F.defs.get(f))
            if nm in WRITES and isinstance(I['a'][0], int) and I['a'][0] in maps:
                out.append((F, I, nm, {'clip'} if nm.startswith('create') else R.strings(F, I['a'][1], bind)))
        elif f[0] == 'g' and any(isinstance(a, int) and a in maps for a in I['a']):
            G = R.M.funcs.get(f[1])
            if G is not None:
                writes(R, G, {k for k, a in enumerate(I['a']) if isinstance(a, int) and a in maps}, {k: R.strings(F, a, bind) for k, a in enumerate(I['a'])}, out, depth + 1, stack + (F.name,))


def analyse(item):
    src, js = item
    M = Module(js)
    regs = registrations(M)
    R = Reads(M)
    rs = []
    for r in regs:
        res = {'name': r['name'], 'loc': r['loc'], 'in': r['in'], 'reps': [], 'reads': 0, 'writes': 0, 'guards': 0, 'unknown': 0}
        rs.append(res)
        if r['args'] is None or r['ret'] is None:
            res['skip'] = 'signature is not a constant'
            continue
        p, anyin = parse_sig(r['args'])
        q, anyout = parse_sig(r['ret'])
        if p is None or q is None:
            res['reps'].append(('malformed', r['loc'], r['in'], 'the signature of %s does not parse: "%s" -> "%s"' % (r['name'], r['args'], r['ret'])))
            continue
        for what, l in (('argument', p), ('result', q)):
            names = [a[0] for a in l]
            for x in {x for x in names if names.count(x) > 1}:
                res['reps'].append(('malformed', r['loc'], r['in'], '%s "%s" of %s is declared twice' % (what, x, r['name'])))
        F = M.funcs.get(r['fn'])
        if F is None:
            res['skip'] = 'callback not in this unit'
            continue
        res['func'] = F.sname
        rd = []
        R.scan(F, {0}, {}, rd)
        d = {a[0]: a for a in p}
        sib = [parse_sig(x['args'] or '')[0] or [] for x in regs if x['fn'] == r['fn']]
        anysib = {a[0] for x in sib for a in x}     # functions sharing the callback tell each other apart by their user data
        seen, whole = set(), False
        for G, I, nm, ss in rd:
            res['reads'] += 1
            for s in ss:
                if s is None:
                    whole = True
                    res['unknown'] += 1
                    continue
                seen.add(s)
                if s not in d:
                    if not anyin and s not in anysib:
                        res['reps'].append(('undeclared', G.loc(I), G.sname, '%s reads "%s", which its signature "%s" does not declare' % (r['name'], s, r['args'])))
                    continue
                if READS.get(nm) and d[s][1] not in ACCEPT[READS[nm]]:
                    res['reps'].append(('type', G.loc(I), G.sname, '%s reads "%s" with %s but declares it %s' % (r['name'], s, nm, d[s][1])))
        if not whole and not anyin and r['name'] != 'Cache':
            for s in d:
                if s not in seen:
                    res['reps'].append(('unread', F.loc(next(F.insts())), F.sname, '%s declares the argument "%s" but never reads it' % (r['name'], s)))
        bad, n = unguarded_reads(R, F, sib)
        res['guards'] = n
        for G, I, nm, s in bad:
            res['reps'].append(('unguarded', G.loc(I), G.sname, '%s("%s") aborts the process when the value is absent: it has no error argument and no test that the value is there precedes it' % (nm, s)))
        wr = []
        writes(R, F, {1}, {}, wr)
        e = {a[0]: a for a in q}
        for G, I, nm, ss in wr:
            res['writes'] += 1
            for s in ss:
                if s is None or anyout:
                    continue
                if s not in e:
                    res['reps'].append(('result', G.loc(I), G.sname, '%s returns "%s", which its signature "%s" does not declare' % (r['name'], s, r['ret'])))
                elif WRITES[nm] and WRITES[nm] != e[s][1] and e[s][1] not in ACCEPT.get(WRITES[nm], ()):
                    res['reps'].append(('result', G.loc(I), G.sname, '%s returns "%s" with %s but declares it %s' % (r['name'], s, nm, e[s][1])))
    return rs


def c07():
    ck = Check('C07', explanation='Every registerFunction call is paired with its callback; every map read reachable from the callback on its input map, with the constant key resolved through helper parameters, is compared with '
               'the declared name and type; reads that abort on absence must be preceded on every path by a test that depends on the presence of that value; declared names are compared with what is read.',
               assumptions=['a branch whose condition depends on the element count or read error of a value, and whose other edge cannot reach the read, is taken to test its presence', 'the legacy arguments of std.Cache are accepted and ignored by design'])
    ck.floor('registered functions', 70)
    ck.floor('argument reads compared', 200)
    for rs in build.pmap(analyse, build.ir_files(build.filter_units())):
        for r in rs:
            ck.count('registered functions', sample='%s (%s)' % (r['name'], r['loc']))
            if r.get('skip'):
                ck.cannot(r['name'], r['skip'])
            ck.count('argument reads compared', r['reads'])
            ck.count('results compared', r['writes'])
            ck.count('aborting reads shown to be guarded', r['guards'])
            for rule, loc, fn, msg in r['reps']:
                ck.violation(rule, loc, fn, msg)
    return ck.finish()
